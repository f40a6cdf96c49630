"""Terms -> linear integer arithmetic (z3).  An over-approximation where a
term is opaque, so 'unsat' here is unsat of the bit-vector query; 'sat' is
only reported together with a model that is re-evaluated on the terms."""
import z3
import term as tm
from term import T, rng

_ie = {}       # T -> (expr, side constraints tuple, deps)
_be = {}
_fn = {}
_k = [0]

def _fresh(n):
    _k[0] += 1
    return z3.Int('%s!%d' % (n, _k[0]))

IV = z3.IntVal

class Ctx:
    """side conditions needed by an expression are collected per term"""

_side = {}     # T -> frozenset of z3 constraints (transitively)

def _sides(*ts):
    r = frozenset()
    for t in ts:
        if type(t) is T:
            s = _side.get(t)
            if s: r = r | s if r else s
    return r

def ie(t):
    """unsigned integer value of a term"""
    if type(t) is int: return t
    e = _ie.get(t)
    if e is not None: return e
    op = t.op; a = t.a; w = t.w
    if w == 1 and op in ('eq', 'ult', 'slt', 'and', 'or', 'not', 'xor'):
        b = be(t)
        e = z3.If(b, IV(1), IV(0))
        _ie[t] = e
        return e
    s = frozenset()
    if op == 'var':
        e = z3.Int(a[0])
        lo, hi = tm._vmax.get(t, (0, (1 << w) - 1))
        s = frozenset((e >= lo, e <= hi))
    elif op == 'cat':
        e = None
        sh = w
        for pw, p in a:
            sh -= pw
            if type(p) is int:
                if p == 0: continue
                x = p << sh
            else:
                x = ie(p)
                if sh: x = x * (1 << sh)
                s = s | _sides(p)
            e = x if e is None else e + x
        if type(e) is int: e = IV(e)
    elif op == 'lin':
        c, ts = a
        half = 1 << (w - 1)
        M = 1 << w
        lo = hi = c if c < half else c - M
        e = IV(lo) if lo else None
        for x, k in ts:
            if k >= half: k -= M
            l, h = rng(x)
            lo += min(k * l, k * h); hi += max(k * l, k * h)
            y = ie(x)
            if k != 1: y = y * k
            e = y if e is None else e + y
            s = s | _sides(x)
        if not (lo >= 0 and hi < M):
            # unknown number of wraps
            kmin = lo // M; kmax = hi // M
            if kmax - kmin > 3 and False: pass
            v = _fresh('w')
            e = e - v * M
            s = s | frozenset((v >= kmin, v <= kmax, e >= 0, e < M))
    elif op == 'ext':
        x, hi, lo = a
        v = ie(x)
        s = _sides(x)
        m = _fresh('m')
        tot = m * (1 << lo) if lo else m
        cs = [m >= 0, m < (1 << (hi - lo + 1))]
        if lo:
            l = _fresh('l'); tot = tot + l
            cs += [l >= 0, l < (1 << lo)]
        if hi + 1 < x.w and rng(x)[1] >= (1 << (hi + 1)):
            h = _fresh('h'); tot = tot + h * (1 << (hi + 1))
            cs += [h >= 0, h < (1 << (x.w - hi - 1))]
        cs.append(v == tot)
        s = s | frozenset(cs)
        e = m
    elif op == 'ite':
        e = z3.If(be(a[0]), ie(a[1]), ie(a[2]))
        s = _sides(*a)
    elif op in ('byte', 'sel', 'uf'):
        args = a[1:]
        f = _fn.get((op, a[0], w, len(args)))
        if f is None:
            f = _fn[(op, a[0], w, len(args))] = z3.Function('%s_%s_%d_%d' % (op, a[0], w, len(args)), *([z3.IntSort()] * (len(args) + 1)))
        e = f(*[ie(x) for x in args]) if args else _fresh('u')
        s = _sides(*args) | frozenset((e >= 0, e < (1 << w)))
    else:
        # opaque: any value of the width (sound over-approximation)
        e = _fresh('o_' + op)
        lo, hi = rng(t)
        s = frozenset((e >= lo, e <= hi))
    _ie[t] = e
    if s: _side[t] = s
    return e

def be(t):
    if type(t) is int: return z3.BoolVal(bool(t))
    e = _be.get(t)
    if e is not None: return e
    op = t.op; a = t.a
    s = None
    if op == 'not': e = z3.Not(be(a[0]))
    elif op == 'and': e = z3.And(be(a[0]), be(a[1]))
    elif op == 'or': e = z3.Or(be(a[0]), be(a[1]))
    elif op == 'xor': e = z3.Xor(be(a[0]), be(a[1]))
    elif op == 'ite': e = z3.If(be(a[0]), be(a[1]), be(a[2]))
    elif op == 'eq':
        e = _z(ie(a[0])) == _z(ie(a[1]))
    elif op == 'ult':
        e = _z(ie(a[0])) < _z(ie(a[1]))
    elif op == 'slt':
        w = a[0].w if type(a[0]) is T else a[1].w
        h = 1 << (w - 1)
        def sg(x):
            if type(x) is int: return IV(x - 2 * h if x >= h else x)
            if rng(x)[1] < h: return ie(x)
            v = ie(x)
            return z3.If(v >= h, v - 2 * h, v)
        e = sg(a[0]) < sg(a[1])
    else:
        e = ie(t) == 1
        s = _side.get(t, frozenset())
    if s is None: s = _sides(*[x for x in a if type(x) is T])
    _be[t] = e
    if s: _side[t] = s
    return e

def _z(x):
    return IV(x) if type(x) is int else x

def check(conds, timeout=2000):
    fs = []
    s = frozenset()
    for c in conds:
        if type(c) is int:
            if not c: return 'unsat', None
            continue
        fs.append(be(c))
        x = _side.get(c)
        if x: s = s | x
    sol = z3.SimpleSolver()
    sol.set('timeout', timeout)
    ctx = sol.ctx.ref()
    for f in fs: z3.Z3_solver_assert(ctx, sol.solver, f.as_ast())
    for f in s: z3.Z3_solver_assert(ctx, sol.solver, f.as_ast())
    r = sol.check()
    return str(r), (sol.model() if r == z3.sat else None)
