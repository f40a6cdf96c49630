"""Terms -> z3, validity and feasibility queries."""
import z3, time
import term as tm
from term import T

stats = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'time': 0.0, 'syntactic': 0}
_bytefn = {}
_selfn = {}
_uffn = {}
_side = {}          # var -> z3 range constraint
_supp = {}

def _bytef(r):
    f = _bytefn.get(r)
    if f is None:
        f = _bytefn[r] = z3.Function('byte_' + r, z3.BitVecSort(64), z3.BitVecSort(8))
    return f

def bv(t, w):
    if type(t) is int:
        return z3.BitVecVal(t, w)
    if t.w == 1:
        return z3.If(z(t), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return z(t)

def bo(t):
    if type(t) is int:
        return z3.BoolVal(bool(t))
    return z(t)

def _heavy(k, w):
    if k > (1 << (w - 1)): k = (1 << w) - k
    return bin(k).count('1') > 10

def z(t):
    """z3 expression: Bool for width 1, BitVec otherwise"""
    e = t.z
    if e is not None:
        return e
    # iterative for depth safety
    stack = [t]
    while stack:
        x = stack[-1]
        if x.z is not None:
            stack.pop(); continue
        todo = [y for y in kids(x) if y.z is None]
        if todo:
            stack.extend(todo)
            continue
        x.z = _z(x)
        stack.pop()
    return t.z

def kids(t):
    op = t.op
    if op == 'cat': return [p for _, p in t.a if type(p) is T]
    if op == 'lin': return [x for x, _ in t.a[1]]
    if op == 'ext':
        b = t.a[0]
        if b.op == 'lin' and any(_heavy(k, b.w) for _, k in b.a[1]): return []
        return [b]
    return [x for x in t.a if type(x) is T]

def _z(t):
    op = t.op; w = t.w; a = t.a
    if op == 'var':
        v = z3.Bool(a[0]) if w == 1 else z3.BitVec(a[0], w)
        r = tm._vmax.get(t)
        if r is not None:
            cs = []
            if r[0] > 0: cs.append(z3.UGE(v, r[0]))
            if r[1] < (1 << w) - 1: cs.append(z3.ULE(v, r[1]))
            if cs: _side[t] = z3.And(*cs) if len(cs) > 1 else cs[0]
        return v
    if op == 'cat':
        return z3.Concat(*[bv(p, pw) for pw, p in a])
    if op == 'lin':
        c, ts = a
        e = None
        for x, k in ts:
            b = bv(x, w)
            if k == 1: y = b
            elif k == (1 << w) - 1: y = -b
            else: y = b * z3.BitVecVal(k, w)
            e = y if e is None else e + y
        if c: e = e + z3.BitVecVal(c, w)
        return e if w > 1 else (e == 1)
    if op == 'ext':
        b, hi, lo = a
        if b.op == 'lin' and any(_heavy(k, b.w) for _, k in b.a[1]):
            return z3.BitVec('opaque!%d' % t.id, w) if w > 1 else z3.Bool('opaque!%d' % t.id)
        e = z3.Extract(hi, lo, bv(b, b.w))
        return e if w > 1 else (e == 1)
    if op == 'sext':
        return z3.SignExt(w - a[0].w, bv(a[0], a[0].w))
    if op == 'not': return z3.Not(bo(a[0]))
    if op in ('and', 'or', 'xor'):
        if w == 1:
            return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](bo(a[0]), bo(a[1]))
        x = bv(a[0], w); y = bv(a[1], w)
        return x & y if op == 'and' else x | y if op == 'or' else x ^ y
    if op == 'ite':
        if w == 1: return z3.If(bo(a[0]), bo(a[1]), bo(a[2]))
        return z3.If(bo(a[0]), bv(a[1], w), bv(a[2], w))
    if op in ('eq', 'ult', 'slt'):
        ww = a[0].w if type(a[0]) is T else a[1].w
        if op == 'eq' and ww == 1: return bo(a[0]) == bo(a[1])
        x = bv(a[0], ww); y = bv(a[1], ww)
        return x == y if op == 'eq' else z3.ULT(x, y) if op == 'ult' else x < y
    if op == 'byte':
        return _bytef(a[0])(bv(a[1], 64))
    if op == 'sel':
        f = _selfn.get((a[0], w))
        if f is None:
            f = _selfn[(a[0], w)] = z3.Function('sel_%s_%d' % (a[0], w), z3.BitVecSort(64), z3.BitVecSort(w) if w > 1 else z3.BoolSort())
        return f(bv(a[1], 64))
    if op == 'uf':
        args = []
        for i, x in enumerate(a[1:]):
            if type(x) is int: args.append(z3.BitVecVal(x, 64))
            else:
                e = bv(x, x.w)
                args.append(z3.ZeroExt(64 - x.w, e) if x.w < 64 else e)
        key = (a[0], w, tuple(x.size() for x in args))
        f = _uffn.get(key)
        if f is None:
            f = _uffn[key] = z3.Function('uf_%s_%d' % (a[0], len(_uffn)), *([z3.BitVecSort(x.size()) for x in args] + [z3.BitVecSort(w) if w > 1 else z3.BoolSort()]))
        return f(*args)
    x = bv(a[0], w); y = bv(a[1], w)
    if op == 'mul': return x * y
    if op == 'udiv': return z3.UDiv(x, y)
    if op == 'urem': return z3.URem(x, y)
    if op == 'sdiv': return x / y
    if op == 'srem': return z3.SRem(x, y)
    if op == 'shl': return x << y
    if op == 'lshr': return z3.LShR(x, y)
    if op == 'ashr': return x >> y
    raise ValueError(op)

def support(t):
    s = _supp.get(t)
    if s is not None: return s
    stack = [t]
    while stack:
        x = stack[-1]
        if x in _supp:
            stack.pop(); continue
        ks = kids(x)
        todo = [y for y in ks if y not in _supp]
        if todo:
            stack.extend(todo); continue
        if x.op == 'var':
            _supp[x] = frozenset((x,)) if x in tm._vmax else frozenset()
        else:
            r = frozenset()
            for y in ks: r = r | _supp[y]
            _supp[x] = r
        stack.pop()
    return _supp[t]

TIMEOUT = [60000]

class Unknown(Exception):
    pass

class Model:
    """assignment of the variables and uninterpreted functions"""
    def __init__(self, m, lia_):
        self.m = m; self.lia = lia_; self.c = {}
    def var(self, t):
        name = t.a[0]
        if self.lia:
            v = self.m.eval(z3.Int(name), model_completion=False)
            if z3.is_int_value(v): v = v.as_long()
            else: v = tm._vmax[t][0] if t in tm._vmax else 0
        elif t.w == 1:
            v = int(z3.is_true(self.m.eval(z3.Bool(name), model_completion=True)))
        else:
            v = self.m.eval(z3.BitVec(name, t.w), model_completion=False)
            if z3.is_bv_value(v): v = v.as_long()
            else: v = tm._vmax[t][0] if t in tm._vmax else 0
        lo, hi = tm._vmax.get(t, (0, (1 << t.w) - 1))
        return v if lo <= v <= hi else lo
    def fn(self, t, args):
        op = t.op
        k = (op, t.a[0], t.w) + tuple(args)
        v = self.c.get(k)
        if v is not None: return v
        if self.lia:
            f = lia._fn.get((op, t.a[0], t.w, len(args)))
            v = 0
            if f is not None and args:
                r = self.m.eval(f(*[z3.IntVal(x) for x in args]), model_completion=True)
                v = r.as_long() if z3.is_int_value(r) else 0
            if not 0 <= v < (1 << t.w): v = 0
        else:
            if op == 'byte': f = _bytefn.get(t.a[0])
            elif op == 'sel': f = _selfn.get((t.a[0], t.w))
            else:
                key = (t.a[0], t.w, tuple(64 if type(x) is int or x.w <= 64 else x.w for x in t.a[1:]))
                f = _uffn.get(key)
            v = 0
            if f is not None:
                ar = [z3.BitVecVal(x, f.domain(i).size()) for i, x in enumerate(args)]
                r = self.m.eval(f(*ar), model_completion=True)
                v = (int(z3.is_true(r)) if z3.is_bool(r) else r.as_long())
        self.c[k] = v
        return v
    def ev(self, t):
        if type(t) is int: return t
        c = self.c
        v = c.get(t)
        if v is None:
            v = c[t] = self._ev(t)
        return v
    def _ev(self, t):
        op = t.op; a = t.a; w = t.w
        ev = self.ev
        if op == 'var': return self.var(t)
        if op == 'cat':
            r = 0
            for pw, p in a: r = (r << pw) | ev(p)
            return r
        if op == 'lin':
            r = a[0]
            for x, k in a[1]: r += ev(x) * k
            return r & ((1 << w) - 1)
        if op == 'ext': return (ev(a[0]) >> a[2]) & ((1 << (a[1] - a[2] + 1)) - 1)
        if op == 'sext': return tm.sext(ev(a[0]), a[0].w, w)
        if op == 'ite': return ev(a[1]) if ev(a[0]) else ev(a[2])
        if op == 'not': return 1 - ev(a[0])
        if op == 'byte': return self.fn(t, (ev(a[1]),))
        if op == 'sel': return self.fn(t, (ev(a[1]),))
        if op == 'uf': return self.fn(t, tuple(ev(x) for x in a[1:]))
        x = ev(a[0]); y = ev(a[1])
        ww = a[0].w if type(a[0]) is T else a[1].w
        if op == 'and': return x & y
        if op == 'or': return x | y
        if op == 'xor': return x ^ y
        if op == 'eq': return int(x == y)
        if op == 'ult': return int(x < y)
        if op == 'slt': return int(tm.sgn(x, ww) < tm.sgn(y, ww))
        return getattr(tm, {'mul': 'mul', 'udiv': 'udiv', 'urem': 'urem', 'sdiv': 'sdiv', 'srem': 'srem', 'shl': 'shl', 'lshr': 'lshr', 'ashr': 'ashr'}[op])(x, y, ww)

import lia
USE_LIA = [True]
EXTRA = [None]      # facts about uninterpreted functions, from the terms of a query

def check(conds, want_model=False):
    """('sat' or 'unsat', Model or None).  conds: 1-bit terms."""
    conds = list(conds)
    if EXTRA[0]: conds += EXTRA[0](conds)
    t0 = time.time()
    stats['queries'] += 1
    if USE_LIA[0]:
        r, m = lia.check(conds)
        if r == 'unsat':
            stats['unsat'] += 1; stats['lia'] = stats.get('lia', 0) + 1
            stats['time'] += time.time() - t0
            return 'unsat', None
        if r == 'sat':
            M = Model(m, True)
            if all(M.ev(c) for c in conds):
                stats['sat'] += 1; stats['lia'] = stats.get('lia', 0) + 1
                stats['time'] += time.time() - t0
                return 'sat', M
    return _check_bv(conds, t0)

def _check_bv(conds, t0):
    fs = []
    sup = set()
    for c in conds:
        if type(c) is int:
            if not c: return ('unsat', None)
            continue
        fs.append(z(c))
        sup |= support(c)
    for v in sup:
        z(v)
        s = _side.get(v)
        if s is not None: fs.append(s)
    s = z3.SimpleSolver()
    s.set('timeout', TIMEOUT[0])
    s.add(*fs)
    r = s.check()
    if r == z3.unknown:
        s = z3.SolverFor('QF_UFBV')
        s.set('timeout', TIMEOUT[0])
        s.add(*fs)
        r = s.check()
    stats['time'] += time.time() - t0
    k = str(r)
    stats[k] += 1
    stats['bv'] = stats.get('bv', 0) + 1
    if r == z3.unknown:
        raise Unknown('solver gave up')
    return (k, Model(s.model(), False) if r == z3.sat else None)

def meval(model, t):
    """truth of 1-bit term under a model (with completion)"""
    return bool(model.ev(t))

def mval(model, t):
    return model.ev(t)
