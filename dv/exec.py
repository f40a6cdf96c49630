"""Path-forking symbolic executor over LLVM IR.

All proof obligations about a function body are generated here or by the
hooks of a specification: every memory access (inside its object, initialised
where that matters, right alignment, writable), every shift amount, every
call precondition, and whatever a specification asks at calls, cut points
and returns.
"""
import sys, re
import term as tm
from term import *
import solve
from solve import check, meval, mval
from ir import I, Glob, CE, UNDEF, Asm, Agg, PTR, IRError

sys.setrecursionlimit(20000)

I64 = I(64)

class Fail(Exception):
    """an obligation that is not discharged"""
    def __init__(self, kind, msg, model=None):
        Exception.__init__(self, kind + ': ' + msg)
        self.kind = kind; self.msg = msg; self.model = model; self.st = None

class Unsupported(Exception):
    pass

class NeedFork(Exception):
    def __init__(self, cond): self.cond = cond

class NeedConc(Exception):
    def __init__(self, t, w): self.t = t; self.w = w

class Halt(Exception):
    """path ended by a handler: kind, data"""
    def __init__(self, kind, data=None): self.kind = kind; self.data = data

class Region:
    __slots__ = ('name', 'base', 'size', 'kind', 'readonly', 'c0', 'atom', 'coef', 'align', 'noread', 'tag', 'typ')
    def __init__(self, name, size, kind, align=8, readonly=False, base=None):
        self.name = name; self.size = size; self.kind = kind; self.readonly = readonly
        self.align = align
        if base is None:
            lg = max(align, 1).bit_length() - 1
            hi = (1 << (47 - lg)) - 1
            v = var('&' + name, 47 - lg, 1, hi)
            base = cat(((17, 0), (47 - lg, v), (lg, 0))) if lg else cat(((17, 0), (47, v)))
        self.base = base
        c, ts = lin_of(base, 64)
        assert len(ts) == 1
        self.c0 = c; self.atom, self.coef = ts[0]
        self.tag = None
        self.typ = None

class Cells:
    """memory with concrete offsets"""
    __slots__ = ('c', 'owner', 'freed', 'init', 'arrays')
    def __init__(self, owner):
        self.c = {}; self.owner = owner; self.freed = False
        self.init = None      # function(off, n) -> value or None
        self.arrays = ()
    def clone(self, owner):
        x = Cells(owner); x.c = dict(self.c); x.freed = self.freed; x.init = self.init
        x.arrays = tuple(a.clone() for a in self.arrays)
        return x

class Arr:
    """a symbolic array inside a Cells object: log of symbolic writes over
    initial elements given by the specification"""
    __slots__ = ('off', 'esz', 'n', 'log', 'name', 'elem')
    def __init__(self, name, off, esz, n, elem):
        self.name = name; self.off = off; self.esz = esz; self.n = n; self.elem = elem
        self.log = ()
    def clone(self):
        a = Arr(self.name, self.off, self.esz, self.n, self.elem); a.log = self.log
        return a

class Buf:
    """symbolic byte buffer: initial bytes plus write log"""
    __slots__ = ('log', 'owner', 'freed', 'preset', 'name', 'guard', 'low')
    def __init__(self, owner, name):
        self.log = (); self.owner = owner; self.freed = False; self.preset = None; self.name = name
        self.guard = None     # obligation for reads of bytes not in the log
        self.low = None       # log entries at or above this offset cannot be hit below it
    def clone(self, owner):
        b = Buf(owner, self.name); b.log = self.log; b.freed = self.freed; b.preset = self.preset; b.guard = self.guard; b.low = self.low
        return b

class Frame:
    __slots__ = ('f', 'blk', 'ip', 'env', 'prev', 'dest', 'nd', 'ud', 'allocas', 'lbl')
    def copy(self):
        x = Frame()
        x.f = self.f; x.blk = self.blk; x.ip = self.ip; x.env = dict(self.env); x.prev = self.prev
        x.dest = self.dest; x.nd = self.nd; x.ud = self.ud; x.allocas = self.allocas; x.lbl = self.lbl
        return x

_tok = [0]

class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.regs = {}          # atom -> Region
        self.pc = []
        self.pcset = {}
        self.model = None
        self.known = {}
        self.facts = {}         # linear form -> strongest known lower bound (integers, no wrap)
        self.proved = set()
        _tok[0] += 1
        self.tok = _tok[0]
        self.fuel = 0
        self.x = {}             # specification data (immutable values or copied by hand)
        self.trace = []
    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); s.regs = dict(self.regs)
        s.pc = list(self.pc); s.pcset = dict(self.pcset); s.model = self.model
        s.known = dict(self.known); s.facts = dict(self.facts)
        s.proved = set(self.proved)
        # both copies lose ownership of shared contents
        _tok[0] += 1; s.tok = _tok[0]
        _tok[0] += 1; self.tok = _tok[0]
        s.fuel = self.fuel
        s.x = dict(self.x)
        s.trace = list(self.trace)
        return s
    def assume(self, c):
        if type(c) is int:
            if not c: raise Halt('infeasible')
            return
        if c.op == 'and' and c.w == 1:
            self.assume(c.a[0]); self.assume(c.a[1]); return
        if c in self.pcset: 
            return
        if c.op == 'not' and c.a[0].op == 'or':
            self.assume(bnot(c.a[0].a[0])); self.assume(bnot(c.a[0].a[1])); return
        self.pc.append(c)
        if c.op == 'not': self.pcset[c.a[0]] = 0
        self.pcset[c] = 1
        if c.op == 'eq':
            a, b = c.a
            if type(b) is int: a, b = b, a
            if type(a) is int: self.known[b] = a
            w = b.w if type(b) is T else a.w
            if w > 1 and w <= 64:
                x = self.intform(a, w); y = self.intform(b, w)
                if x and y:
                    self.fact(x, y, 0); self.fact(y, x, 0)
        elif c.op == 'ult':
            a, b = c.a
            w = b.w if type(b) is T else a.w
            x = self.intform(a, w); y = self.intform(b, w)
            if x and y: self.fact(x, y, 1)
        elif c.op == 'not' and c.a[0].op == 'ult':
            b, a = c.a[0].a
            w = b.w if type(b) is T else a.w
            x = self.intform(a, w); y = self.intform(b, w)
            if x and y: self.fact(x, y, 0)
    def fact(self, x, y, d):
        """x + d <= y"""
        k, c = lsub(y, x)
        c -= d
        o = self.facts.get(k)
        if o is None or c < o: self.facts[k] = c
    def implied(self, x, y, d):
        k, c = lsub(y, x)
        c -= d
        o = self.facts.get(k)
        if o is not None and c >= o: return True
        lo = c
        for t, q in k:
            l, h = rng(t)
            lo += q * l if q > 0 else q * h
        return lo >= 0
    def intform(self, t, w):
        """(constant, ((atom, signed coefficient),...)) with the same integer value, or None"""
        if type(t) is int: return (t, ())
        c, ts = lin_of(t, w)
        half = 1 << (w - 1); M = 1 << w
        out = []
        for base in (c, c - M):
            lo = hi = base
            out = []
            for x, k in ts:
                if k >= half: k -= M
                l, h = rng(x)
                if k > 0: lo += k * l; hi += k * h
                else: lo += k * h; hi += k * l
                out.append((x, k))
            if hi >= M: continue
            if lo >= 0: return (base, tuple(out))
            o = self.facts.get(tuple(out))
            if o is not None and base >= o: return (base, tuple(out))
        return None
    def truth(self, c, memo=None):
        if type(c) is int: return c
        r = self.pcset.get(c)
        if r is not None: return r
        if c.op == 'not':
            r = self.truth(c.a[0], memo)
            return None if r is None else 1 - r
        if c.op == 'and' or c.op == 'or':
            if memo is None: memo = {}
            elif c in memo: return memo[c]
            d = 0 if c.op == 'and' else 1
            x = self.truth(c.a[0], memo)
            r = None
            if x == d: r = d
            else:
                y = self.truth(c.a[1], memo)
                if y == d: r = d
                elif x is not None and y is not None: r = 1 - d
            memo[c] = r
            return r
        elif c.op == 'ult':
            a, b = c.a
            w = b.w if type(b) is T else a.w
            x = self.intform(a, w)
            if x:
                y = self.intform(b, w)
                if y:
                    if self.implied(x, y, 1): return 1
                    if self.implied(y, x, 0): return 0
        elif c.op == 'eq':
            a, b = c.a
            w = b.w if type(b) is T else a.w
            if w > 1:
                x = self.intform(a, w)
                if x:
                    y = self.intform(b, w)
                    if y and (self.implied(x, y, 1) or self.implied(y, x, 1)): return 0
        return None

def lsub(y, x):
    d = dict(y[1])
    for t, k in x[1]:
        n = d.get(t, 0) - k
        if n: d[t] = n
        else: d.pop(t, None)
    return tuple(sorted(d.items(), key=lambda z: z[0].id)), y[0] - x[0]

class Outcome:
    __slots__ = ('kind', 'st', 'val')
    def __init__(self, kind, st, val=None): self.kind = kind; self.st = st; self.val = val

SOFT = {'memory', 'align', 'shift'}

NOOP_EXT = {'fprintf', 'printf', 'puts', 'fputs', 'fputc', 'putchar', 'fwrite', 'perror', 'fflush'}
_FREE_RET = set()

_light = {}
_lightres = {}
_failed = {}
def fkey(kind, msg): return kind, re.sub(r'0x[0-9a-f]+|\d+', '#', msg)
def toomany(kind, msg): return _failed.get(fkey(kind, msg), 0) >= 2
def failed_once(kind, msg):
    k = fkey(kind, msg)
    _failed[k] = _failed.get(k, 0) + 1
def light(t):
    """no memory contents or uninterpreted values inside"""
    if type(t) is int: return True
    r = _light.get(t)
    if r is None:
        if t.op in ('byte', 'sel', 'uf'): r = False
        elif t.op == 'var': r = not t.a[0].startswith(('full!', 'amb!'))
        else: r = all(light(x) for x in solve.kids(t)) and not (t.op == 'ext' and t.a[0] not in solve.kids(t))
        _light[t] = r
    return r

_vs = {}
def tvars(t):
    """names of the variables of a term"""
    if type(t) is not T: return frozenset()
    r = _vs.get(t)
    if r is None:
        if t.op == 'var': r = frozenset([t.a[0]])
        else:
            s = set()
            for x in ([t.a[0]] if t.op == 'ext' else solve.kids(t)): s |= tvars(x)
            r = frozenset(s)
        _vs[t] = r
    return r

def cone(c, pc):
    """the conditions of pc connected to c by shared variables"""
    vs = set(tvars(c)); rest = [(x, tvars(x)) for x in pc]
    out = []
    while True:
        nxt = []
        n = len(out)
        for x, v in rest:
            if v & vs: out.append(x); vs |= v
            else: nxt.append((x, v))
        if len(out) == n: return out
        rest = nxt

class Machine:
    def __init__(self, modules):
        self.mods = modules
        self.handlers = {}       # name -> fn(mach, st, args, inst) -> value | (list of...)
        self.hpat = []           # (regex, fn)
        self.globregs = {}
        self.stats = {'insts': 0, 'paths': 0, 'obl': 0, 'forks': 0, 'syn': 0}
        self.maxfuel = 400000
        self.maxpaths = 100000
        self.cut = None          # fn(mach, st, frame, label) -> bool : stop at block entry
        self.visit = None        # fn(st, frame, label) on every block entry
        self.ob_hook = None
        self.obl_kinds = {}
        self.nalloc = 0
        self.check_align = True
        self.fork_select = True
        self.fork_all = False    # fork at every select whose condition is open
        self.on_fail = None      # fn(Fail): report a failed obligation and continue elsewhere
        self.kinds_off = set()

    # ------------------------------------------------------------ solver use
    def feasible(self, st, c):
        """can c hold on this path?"""
        if type(c) is int: return bool(c)
        t = st.truth(c)
        if t is not None: return bool(t)
        if st.model is not None and meval(st.model, c):
            return True
        r, m = check(st.pc + [c])
        if r == 'sat':
            st.x['_m'] = m
            return True
        return False

    def prove(self, st, c, kind, msg):
        """obligation: pc implies c"""
        self.stats['obl'] += 1
        self.obl_kinds[kind] = self.obl_kinds.get(kind, 0) + 1
        if type(c) is int:
            if c:
                self.stats['syn'] += 1
                return
        else:
            t = st.truth(c)
            if t == 1 or c in st.proved:
                self.stats['syn'] += 1
                return
        if self.light and toomany(kind, msg):
            # already reported: go on with the executions that meet the obligation
            if type(c) is int: raise Halt('infeasible')
            st.model = None
            st.assume(c)
            return
        if type(c) is not int:
            try:
                if self.light and (light(c) or self.light == 2) and self.lightly(st, c): r = 'unsat'
                else: r, m = check(st.pc + [bnot(c)])
            except solve.Unknown:
                f = Fail(kind, msg + ' (solver timeout)'); f.st = st
                raise f
        else:
            r, m = check(st.pc)
        if r == 'unsat':
            if type(c) is not int: st.proved.add(c)
            return
        if self.light: failed_once(kind, msg)
        f = Fail(kind, msg, m); f.st = st
        if self.on_fail is not None and kind in SOFT:
            # report, then go on with the executions that meet the obligation
            self.on_fail(f)
            if type(c) is int: raise Halt('infeasible')
            st.model = None
            st.assume(c)
            if check(st.pc)[0] == 'unsat': raise Halt('infeasible')
            return
        raise f

    light = 0     # 1: first try the arithmetic part of the path condition alone
    def lightly(self, st, c):
        k = ('light', c)
        if k in st.proved: return True
        lp = cone(c, [x for x in st.pc if light(x)])
        key = (frozenset(lp), c)
        r = _lightres.get(key)
        if r is None: r = _lightres[key] = check(lp + [bnot(c)])[0]
        if r == 'unsat': st.proved.add(c)
        return r == 'unsat'

    def valid(self, st, c):
        if type(c) is int: return bool(c)
        t = st.truth(c)
        if t is not None: return bool(t)
        if c in st.proved: return True
        if st.model is not None and not meval(st.model, c): return False
        if self.light and light(c):
            if self.lightly(st, c):
                st.proved.add(c)
                return True
            if self.light == 2: return False
        r, m = check(st.pc + [bnot(c)])
        if r == 'unsat':
            st.proved.add(c)
            return True
        st.model = m
        return False

    # ------------------------------------------------------------ memory
    def new_region(self, st, name, size, kind='cells', align=16, readonly=False, base=None):
        r = Region(name, size, kind, align, readonly, base)
        st.regs[r.atom] = r
        st.mem[r.name] = Cells(st.tok) if kind == 'cells' else Buf(st.tok, name)
        return r

    def contents(self, st, r, write=False):
        m = st.mem[r.name]
        if write and m.owner != st.tok:
            m = m.clone(st.tok)
            st.mem[r.name] = m
        return m

    def resolve(self, st, p, what='access'):
        """pointer value -> (region, offset term)"""
        if type(p) is int:
            f = Fail('pointer', '%s through constant pointer %#x' % (what, p)); f.st = st
            raise f
        c, ts = lin_of(p, 64)
        r = None
        for x, k in ts:
            q = st.regs.get(x)
            if q is None: q = self.globregs.get(x)
            if q is not None and k == q.coef:
                r = q
                break
        if r is None:
            y = p
            for x, k in ts:
                if x.op == 'ite' or (x.op == 'cat' and any(type(z) is T and z.op == 'ite' for _, z in x.a)):
                    z = x if x.op == 'ite' else [z for _, z in x.a if type(z) is T and z.op == 'ite'][0]
                    raise NeedFork(z.a[0])
            f = Fail('pointer', '%s through a pointer that is not based on any object: %s' % (what, show(p))); f.st = st
            raise f
        return r, sub(p, r.base, 64)

    def bounds(self, st, r, off, n, what):
        """obligation: [off, off+n) inside region"""
        sz = r.size
        m = st.mem.get(r.name)
        if m is not None and m.freed:
            f = Fail('memory', '%s of freed object %s' % (what, r.name)); f.st = st
            raise f
        if type(off) is int and type(sz) is int:
            self.stats['obl'] += 1; self.stats['syn'] += 1
            self.obl_kinds['memory'] = self.obl_kinds.get('memory', 0) + 1
            if off + n > sz:
                f = Fail('memory', '%s of %d bytes at offset %d outside object %s of %s bytes' % (what, n, sgn(off, 64), r.name, sz))
                f.st = st
                r_, m_ = check(st.pc)
                if r_ == 'unsat': raise Halt('infeasible')
                f.model = m_
                raise f
            return
        end = add(off, n, 64)
        c2 = ult(off, end, 64) if n else 1
        low = getattr(m, 'low', None)
        if low is not None and c2 == 1 or (type(c2) is not int and st.truth(c2)):
            if low is not None:
                x = ule(end, low, 64); y = ule(low, sz, 64)
                if (x == 1 or (type(x) is T and st.truth(x))) and (y == 1 or (type(y) is T and st.truth(y))):
                    self.stats['obl'] += 1; self.stats['syn'] += 1
                    self.obl_kinds['memory'] = self.obl_kinds.get('memory', 0) + 1
                    return
        c = mk_and(ule(end, sz, 64), c2)
        self.prove(st, c, 'memory', '%s of %d bytes at offset %s inside %s (size %s)' % (what, n, show(off), r.name, show(sz)))

    def do_load(self, st, p, n, align=1, what='load'):
        r, off = self.resolve(st, p, what)
        if n == 0: return 0
        return self.load_at(st, r, off, n, align, what)

    def load_at(self, st, r, off, n, align=1, what='load'):
        if r.kind == 'global':
            return self.load_global(st, r, off, n)
        m = self.contents(st, r)
        if type(m) is Cells:
            if type(off) is not int:
                k = st.known.get(off)
                if k is not None: off = k
            if type(off) is int:
                if align > 1: self.alignment(st, r, off, align)
                for a in m.arrays:
                    if a.off <= off < a.off + a.esz * a.n:
                        return self.arr_load(st, r, m, a, sub(off, a.off, 64), n)
                self.bounds(st, r, off, n, what)
                x = m.c.get(off)
                if x is not None and x[0] == n:
                    return x[1]
                return self.cells_bytes(st, r, m, off, n)
            for a in m.arrays:
                d = sub(off, a.off, 64)
                lo, hi = rng(d)
                if hi < (1 << 40) and self.in_arr(st, d, a, n):
                    return self.arr_load(st, r, m, a, d, n)
            raise NeedConc(off, 64)
        if align > 1: self.alignment(st, r, off, align)
        self.bounds(st, r, off, n, what)
        return self.buf_load(st, r, m, off, n)

    def in_arr(self, st, d, a, n):
        hi = rng(d)[1]
        if hi + n <= a.esz * a.n: return True
        return self.valid(st, ule(d, a.esz * a.n - n, 64))

    def alignment(self, st, r, off, align):
        if not self.check_align: return
        if 'align' in self.kinds_off: return
        p = add(r.base, off, 64)
        lg = align.bit_length() - 1
        self.prove(st, eq(trunc(p, lg), 0, lg), 'align', 'access to %s+%s is %d-byte aligned' % (r.name, show(off), align))

    def arr_index(self, st, a, d, n):
        lg = a.esz.bit_length() - 1
        if n != a.esz or (1 << lg) != a.esz: raise Unsupported('array access of other size')
        if lg:
            lowb = trunc(d, lg)
            if not (type(lowb) is int and lowb == 0):
                if not self.valid(st, eq(lowb, 0, lg)): raise Unsupported('misaligned array access')
        i = lshr(d, lg, 64)
        return canon(i, 64)

    def arr_load(self, st, r, m, a, d, n):
        i = self.arr_index(st, a, d, n)
        self.prove(st, ult(i, a.n, 64), 'memory', 'index into %s below %d' % (a.name, a.n))
        if i is not None and type(i) is T:
            k = st.known.get(i)
            if k is not None: i = k
        w = 8 * n
        pend = []
        base = None
        for j, v in reversed(a.log):
            e = eq(i, j, 64)
            t = e if type(e) is int else st.truth(e)
            if t is None:
                if self.valid(st, e): t = 1
                elif self.valid(st, bnot(e)): t = 0
            if t == 1:
                base = v; break
            if t == 0: continue
            pend.append((e, v))
        if base is None:
            base = a.elem(self, st, a, i)
        for e, v in reversed(pend):
            base = ite(e, v, base, w)
        return base

    def arr_store(self, st, r, m, a, d, n, v):
        i = self.arr_index(st, a, d, n)
        self.prove(st, ult(i, a.n, 64), 'memory', 'index into %s below %d' % (a.name, a.n))
        a.log = a.log + ((i, v),)

    def cells_bytes(self, st, r, m, off, n):
        c = m.c
        out = []
        k = 0
        while k < n:
            o = off + k
            hit = None
            for b in range(0, 17):
                x = c.get(o - b)
                if x is not None and x[0] > b:
                    hit = (o - b, x, b); break
            if hit is None:
                v = None
                if m.init is not None:
                    v = m.init(self, st, r, o, 1)
                if v is None:
                    v = self.uninit(st, r, o)
                out.append((8, v)); k += 1
            else:
                _, (cn, cv), b = hit
                t = min(cn - b, n - k)
                out.append((8 * t, ext(cv, 8 * (b + t) - 1, 8 * b)))
                k += t
        out.reverse()
        v = cat(out)
        return v

    def uninit(self, st, r, o):
        # the value of uninitialised memory: arbitrary but fixed
        m = self.contents(st, r, True)
        v = fresh('uninit', 8)
        m.c[o] = (1, v)
        return v

    def buf_init(self, st, m, off):
        """initial byte"""
        if m.preset:
            for anchor, d in m.preset:
                k = sub(off, anchor, 64)
                if type(k) is int:
                    v = d.get(k)
                    if v is not None: return v
        return byte0(m.name, off)

    def buf_load(self, st, r, m, off, n):
        # fast path: walk the log
        need = [None] * n
        left = n
        below = None
        for woff, wn, v in reversed(m.log):
            d = sub(off, woff, 64)
            if type(d) is T:
                k = st.known.get(d)
                if k is not None: d = k
            if type(d) is int:
                d = sgn(d, 64)
                if d >= wn or d + n <= 0: continue
                for k in range(n):
                    if need[k] is None and 0 <= d + k < wn:
                        b = d + k
                        need[k] = ext(v, 8 * b + 7, 8 * b)
                        left -= 1
                if left == 0: break
            else:
                if m.low is not None:
                    e = sub(woff, m.low, 64)
                    if type(e) is int and e < (1 << 40):
                        if below is None: below = self.valid(st, ule(add(off, n, 64), m.low, 64))
                        if below: continue
                self.disjoint(st, off, n, woff, wn)
        if left and m.guard:
            k = 0
            while k < n:
                if need[k] is None:
                    j = k
                    while j < n and need[j] is None: j += 1
                    m.guard(self, st, r, m, add(off, k, 64), j - k)
                    k = j
                else: k += 1
        if left == n:
            return cat([(8, self.buf_init(st, m, add(off, k, 64))) for k in range(n - 1, -1, -1)])
        return cat([(8, need[k] if need[k] is not None else self.buf_init(st, m, add(off, k, 64))) for k in range(n - 1, -1, -1)])

    def disjoint(self, st, off, n, woff, wn):
        c = mk_or(ule(add(off, n, 64), woff, 64), ule(add(woff, wn, 64), off, 64))
        if self.valid(st, c): return
        # maybe equal for some executions: split
        d = sub(off, woff, 64)
        if type(d) is T:
            raise NeedFork(c) if self.feasible(st, c) else NeedConc(d, 64)

    def do_store(self, st, p, n, v, align=1, what='store'):
        r, off = self.resolve(st, p, what)
        if n == 0: return
        self.store_at(st, r, off, n, v, align, what)

    def store_at(self, st, r, off, n, v, align=1, what='store'):
        if r.readonly or r.kind == 'global':
            f = Fail('frame', '%s to %s, which is not writable here' % (what, r.name)); f.st = st
            raise f
        m = st.mem[r.name]
        if type(m) is Cells:
            if type(off) is not int:
                k = st.known.get(off)
                if k is not None: off = k
            if type(off) is int:
                if align > 1: self.alignment(st, r, off, align)
                for a in m.arrays:
                    if a.off <= off < a.off + a.esz * a.n:
                        m = self.contents(st, r, True)
                        a = [b for b in m.arrays if b.off == a.off][0]
                        self.arr_store(st, r, m, a, sub(off, a.off, 64), n, v)
                        return
                self.bounds(st, r, off, n, what)
                m = self.contents(st, r, True)
                c = m.c
                x = c.get(off)
                if x is not None and x[0] == n:
                    c[off] = (n, v)
                    return
                # remove overlaps
                for b in range(off - 16, off + n):
                    x = c.get(b)
                    if x is not None and b + x[0] > off:
                        del c[b]
                        if b < off:
                            c[b] = (off - b, ext(x[1], 8 * (off - b) - 1, 0))
                        if b + x[0] > off + n:
                            c[off + n] = (b + x[0] - off - n, ext(x[1], 8 * x[0] - 1, 8 * (off + n - b)))
                c[off] = (n, v)
                return
            for a in m.arrays:
                d = sub(off, a.off, 64)
                if rng(d)[1] < (1 << 40) and self.in_arr(st, d, a, n):
                    m = self.contents(st, r, True)
                    a = [b for b in m.arrays if b.off == a.off][0]
                    self.arr_store(st, r, m, a, d, n, v)
                    return
            raise NeedConc(off, 64)
        if align > 1: self.alignment(st, r, off, align)
        self.bounds(st, r, off, n, what)
        m = self.contents(st, r, True)
        m.log = m.log + ((canon(off, 64), n, v),)

    # ------------------------------------------------------------ globals
    def glob_ptr(self, st, g):
        mod = g.mod
        name = g.name
        key = (mod.name if name in mod.gsrc and (' internal ' in ' ' + mod.gsrc[name] or ' private ' in ' ' + mod.gsrc[name]) else '', name)
        r = self._globs.get(key) if hasattr(self, '_globs') else None
        if r is None:
            if not hasattr(self, '_globs'): self._globs = {}
            if name in mod.gsrc:
                t, init, cst = mod.glob(name)
                try: size = mod.size(t)
                except IRError: size = 0
                al = 16
            else:
                t = init = None; cst = True; size = 0; al = 16
            r = Region('@%s%s' % (name, '' if not key[0] else '.' + str(len(self._globs))), size, 'global', al)
            r.tag = (mod, name, t, init, cst)
            self._globs[key] = r
            self.globregs[r.atom] = r
        return r.base

    def load_global(self, st, r, off, n):
        mod, name, t, init, cst = r.tag
        if type(off) is not int:
            k = st.known.get(off)
            if k is None: raise NeedConc(off, 64)
            off = k
        if name in ('stderr', 'stdout'):
            return uf(name, 64)
        if name in self.handlers_g: return self.handlers_g[name](self, st, off, n)
        if init is None:
            raise Unsupported('load of external global ' + name)
        if not cst and not self.never_written(name):
            f = Fail('state', 'reads mutable global state %s' % name); f.st = st
            raise f
        self.bounds(st, r, off, n, 'load')
        d = self.flat(r)
        vals = []
        k = 0
        x = d.get(off)
        if x is not None and x[0] == n: return x[1] if not isinstance(x[1], tuple) else self.cval(st, x[1][1], mod)
        out = []
        while k < n:
            o = off + k
            for b in range(0, 17):
                x = d.get(o - b)
                if x is not None and x[0] > b: break
            else:
                out.append((8, 0)); k += 1
                continue
            v = x[1] if not isinstance(x[1], tuple) else self.cval(st, x[1][1], mod)
            out.append((8, ext(v, 8 * b + 7, 8 * b))); k += 1
        out.reverse()
        return cat(out)

    handlers_g = {}

    def never_written(self, name):
        """no store in any loaded module goes to this (internal) global"""
        c = self._nw.get(name) if hasattr(self, '_nw') else None
        if c is None:
            if not hasattr(self, '_nw'): self._nw = {}
            import re
            pat = re.compile(r'store [^@]*, ptr @' + re.escape(name) + r'\b|@' + re.escape(name) + r'\b')
            c = True
            for m in self.mods:
                if name not in m.gsrc: continue
                if ' internal ' not in ' ' + m.gsrc[name] and ' private ' not in ' ' + m.gsrc[name]:
                    c = False; break
                for f in m.funcs.values():
                    for l in f.src[1]:
                        if '@' + name in l:
                            s = l.strip()
                            # only address computations and loads are harmless
                            if re.match(r'store .*ptr @%s\b.*' % re.escape(name), s): c = False
                            if 'call' in s.split('@')[0]: c = False
            self._nw[name] = c
        return c

    def flat(self, r):
        d = getattr(self, '_flat', None)
        if d is None: d = self._flat = {}
        x = d.get(r.name)
        if x is None:
            mod, name, t, init, cst = r.tag
            x = {}
            def rec(t, v, o):
                t = mod.res(t)
                k = t[0]
                if type(v) is CE and v.op == 'zero': return
                if k == 'arr':
                    s = mod.size(t[2])
                    if isinstance(v, Agg):
                        for j, e in enumerate(v.items): rec(t[2], e, o + j * s)
                    return
                if k == 'st':
                    if isinstance(v, Agg):
                        offs = mod.lay(t)[2]
                        for j, e in enumerate(v.items): rec(t[1][j], e, o + offs[j])
                    return
                if v is UNDEF: return
                if type(v) is int: x[o] = (mod.size(t), v)
                else: x[o] = (mod.size(t), ('c', v))
            rec(t, init, 0)
            d[r.name] = x
        return x

    # ------------------------------------------------------------ values
    def cval(self, st, v, mod):
        tv = type(v)
        if tv is int or tv is T: return v
        if tv is Glob:
            return self.glob_ptr(st, v)
        if v is UNDEF:
            return fresh('undef', 64)
        if tv is CE:
            if v.op == 'gep':
                t, base, idx = v.args
                b, off, var_ = mod._gep(t, base, idx)
                return add(self.cval(st, b, mod), off & mask(64), 64)
            if v.op == 'cast':
                op, t, c, t2 = v.args
                x = self.cval(st, c, mod)
                return self.cast(op, mod.width(t), x, mod.width(t2))
            if v.op == 'zero':
                t = v.args[0]
                return self.zero(mod, t)
            if v.op == 'bin':
                op, t, a, b = v.args
                return BINOP[op](self.cval(st, a, mod), self.cval(st, b, mod), mod.width(t))
            if v.op == 'icmp':
                pr, t, a, b = v.args
                return self.icmp(pr, self.cval(st, a, mod), self.cval(st, b, mod), mod.width(t))
        if tv is Agg:
            return tuple(self.cval(st, x, mod) for x in v.items)
        raise Unsupported('constant %r' % (v,))

    def zero(self, mod, t):
        t = mod.res(t)
        if t[0] == 'st': return tuple(self.zero(mod, x) for x in t[1])
        if t[0] in ('arr', 'vec'): return tuple(self.zero(mod, t[2]) for _ in range(t[1]))
        return 0

    def cast(self, op, w, v, w2):
        if op == 'zext': return zext(v, w, w2)
        if op == 'sext': return sext(v, w, w2)
        if op == 'trunc': return trunc(v, w2) if w2 < w else v
        if op in ('ptrtoint', 'inttoptr'):
            if w2 < w: return trunc(v, w2)
            if w2 > w: return zext(v, w, w2)
            return v
        if op in ('bitcast', 'addrspacecast'): return v
        raise Unsupported(op)

    def icmp(self, pr, a, b, w):
        if pr == 'eq': return self.peq(a, b, w)
        if pr == 'ne': return bnot(self.peq(a, b, w))
        if pr == 'ult': return ult(a, b, w)
        if pr == 'ule': return bnot(ult(b, a, w))
        if pr == 'ugt': return ult(b, a, w)
        if pr == 'uge': return bnot(ult(a, b, w))
        if pr == 'slt': return slt(a, b, w)
        if pr == 'sle': return bnot(slt(b, a, w))
        if pr == 'sgt': return slt(b, a, w)
        if pr == 'sge': return bnot(slt(a, b, w))
        raise Unsupported(pr)

    def peq(self, a, b, w):
        return eq(a, b, w)

    # ------------------------------------------------------------ running
    def lookup(self, mod, name):
        f = mod.func(name)
        if f is not None: return f
        for m in self.mods:
            f = m.funcs.get(name)
            if f is not None and not f.internal:
                return m.func(name)
            if name in m.aliases:
                return m.func(name)
        return None

    def find(self, pat):
        import re
        for m in self.mods:
            for n in m.funcs:
                if re.fullmatch(pat, n): return m.func(n)
        return None

    def push(self, st, f, args, dest=None, nd=None, ud=None):
        fr = Frame()
        fr.f = f; fr.lbl = f.entry; fr.blk = f.blocks[f.entry]; fr.ip = 0; fr.prev = None
        fr.env = {}
        fr.dest = dest; fr.nd = nd; fr.ud = ud
        fr.allocas = ()
        for (t, n), a in zip(f.params, args):
            fr.env[n] = a
        st.frames.append(fr)
        if self.visit: self.visit(st, fr, f.entry)

    def explore(self, st0, on_end):
        """depth first over all paths from st0; on_end(Outcome)"""
        work = [st0]
        n = 0
        while work:
            st = work.pop()
            n += 1
            if n > self.maxpaths: raise Unsupported('path limit')
            out = self.run1(st, work)
            if out is not None: on_end(out)

    def run1(self, st, work):
        if self.on_fail is None: out = self.run(st, work)
        else:
            try: out = self.run(st, work)
            except Fail as e:
                self.on_fail(e)
                out = None
        if out is not None: self.stats['paths'] += 1
        if out is not None and out.kind == 'ret':
            try: self.untainted(out.st, out.val)
            except Fail as f:
                if self.on_fail is None: raise
                self.on_fail(f)
        return out

    def run(self, st, work):
        """run one path to its end; alternatives pushed to work"""
        while True:
            try:
                return self.step_loop(st, work)
            except NeedFork as e:
                r = self.fork(st, e.cond, work)
                if r is None: return None
            except NeedConc as e:
                if not self.concretise(st, e.t, e.w, work): return None
            except Halt as e:
                if e.kind == 'infeasible': return None
                return Outcome(e.kind, st, e.data)

    def fork(self, st, c, work):
        """assume c or its negation on st; other side queued. returns truth taken"""
        t = st.truth(c)
        if t is not None: return t
        nc = bnot(c)
        if tainted(c): self.depends(st, c)
        if self.light and not light(c):
            # data-dependent: both sides are explored whether or not they are feasible
            self.stats['forks'] += 1
            o = st.copy()
            o.model = st.model = None
            o.assume(nc)
            work.append(o)
            st.assume(c)
            return 1
        m0 = st.model
        a = b = None
        ma = mb = None
        if m0 is not None:
            if meval(m0, c): a = True; ma = m0
            else: b = True; mb = m0
        if a is None:
            r, ma = check(st.pc + [c]); a = r == 'sat'
        if b is None:
            r, mb = check(st.pc + [nc]); b = r == 'sat'
        if a and b:
            self.stats['forks'] += 1
            o = st.copy()
            o.model = mb; o.assume(nc)
            work.append(o)
            st.model = ma; st.assume(c)
            return 1
        if a:
            st.model = ma; st.pcset[c] = 1; st.pcset[nc] = 0
            return 1
        if b:
            st.model = mb; st.pcset[nc] = 1; st.pcset[c] = 0
            return 0
        return None

    def depends(self, st, c):
        """the path must not depend on what nobody wrote"""
        self.stats['obl'] += 1
        self.obl_kinds['state'] = self.obl_kinds.get('state', 0) + 1
        if check(st.pc + [c])[0] != 'unsat' and check(st.pc + [bnot(c)])[0] != 'unsat': self.state_fail(st, c)

    def untainted(self, st, v):
        self.stats['obl'] += 1; self.stats['syn'] += 1
        self.obl_kinds['state'] = self.obl_kinds.get('state', 0) + 1
        if tainted(v): self.state_fail(st, v)

    def state_fail(self, st, c):
        f = Fail('state', 'behaviour depends on memory nobody wrote: %s' % show(c)[:200]); f.st = st
        raise f

    MAXCONC = 70

    def concretise(self, st, t, w, work):
        vals = []
        pc = list(st.pc)
        while True:
            r, m = check(pc)
            if r == 'unsat': break
            v = mval(m, t)
            vals.append((v, m))
            if len(vals) == 2 and tainted(t): self.state_fail(st, t)
            if len(vals) > self.MAXCONC:
                raise Unsupported('cannot enumerate %s' % show(t))
            pc.append(bnot(eq(t, v, w)))
        if not vals: return False
        for v, m in vals[1:]:
            o = st.copy()
            o.model = m
            o.assume(eq(t, v, w)); o.known[t] = v
            work.append(o)
        v, m = vals[0]
        st.model = m
        st.assume(eq(t, v, w)); st.known[t] = v
        return True

    def goto(self, st, fr, lbl):
        """enter block; evaluates phis"""
        blk = fr.f.blocks[lbl]
        prev = fr.lbl
        i = 0
        if blk[0].op == 'phi':
            env = fr.env
            vals = []
            for ins in blk:
                if ins.op != 'phi': break
                i += 1
                v = ins.a[prev]
                if type(v) is str: v = env[v]
                elif type(v) is not int:
                    v = self.cval(st, v, fr.f.mod) if v is not UNDEF else fresh('undef', fr.f.mod.width(ins.ty))
                vals.append((ins.d, v))
            for d, v in vals: env[d] = v
        fr.lbl = lbl; fr.blk = blk; fr.ip = i; fr.prev = prev
        if self.visit: self.visit(st, fr, lbl)
        if self.cut is not None and self.cut(self, st, fr, lbl):
            raise Halt('cut')

    def do_return(self, st, v):
        fr = st.frames.pop()
        for rn in fr.allocas:
            m = st.mem.pop(rn[0], None)
            st.regs.pop(rn[1], None)
        if not st.frames:
            raise Halt('ret', v)
        c = st.frames[-1]
        if fr.dest is not None: c.env[fr.dest] = v
        if fr.nd is not None:
            self.goto(st, c, fr.nd)

    def unwind(self, st, exc):
        """propagate exception (pointer, typename)"""
        while st.frames:
            fr = st.frames.pop()
            for rn in fr.allocas:
                st.mem.pop(rn[0], None); st.regs.pop(rn[1], None)
            if not st.frames:
                raise Halt('throw', exc)
            c = st.frames[-1]
            if fr.ud is not None:
                st.x['exc'] = exc
                self.goto(st, c, fr.ud)
                return
        raise Halt('throw', exc)

    def throw(self, st, exc, ud=None):
        fr = st.frames[-1]
        if ud is not None:
            st.x['exc'] = exc
            self.goto(st, fr, ud)
            return
        self.unwind(st, exc)

    def step_loop(self, st, work):
        stats = self.stats
        cval = self.cval
        while True:
            fr = st.frames[-1]
            blk = fr.blk
            env = fr.env
            mod = fr.f.mod
            n = len(blk)
            while True:
                ins = blk[fr.ip]
                op = ins.op
                stats['insts'] += 1
                st.fuel += 1
                if st.fuel > self.maxfuel:
                    f = Fail('termination', 'instruction budget exhausted in %s (no loop invariant applies)' % fr.f.name); f.st = st
                    raise f
                if op == 'load':
                    p, al = ins.a
                    if type(p) is str: p = env[p]
                    elif type(p) is not int: p = cval(st, p, mod)
                    ty = ins.ty
                    w = mod.width(ty)
                    nb = (w + 7) // 8
                    if ty[0] == 'vec' or ty[0] == 'st' or ty[0] == 'named' or ty[0] == 'arr':
                        v = self.load_agg(st, p, mod, ty, al)
                    else:
                        v = self.do_load(st, p, nb, al)
                        if type(v) is T and v.op == 'ite':
                            # a choice the path has already made
                            t_ = st.truth(v.a[0])
                            if t_ is not None: v = v.a[1] if t_ else v.a[2]
                        if w & 7:
                            v = trunc(v, w)
                    env[ins.d] = v
                elif op == 'store':
                    v, p, al = ins.a
                    if type(v) is str: v = env[v]
                    elif type(v) is not int:
                        v = cval(st, v, mod) if v is not UNDEF else fresh('undef', mod.width(ins.ty))
                    if type(p) is str: p = env[p]
                    elif type(p) is not int: p = cval(st, p, mod)
                    ty = ins.ty
                    w = mod.width(ty)
                    if type(v) is tuple:
                        self.store_agg(st, p, mod, ty, v, al)
                    else:
                        if w & 7:
                            v = zext(v, w, (w + 7) // 8 * 8)
                        self.do_store(st, p, (w + 7) // 8, v, al)
                elif op == 'gep':
                    b, off, vs = ins.a
                    if type(b) is str: b = env[b]
                    elif type(b) is not int: b = cval(st, b, mod)
                    if type(b) is tuple: raise Unsupported('vector gep')
                    if off: b = add(b, off & mask(64), 64)
                    for x, w, s in vs:
                        if type(x) is str: x = env[x]
                        elif type(x) is not int: x = cval(st, x, mod)
                        if w < 64: x = sext(x, w, 64)
                        elif w > 64: x = trunc(x, 64)
                        b = add(b, mulc(x, s, 64), 64)
                    env[ins.d] = b
                elif op in BINOP:
                    w, a, b, fl = ins.a
                    if type(a) is str: a = env[a]
                    elif type(a) is not int: a = cval(st, a, mod) if a is not UNDEF else fresh('undef', w)
                    if type(b) is str: b = env[b]
                    elif type(b) is not int: b = cval(st, b, mod) if b is not UNDEF else fresh('undef', w)
                    env[ins.d] = self.binop(st, op, a, b, w)
                elif op == 'icmp':
                    pr, w, a, b = ins.a
                    if type(a) is str: a = env[a]
                    elif type(a) is not int: a = cval(st, a, mod)
                    if type(b) is str: b = env[b]
                    elif type(b) is not int: b = cval(st, b, mod)
                    env[ins.d] = self.icmp(pr, a, b, w)
                elif op == 'cast':
                    o, w, v, w2, t0 = ins.a
                    if type(v) is str: v = env[v]
                    elif type(v) is not int: v = cval(st, v, mod)
                    if type(v) is tuple or ins.ty[0] == 'vec':
                        v = self.cast_vec(o, t0, v, ins.ty, mod)
                    else:
                        v = self.cast(o, w, v, w2)
                    env[ins.d] = v
                elif op == 'br':
                    c, a, b = ins.a
                    if type(c) is str: c = env[c]
                    if type(c) is not int:
                        t = st.truth(c)
                        if t is None:
                            t = self.fork(st, c, work)
                            if t is None: return None
                        c = t
                    self.goto(st, fr, a if c else b)
                    break
                elif op == 'jmp':
                    self.goto(st, fr, ins.a)
                    break
                elif op == 'call':
                    fr.ip += 1
                    try:
                        if self.call(st, fr, ins):
                            break
                    except (NeedFork, NeedConc):
                        fr.ip -= 1
                        raise
                    continue
                elif op == 'select':
                    c, a, b = ins.a
                    if type(c) is str: c = env[c]
                    elif type(c) is not int: c = cval(st, c, mod)
                    if type(a) is str: a = env[a]
                    elif type(a) is not int: a = cval(st, a, mod)
                    if type(b) is str: b = env[b]
                    elif type(b) is not int: b = cval(st, b, mod)
                    if type(c) is not int:
                        t = st.truth(c)
                        if t is not None: c = t
                    if type(c) is int: v = a if c else b
                    elif type(a) is tuple: raise NeedFork(c)
                    else:
                        if self.fork_all or ins.ty[0] == 'ptr' or (self.fork_select and ins.ty == I64): raise NeedFork(c)
                        v = ite(c, a, b, mod.width(ins.ty))
                    env[ins.d] = v
                elif op == 'switch':
                    v, w, df, cs = ins.a
                    if type(v) is str: v = env[v]
                    if type(v) is T:
                        k = st.known.get(v)
                        if k is not None: v = k
                    if type(v) is int:
                        for c, l in cs:
                            if c == v: break
                        else: l = df
                        self.goto(st, fr, l)
                        break
                    # symbolic: fork off the cases
                    byl = {}
                    for c, l in cs:
                        byl.setdefault(l, []).append(c)
                    done = False
                    for l, vals in byl.items():
                        cond = disj([eq(v, c, w) for c in vals])
                        t = st.truth(cond)
                        if t is None:
                            t = self.fork(st, cond, work)
                            if t is None: return None
                        if t:
                            self.goto(st, fr, l); done = True
                            break
                    if not done: self.goto(st, fr, df)
                    break
                elif op == 'ret':
                    v = ins.a
                    if type(v) is str: v = env[v]
                    elif v is not None and type(v) is not int:
                        v = cval(st, v, mod) if v is not UNDEF else fresh('undef', mod.width(ins.ty))
                    self.do_return(st, v)
                    break
                elif op == 'alloca':
                    sz, cnt, al = ins.a
                    if type(cnt) is not int:
                        cnt = env[cnt] if type(cnt) is str else cval(st, cnt, mod)
                        if type(cnt) is not int: raise NeedConc(cnt, 64)
                    self.nalloc += 1
                    r = self.new_region(st, '%s.%s#%d' % (fr.f.name, ins.d, st.x.get('na', 0)), sz * cnt, 'cells', max(al, 16))
                    st.x['na'] = st.x.get('na', 0) + 1
                    r.typ = (mod, ins.ty)
                    fr.allocas = fr.allocas + ((r.name, r.atom),)
                    env[ins.d] = r.base
                elif op == 'copy':
                    v = ins.a
                    if type(v) is str: v = env[v]
                    elif type(v) is not int: v = cval(st, v, mod) if v is not UNDEF else fresh('undef', mod.width(ins.ty))
                    env[ins.d] = v
                elif op == 'extractvalue':
                    v, ix = ins.a
                    v = env[v] if type(v) is str else cval(st, v, mod)
                    for i in ix: v = v[i]
                    env[ins.d] = v
                elif op == 'insertvalue':
                    v, e, ix = ins.a
                    if type(v) is str: v = env[v]
                    elif v is UNDEF: v = self.undef_agg(mod, ins.ty)
                    else: v = cval(st, v, mod)
                    if type(e) is str: e = env[e]
                    elif type(e) is not int: e = cval(st, e, mod)
                    env[ins.d] = _ins(v, ix, e)
                elif op == 'extractelement':
                    t, v, i = ins.a
                    v = self.vec(st, v, env, mod, t)
                    i = env[i] if type(i) is str else i
                    if type(i) is not int: raise NeedConc(i, 64)
                    env[ins.d] = v[i]
                elif op == 'insertelement':
                    t, v, e, i = ins.a
                    v = self.vec(st, v, env, mod, t)
                    if type(e) is str: e = env[e]
                    i = env[i] if type(i) is str else i
                    if type(i) is not int: raise NeedConc(i, 64)
                    env[ins.d] = v[:i] + (e,) + v[i + 1:]
                elif op == 'shufflevector':
                    t, v, v2, mk_, t3 = ins.a
                    a = self.vec(st, v, env, mod, t)
                    b = self.vec(st, v2, env, mod, t)
                    m_ = self.vec(st, mk_, env, mod, t3)
                    ab = a + b
                    env[ins.d] = tuple(ab[x] if type(x) is int and x < len(ab) else 0 for x in m_)
                elif op == 'landingpad':
                    cl, cs = ins.a
                    exc = st.x.get('exc')
                    sel_ = 0
                    for c in cs:
                        nm = c.name if isinstance(c, Glob) else None
                        if c == 0 or c is None or nm == exc[1] or self.catches(nm, exc[1]):
                            sel_ = self.typeid(nm)
                            break
                    else:
                        if not cl:
                            # not handled here: continue unwinding
                            self.unwind(st, exc)
                            break
                    env[ins.d] = (exc[0], sel_)
                elif op == 'resume':
                    v = ins.a
                    self.unwind(st, st.x.get('exc'))
                    break
                elif op == 'unreachable':
                    f = Fail('unreachable', 'unreachable code reached in %s' % fr.f.name); f.st = st
                    r_, m_ = check(st.pc)
                    if r_ == 'unsat': return None
                    f.model = m_
                    raise f
                else:
                    raise Unsupported('%s %s' % (op, ins.a))
                fr.ip += 1

    def typeid(self, name):
        if not hasattr(self, '_tids'): self._tids = {}
        return self._tids.setdefault(name, len(self._tids) + 1)

    def catches(self, handler, thrown):
        return handler is None

    def undef_agg(self, mod, t):
        t = mod.res(t)
        if t[0] == 'st': return tuple(self.undef_agg(mod, x) for x in t[1])
        if t[0] in ('arr', 'vec'): return tuple(self.undef_agg(mod, t[2]) for _ in range(t[1]))
        return fresh('undef', mod.width(t))

    def vec(self, st, v, env, mod, t):
        if type(v) is str: return env[v]
        t = mod.res(t)
        if v is UNDEF: return tuple(0 for _ in range(t[1]))
        if isinstance(v, Agg): return tuple(0 if x is UNDEF else x for x in v.items)
        return self.cval(st, v, mod)

    def cast_vec(self, o, t0, v, t1, mod):
        if o == 'bitcast':
            t0 = mod.res(t0); t1 = mod.res(t1)
            if type(v) is tuple:
                ew = mod.width(t0[2])
                x = cat([(ew, e) for e in reversed(v)])
            else:
                x = v
            if t1[0] == 'vec':
                ew = mod.width(t1[2])
                return tuple(ext(x, ew * (i + 1) - 1, ew * i) for i in range(t1[1]))
            return x
        t0 = mod.res(t0); t1 = mod.res(t1)
        return tuple(self.cast(o, mod.width(t0[2]), e, mod.width(t1[2])) for e in v)

    def load_agg(self, st, p, mod, t, al):
        t = mod.res(t)
        if t[0] == 'st':
            return tuple(self.load_agg(st, add(p, o, 64), mod, x, 1) for o, x in zip(mod.lay(t)[2], t[1]))
        if t[0] in ('arr', 'vec'):
            s = mod.size(t[2])
            return tuple(self.load_agg(st, add(p, s * i, 64), mod, t[2], 1) for i in range(t[1]))
        w = mod.width(t)
        v = self.do_load(st, p, (w + 7) // 8, al)
        return trunc(v, w) if w & 7 else v

    def store_agg(self, st, p, mod, t, v, al):
        t = mod.res(t)
        if t[0] == 'st':
            for o, x, e in zip(mod.lay(t)[2], t[1], v): self.store_agg(st, add(p, o, 64), mod, x, e, 1)
            return
        if t[0] in ('arr', 'vec'):
            s = mod.size(t[2])
            for i in range(t[1]): self.store_agg(st, add(p, s * i, 64), mod, t[2], v[i], 1)
            return
        w = mod.width(t)
        if w & 7: v = zext(v, w, (w + 7) // 8 * 8)
        self.do_store(st, p, (w + 7) // 8, v, al)

    def binop(self, st, op, a, b, w):
        if type(a) is tuple or type(b) is tuple:
            n = len(a) if type(a) is tuple else len(b)
            ew = w // n
            aa = a if type(a) is tuple else (a,) * n
            bb = b if type(b) is tuple else (b,) * n
            return tuple(self.binop(st, op, x, y, ew) for x, y in zip(aa, bb))
        if op in SHIFT:
            if type(b) is T:
                k = st.known.get(b)
                if k is not None: b = k
            if type(b) is int:
                if b >= w:
                    f = Fail('shift', 'shift of a %d-bit value by %d' % (w, b)); f.st = st
                    r_, m_ = check(st.pc)
                    if r_ == 'unsat': raise Halt('infeasible')
                    f.model = m_
                    raise f
            else:
                self.prove(st, ult(b, w, w), 'shift', 'shift amount below %d' % w)
        elif op in DIVS:
            if not (type(b) is int and b):
                self.prove(st, bnot(eq(b, 0, w)), 'div', 'divisor not zero')
        return BINOP[op](a, b, w)

    # ------------------------------------------------------------ calls
    def call(self, st, fr, ins):
        """returns True if control moved to another block/frame"""
        callee, args, nd, ud = ins.a
        env = fr.env
        mod = fr.f.mod
        av = []
        for t, v in args:
            if type(v) is str: v = env[v]
            elif v is None: v = 0
            elif type(v) is not int:
                if v is UNDEF:
                    v = fresh('undef', mod.width(t))
                elif type(v) is Asm: v = 0
                else: v = self.cval(st, v, mod)
            av.append(v)
        if type(callee) is Asm:
            env[ins.d] = self.asm(st, callee, av, ins, mod)
            return False
        if type(callee) is str:
            return self.call_indirect(st, fr, ins, env[callee], av)
        if type(callee) is not Glob:
            raise Unsupported('call of %r' % (callee,))
        return self.call_named(st, fr, ins, callee.name, av)

    def call_indirect(self, st, fr, ins, fp, av):
        h = self.handlers.get('<indirect>')
        if h is None:
            raise Unsupported('indirect call')
        return self.finish(st, fr, ins, h(self, st, [fp] + av, ins))

    def finish(self, st, fr, ins, v):
        if v is CALLED: return True
        if type(v) is Throw:
            self.throw(st, (v.ptr, v.type), ins.a[3])
            return True
        if ins.d is not None: fr.env[ins.d] = v
        if ins.a[2] is not None:
            self.goto(st, fr, ins.a[2])
            return True
        return False

    def call_named(self, st, fr, ins, name, av):
        h = self.handlers.get(name)
        if h is None:
            for rx, fn in self.hpat:
                if rx.fullmatch(name):
                    h = fn
                    self.handlers[name] = fn
                    break
        if h is not None:
            v = h(self, st, av, ins)
            if v is not NOHANDLE:
                return self.finish(st, fr, ins, v)
        if name.startswith('llvm.'):
            return self.finish(st, fr, ins, self.intrinsic(st, name, av, ins))
        f = self.lookup(fr.f.mod, name)
        if f is None:
            b = BUILTIN.get(name)
            if b is None:
                raise Unsupported('call of external function %s' % name)
            return self.finish(st, fr, ins, b(self, st, av, ins))
        if len(st.frames) > 60: raise Unsupported('recursion too deep')
        self.push(st, f, av, ins.d, ins.a[2], ins.a[3])
        return True

    def asm(self, st, a, av, ins, mod):
        w = mod.width(ins.ty)
        t = a.text.replace('\\09', ' ').strip()
        if 'bswap' in t and len(av) == 1: return bswap(av[0], w)
        if t.startswith('xchgb') and w == 16: return bswap(av[0], 16)
        if t.startswith('rol') and w == 16 and '8' in t: return bswap(av[0], 16)
        raise Unsupported('asm ' + t)

    def intrinsic(self, st, name, av, ins):
        if name.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.dbg', 'llvm.invariant', 'llvm.experimental.noalias', 'llvm.donothing')): return 0
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            return self.memcpy(st, av[0], av[1], av[2], name.startswith('llvm.memcpy'))
        if name.startswith('llvm.memset'):
            return self.memset(st, av[0], av[1], av[2])
        w = None
        try: w = int(name.rsplit('.i', 1)[1])
        except Exception: pass
        if name.startswith(('llvm.expect', 'llvm.threadlocal.address', 'llvm.launder', 'llvm.strip')): return av[0]
        if name.startswith('llvm.umax'): return umax(av[0], av[1], w)
        if name.startswith('llvm.umin'): return umin(av[0], av[1], w)
        if name.startswith('llvm.smax'): return ite(slt(av[0], av[1], w), av[1], av[0], w)
        if name.startswith('llvm.smin'): return ite(slt(av[0], av[1], w), av[0], av[1], w)
        if name.startswith('llvm.bswap'): return bswap(av[0], w)
        if name.startswith('llvm.abs'): return ite(slt(av[0], 0, w), sub(0, av[0], w), av[0], w)
        if name.startswith('llvm.usub.sat'): return ite(ult(av[0], av[1], w), 0, sub(av[0], av[1], w), w)
        if name.startswith('llvm.umul.with.overflow'):
            a, b = av
            x = mul(zext(a, w, 2 * w), zext(b, w, 2 * w), 2 * w)
            return (mul(a, b, w), bnot(eq(ext(x, 2 * w - 1, w), 0, w)))
        if name.startswith('llvm.uadd.with.overflow'):
            a, b = av
            x = add(zext(a, w, w + 1), zext(b, w, w + 1), w + 1)
            return (add(a, b, w), ext(x, w, w))
        if name.startswith('llvm.usub.with.overflow'):
            a, b = av
            return (sub(a, b, w), ult(a, b, w))
        if name.startswith('llvm.fshl'):
            a, b, c = av
            if type(c) is T: raise NeedConc(c, w)
            return ext(shl(cat(((w, a), (w, b))), c % w, 2 * w), 2 * w - 1, w)
        if name.startswith('llvm.trap'):
            raise Halt('abort', 'trap')
        if name.startswith('llvm.stacksave'): return 0
        if name.startswith('llvm.stackrestore'): return 0
        if name.startswith('llvm.eh.typeid.for'):
            p = av[0]
            if type(p) is T:
                for r in self.globregs.values():
                    if r.base is p: return self.typeid(r.tag[1])
            return 0
        if name.startswith('llvm.objectsize'): return mask(64)
        if name.startswith('llvm.is.constant'): return 0
        raise Unsupported(name)

    def conc_len(self, st, n):
        if type(n) is T:
            k = st.known.get(n)
            if k is not None: return k
            raise NeedConc(n, 64)
        return n

    def memcpy(self, st, d, s, n, strict=True):
        h = self.handlers.get('<memcpy>')
        if h is not None:
            v = h(self, st, [d, s, n, strict], None)
            if v is not NOHANDLE: return v
        n = self.conc_len(st, n)
        if n == 0: return d
        if n <= 16:
            v = self.do_load(st, s, n, 1, 'memcpy read')
            self.do_store(st, d, n, v, 1, 'memcpy write')
            return d
        vals = []
        for k in range(0, n, 8):
            t = min(8, n - k)
            vals.append((k, t, self.do_load(st, add(s, k, 64), t, 1, 'memcpy read')))
        for k, t, v in vals:
            self.do_store(st, add(d, k, 64), t, v, 1, 'memcpy write')
        return d

    def memset(self, st, d, b, n):
        h = self.handlers.get('<memset>')
        if h is not None:
            v = h(self, st, [d, b, n], None)
            if v is not NOHANDLE: return v
        n = self.conc_len(st, n)
        for k in range(0, n, 8):
            t = min(8, n - k)
            self.do_store(st, add(d, k, 64), t, cat([(8, b)] * t), 1, 'memset write')
        return d

class Throw:
    def __init__(self, ptr, type): self.ptr = ptr; self.type = type

CALLED = object()
NOHANDLE = object()

def _ins(v, ix, e):
    i = ix[0]
    if len(ix) == 1: return v[:i] + (e,) + v[i + 1:]
    return v[:i] + (_ins(v[i], ix[1:], e),) + v[i + 1:]

BINOP = {'add': add, 'sub': sub, 'mul': mul, 'udiv': udiv, 'sdiv': sdiv, 'urem': urem, 'srem': srem,
         'shl': shl, 'lshr': lshr, 'ashr': ashr, 'and': band, 'or': bor, 'xor': bxor}
SHIFT = {'shl', 'lshr', 'ashr'}
DIVS = {'udiv', 'sdiv', 'urem', 'srem'}

# ------------------------------------------------------------ libc and C++ runtime contracts

def b_noop(m, st, a, ins): return fresh('extret', 32)
def b_zero(m, st, a, ins): return 0

def b_malloc(m, st, a, ins):
    n = a[0]
    k = st.x.get('heap', 0)
    st.x['heap'] = k + 1
    r = m.new_region(st, 'heap%d' % k, n, 'cells', 16)
    st.x['live'] = st.x.get('live', ()) + (r.name,)
    return r.base

def b_calloc(m, st, a, ins):
    p = b_malloc(m, st, [mul(a[0], a[1], 64)], ins)
    r, o = m.resolve(st, p)
    m.contents(st, r, True).init = lambda mm, s, rr, off, n: 0
    return p

def b_free(m, st, a, ins):
    p = a[0]
    if type(p) is int and p == 0: return 0
    r, off = m.resolve(st, p, 'free')
    m.prove(st, eq(off, 0, 64), 'heap', 'free of the start of an object')
    if r.name not in st.x.get('live', ()):
        f = Fail('heap', 'free of %s, which is not a live heap object' % r.name); f.st = st
        raise f
    st.x['live'] = tuple(x for x in st.x['live'] if x != r.name)
    c = m.contents(st, r, True)
    c.freed = True
    return 0

def b_abort(m, st, a, ins):
    raise Halt('abort', ins.a[0].name if isinstance(ins.a[0], Glob) else 'abort')

def b_memcpy(m, st, a, ins): return m.memcpy(st, a[0], a[1], a[2])
def b_memmove(m, st, a, ins): return m.memcpy(st, a[0], a[1], a[2], False)
def b_memset(m, st, a, ins): return m.memset(st, a[0], trunc(a[1], 8), a[2])

def b_exc_alloc(m, st, a, ins):
    k = st.x.get('excn', 0); st.x['excn'] = k + 1
    r = m.new_region(st, 'exception%d' % k, a[0], 'cells', 16)
    return r.base

def b_throw(m, st, a, ins):
    tn = None
    for r in m.globregs.values():
        if r.base is a[1]: tn = r.tag[1]
    return Throw(a[0], tn)

def b_begin_catch(m, st, a, ins): return a[0]

BUILTIN = {'malloc': b_malloc, 'calloc': b_calloc, 'free': b_free, 'abort': b_abort, '__assert_fail': b_abort,
           '_ZSt9terminatev': b_abort, 'exit': b_abort, 'memcpy': b_memcpy, 'memmove': b_memmove, 'memset': b_memset,
           '__cxa_allocate_exception': b_exc_alloc, '__cxa_throw': b_throw, '__cxa_begin_catch': b_begin_catch,
           '__cxa_end_catch': b_zero, '__cxa_free_exception': b_zero, '_ZNSt9exceptionC2Ev': b_zero, '_ZNSt9exceptionD2Ev': b_zero,
           '_ZdlPv': b_free, '_Znwm': b_malloc, '_Znam': b_malloc, '_ZdaPv': b_free, '_ZdlPvm': b_free,
           '__clang_call_terminate': b_abort}
for _n in NOOP_EXT: BUILTIN[_n] = b_noop
