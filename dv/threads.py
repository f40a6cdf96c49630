"""Thread-modular contract proof of the two streams.

Every thread runs alone against a contract of the others: whatever the mutex
guards is arbitrary when the mutex is taken or a wait returns, the quit flag
only goes from false to true, and fetched offsets only grow.  The contract is
what this file then requires of every thread (guarantee):

worker     guarded fields only under the mutex; waits only for what has not
           happened yet (never once the stream quits, once blocks are there,
           once a new operation is triggered); one operation per trigger; every
           block taken is handled once; a failure sets _error; arrives at the
           final barrier once, without a lock, when nothing is left to do;
           arrivals before it == epoch of the block emitted; only thread 0, after
           the final barrier and if the stream does not quit, resets the state
           and calls the stored callback once, unlocked, with !error
start, push_block, finalize, destructor, constructor
           change exactly what they should, under the mutex, and wake every wait
           whose condition reads what they changed
barrier, latch
           monitors: count and generation, value

Loops of the workers are cut at their headers (any number of iterations,
operations, blocks, epochs): state that changes there is arbitrary, except for
relations found at run time, checked on entry and at every back edge."""
import re
from exec import *
from term import *
from joined import headers
from inv import phis
from loop import region, raise_

M64 = mask(64)
BIG = 1 << 63
TERMX = {'c0': 64, 'g0': 32, 'i0': 1, 'N': 64, 'my': 32, 'trig': 32, 'bar': 64, 'nextmin': 64, 'off': 64, 'err': 1, 'err0': 1, 'q0': 1, 'f0': 1, 't0': 32, 'qe': 1, 'eoff': 64, 'size': 64}
LOCKED = ('err0', 'q0', 'f0', 't0', 'qe', 'reads', 'wr', 'popped', 'front')

import os
DBG = os.environ.get('DV_DBG')
# epochs of any size: x >> log2 for a size 2^log2 of at least a block, as an
# uninterpreted function of the block number with the facts a shift has
_LOG2 = var('op.log2', 32)
_LO = [20]
def epoch(x, L):
    if type(L) is int: return lshrc(x, L, 64)
    return _ep(x)
def _ep(x):
    q = lshrc(x, _LO[0], 64)
    if type(q) is int and q == 0: return 0
    if type(q) is T and q.op == 'ite': return ite(q.a[0], _ep0(q.a[1]), _ep0(q.a[2]), 64)
    return _ep0(q)
def _ep0(q):
    if type(q) is int and q == 0: return 0
    return zext(uf('ep', 64 - _LO[0], q), 64 - _LO[0], 64)
_eps = {}
def eps(t):
    if type(t) is not T: return frozenset()
    r = _eps.get(t)
    if r is None:
        r = frozenset([t]) if t.op == 'uf' and t.a[0] == 'ep' else frozenset()
        for k in ([t.a[0]] if t.op == 'ext' else solve.kids(t)): r = r | eps(k)
        _eps[t] = r
    return r
def epfacts(conds):
    es = set()
    for c in conds: es |= eps(c)
    w = 64 - _LO[0]
    es = sorted(es, key=str)
    out = [ule(zext(e, w, 64), e.a[1], 64) for e in es]
    for i, a in enumerate(es):
        for b in es[:i]:
            out.append(mk_or(bnot(ule(a.a[1], b.a[1], 64)), ule(a, b, w)))
            out.append(mk_or(bnot(ule(b.a[1], a.a[1], 64)), ule(b, a, w)))
    return out
_lshr = BINOP['lshr']
def _lshr_epoch(a, b, w):
    if type(b) is T and w == 64 and tvars(b) == {'op.log2'}:
        if b == zext(_LOG2, 32, 64): return _ep(a)
        raise Unsupported('shift by another amount than the size of an epoch')
    return _lshr(a, b, w)
BINOP['lshr'] = _lshr_epoch
solve.EXTRA[0] = epfacts

class TM(Machine):
    spec = None
    def valid(self, st, c):
        if eps(c): st.model = None      # the functions of an older model need not have the facts
        return Machine.valid(self, st, c)
    def fork(self, st, c, work):
        if eps(c): st.model = None
        return Machine.fork(self, st, c, work)
    def push(self, st, f, args, *a):
        Machine.push(self, st, f, args, *a)
        st.x['na'] = 1000 * len(st.frames)      # the same name whenever the same function is entered at the same depth
    def load_at(self, st, r, off, n, *a):
        if r.name == 'stream': self.spec.access(self, st, off, n, None)
        return Machine.load_at(self, st, r, off, n, *a)
    def store_at(self, st, r, off, n, v, *a):
        if r.name == 'stream': self.spec.access(self, st, off, n, (v,))
        return Machine.store_at(self, st, r, off, n, v, *a)

# ------------------------------------------------------------ loops
def hkey(st):
    return tuple((f.f.name, f.lbl) for f in st.frames)

def xkey(st):
    ks = []
    for k, v in st.x.items():
        if k in ('_m', 'exc', 'na', 'pend'): continue
        ks.append((k, v is None if k in TERMX else v))
    return (tuple(sorted(ks, key=lambda z: z[0])), tuple(sorted((r, m.freed) for r, m in st.mem.items())))

def slots(st):
    """{slot: (width, value)} of what may change at a loop header"""
    d = {}
    fr = st.frames[-1]
    for i in phis(fr, fr.lbl):
        v = fr.env[i.d]
        if type(v) is not tuple: d[('phi', i.d)] = (fr.f.mod.width(i.ty), v)
    for rn, m in st.mem.items():
        if type(m) is Cells:
            for off, (n, v) in m.c.items(): d[('mem', rn, off, n)] = (8 * n, v)
    for k, w in TERMX.items():
        v = st.x.get(k)
        if v is not None: d[('x', k)] = (w, v)
    return d

def put(m, st, s, v):
    if s[0] == 'phi': st.frames[-1].env[s[1]] = v
    elif s[0] == 'x': st.x[s[1]] = v
    else: m.contents(st, region(st, s[1]), True).c[s[2]] = (s[3], v)

def same(a, b, w):
    return a is b or (type(a) is type(b) and a == b) or sub(a, b, w) == 0

class Abs:
    """the states of one header: the first one seen, with the slots that change
    made arbitrary, and the relations that hold in all"""
    def __init__(self, m, st, shift, tried=None, memo=None):
        self.tried = set() if tried is None else tried      # relations that failed before at this place (only saves time)
        self.m = m; self.A0 = st; self.W = {}; self.cands = []; self.dead = set(); self.shift = shift
        self.s0 = slots(st)
        self.memo = memo = {} if memo is None else memo      # what changed here before (only saves time)
        new = {s: w for s, w in memo.items() if s in self.s0 and self.s0[s][0] == w}
        if new:
            self.W.update(new)
            v0 = {k: v for k, (w, v) in self.s0.items()}
            for name, f in self.relations(new):
                if name not in self.tried and all(k in v0 for k in name[1]) and m.valid(st, f(v0)): self.cands.append((name, f))

    def state(self):
        st = self.A0.copy()
        st.fuel = 0; st.model = None
        fr = st.frames[-1]
        for n in self.dead: fr.env.pop(n, None)
        val = {k: v for k, (w, v) in self.s0.items()}
        for s, w in self.W.items():
            v = fresh('loop', w)
            val[s] = v
            put(self.m, st, s, v)
        for name, f in self.cands: st.assume(f(val))
        return st

    def absorb(self, st):
        """make st one of the states; True if that changed anything"""
        m = self.m
        ch = False
        now = slots(st)
        new = {}
        for s in set(self.s0) | set(now):
            if s in self.W: continue
            a = self.s0.get(s); b = now.get(s)
            if a is None or b is None or not same(a[1], b[1], a[0]): new[s] = (a or b)[0]
        fa = self.A0.frames[-1]; fb = st.frames[-1]
        ph = {i.d for i in phis(fa, fa.lbl)}
        for k, v in fa.env.items():
            if k in ph or k in self.dead: continue
            u = fb.env.get(k)
            if u is not v and u != v: self.dead.add(k); ch = True       # recomputed before every use
        for x, y in zip(self.A0.frames[:-1], st.frames[:-1]):
            for k, v in x.env.items():
                u = y.env.get(k)
                if u is not v and u != v: raise Unsupported('caller changes in a loop')
        # a cell whose size changes is dropped
        for s in list(new):
            if s[0] == 'mem' and any(t != s and t[0] == 'mem' and t[1] == s[1] and t[2] < s[2] + s[3] and s[2] < t[2] + t[3] for t in list(self.s0) + list(self.W) + list(new)):
                raise Unsupported('memory of different shapes meets in a loop')
        val = lambda sl: {k: v for k, (w, v) in sl.items()}
        v0 = val(self.s0); v1 = val(now)
        keep = []
        for c in self.cands:
            if all(k in v1 for k in c[0][1]) and m.valid(st, c[1](v1)): keep.append(c)
            else: ch = True; self.tried.add(c[0])
        self.cands = keep
        if new:
            ch = True
            self.W.update(new); self.memo.update(new)
            for name, f in self.relations(new):
                if not all(k in v0 and k in v1 for k in name[1]): continue
                if name in self.tried: continue
                if m.valid(self.A0, f(v0)) and m.valid(st, f(v1)): self.cands.append((name, f))
                else: self.tried.add(name)
        keep = [c for c in self.A0.pc if st.pcset.get(c) == 1 or m.valid(st, c)]
        if len(keep) < len(self.A0.pc):
            # only what holds in all states
            ch = True
            A = self.A0 = self.A0.copy()
            A.pc = []; A.pcset = {}; A.known = {}; A.facts = {}; A.proved = set(); A.model = None
            for c in keep: A.assume(c)
        return ch

    def relations(self, new):
        W = self.W
        skip = lambda s: s[0] == 'mem' and s[1] == 'stream'
        w64 = [s for s in W if W[s] == 64 and not skip(s)]
        for a, b in self.m.spec.pairs:
            if a in W and b in W: yield (('ghost', (a, b)), lambda v, a=a, b=b, w=W[a], u=W[b]: eq(zext(v[a], w, u) if u > w else v[a], v[b], u))
        fr = self.A0.frames[-1]
        V = []
        for k, v in fr.env.items():
            if type(v) is T and v.w == 64 and ('phi', k) not in self.s0 and k not in self.dead:
                if any(a in self.A0.regs for a, _ in lin_of(v, 64)[1]): continue
                V.append((k, v))
        bar = ('x', 'bar')
        for a in W:
            for b in W:
                if a is b or W[a] != W[b] or W[a] not in (32, 64) or skip(a) or skip(b): continue
                if a not in new and b not in new: continue
                if a < b: yield (('eq', (a, b)), lambda v, a=a, b=b, w=W[a]: eq(v[a], v[b], w))
                if W[a] == 64: yield (('le', (a, b)), lambda v, a=a, b=b: ule(v[a], v[b], 64))
        for a in w64:
            if a not in new: continue
            for k, c in V: yield (('le ' + k, (a,)), lambda v, a=a, c=c: ule(v[a], c, 64))
        if bar in W or bar in self.s0:
            b0 = self.s0[bar][1] if bar in self.s0 else 0
            for a in w64:
                if a == bar or a not in self.s0 or (a not in new and bar not in new): continue
                a0 = self.s0[a][1]
                yield (('up', (bar, a)), lambda v, a=a, a0=a0, b0=b0: eq(sub(v[bar], b0, 64), sub(v[a], a0, 64), 64))
                yield (('down', (bar, a)), lambda v, a=a, a0=a0, b0=b0: eq(sub(v[bar], b0, 64), sub(a0, v[a], 64), 64))
                if self.shift is not None: yield (('shift', (bar, a)), lambda v, a=a, L=self.shift: eq(v[bar], epoch(v[a], L), 64))

class Loops:
    def __init__(self, m, shift=None, rounds=30):
        self.m = m; self.shift = shift; self.rounds = rounds; self.tried = {}
        m.cut = lambda mm, s, fr, lbl: lbl in headers(fr.f)

    def explore(self, st, active=()):
        """all ends, and all states at the active headers"""
        cuts = []; ends = []
        def end(o):
            if o.kind == 'cut': cuts.append(o.st)
            else: ends.append(o)
        self.m.explore(st, end)
        exits = []
        for c in cuts:
            k = hkey(c)
            if k in active: exits.append((k, c))
            else:
                ex, en = self.loop(c, k, active)
                exits += ex; ends += en
        return exits, ends

    def loop(self, c, k, active):
        if len(active) > 6: raise Unsupported('loops nested too deep')
        tried = lambda s: self.tried.setdefault((k, xkey(s)), (set(), {}))
        ent = {xkey(c): Abs(self.m, c, self.shift, *tried(c))}
        todo = [xkey(c)]; res = {}
        n = 0
        while todo:
            e = todo.pop(0)
            n += 1
            if n > self.rounds: raise Unsupported('loop does not stabilise')
            res[e] = self.explore(ent[e].state(), active + (k,))
            for kk, s in res[e][0]:
                if kk != k: continue
                e2 = xkey(s)
                if e2 not in ent:
                    if len(ent) > 12: raise Unsupported('too many states at a loop' if not DBG else 'too many states at a loop %s %s' % (k, '\n'.join(map(str, ent))))
                    ent[e2] = Abs(self.m, s, self.shift, *tried(s))
                    todo.append(e2)
                elif ent[e2].absorb(s) and e2 not in todo: todo.append(e2)
        ex = []; en = []
        for a, b in res.values():
            ex += [(kk, s) for kk, s in a if kk != k]
            en += b
        return ex, en

# ------------------------------------------------------------ the streams
GUARDED = {'_trigger', '_error', '_finalizing', '_finalize_callback', '_queue', '_quit'}
PARAMS = {'_ptr', '_size', '_block_available_callback', '_offset_sync_epoch_multiple_log2'}
ATOMIC = re.compile(r'_ZN(K?)St(6atomicI[bm]E|13__atomic_baseI[bm]E)(\w+)')

class Stream:
    def __init__(self, mod, fields, kind):
        self.mod = mod; self.kind = kind; self.fails = []; self.case = ''; self.sites = {}
        self.stats = {}; self.kinds = {}
        m = Machine([mod])
        def const(n):
            out = []
            st = State()
            f = mod.func(n)
            if f is None: raise Unsupported('function %s not found' % n)
            m.push(st, f, [])
            m.explore(st, out.append)
            return out[0].val
        self.F = {f: (const('verif_off' + f), const('verif_size' + f)) for f in fields}
        self.B = {f: const('verif_barrier' + f) for f in ('_mutex', '_cv', '_num_threads', '_count', '_generation', '_interrupted')}
        self.Lt = {f: const('verif_latch' + f) for f in ('_mutex', '_cv', '_value')}
        self.align = const('verif_off_required')
        self.size = const('verif_sizeof_stream'); self.bsize = const('verif_sizeof_block')
        self.BS = const('verif_block_size_const')
        self.pairs = [(('x', a), ('mem', 'stream') + self.F[f]) for a, f in (('t0', '_trigger'), ('err0', '_error'), ('f0', '_finalizing'))]

    # -------------------------------------------------------- machine
    def machine(self):
        m = self.m = TM([self.mod])
        m.spec = self
        m.on_fail = lambda e: self.fails.append((e.kind, e.msg, self.case, e.model is not None))
        h = m.handlers; p = m.hpat
        P = lambda rx, f: p.append((re.compile(rx), f))
        none = lambda mm, st, a, ins: 0
        P(r'_ZNSt5mutex4lockEv|pthread_mutex_lock', lambda mm, st, a, ins: self.lock(mm, st, a[0]))
        P(r'_ZNSt5mutex6unlockEv|pthread_mutex_unlock', lambda mm, st, a, ins: self.unlock(mm, st, a[0]))
        P(r'_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE', lambda mm, st, a, ins: self.wait(mm, st, a[0]))
        P(r'_ZNSt18condition_variable10notify_oneEv', lambda mm, st, a, ins: self.notify(mm, st, a[0], False))
        P(r'_ZNSt18condition_variable10notify_allEv', lambda mm, st, a, ins: self.notify(mm, st, a[0], True))
        P(r'_ZNSt18condition_variable[CD][12]Ev|_ZNSt5mutex[CD][12]Ev', none)
        P(r'_ZNK?St6atomicI[bm]E\w+|_ZNK?St13__atomic_baseI[bm]E\w+', self.atomic)
        P(r'_ZNK?St5queueIN6lib8426stream5Block\w+', self.queue)
        P(r'_ZNKSt8functionIFRSovEEclEv', self.logger)
        P(r'_ZNSt\d+\w+(error|exception|argument)C[12]E\w+', none)
        P(r'_ZStls\w*|_ZNSols\w*', lambda mm, st, a, ins: a[0])
        P(r'_ZN6lib8426detail7barrier15arrive_and_waitEv', lambda mm, st, a, ins: self.arrive(mm, st, a[0]))
        P(r'_ZN6lib8426detail7barrier9interruptEv', lambda mm, st, a, ins: self.interrupt(mm, st, a[0]))
        P(r'_ZN6lib8426detail5latch10count_downEv', lambda mm, st, a, ins: self.count_down(mm, st, a[0]))
        P(r'_ZN6lib8426detail5latch4waitEv', lambda mm, st, a, ins: self.latch_wait(mm, st, a[0]))
        P(r'_ZNK?6lib8426stream\d+Data\w+Stream12handle_blockE\w+', self.handle)
        P(r'_ZNSt6thread4joinEv', self.join)
        P(r'_ZNSt6vectorISt6threadSaIS0_EED2Ev', none)
        P(r'_ZNSt6vectorISt6threadSaIS0_EE(C2Ev|7reserveEm)', none)
        P(r'_ZNSt6vectorISt6threadSaIS0_EE12emplace_back\w+', self.spawn)
        h['<indirect>'] = self.indirect
        h['free'] = self.free
        return m

    def at(self, f, d=0): return add(self.S.base, self.F[f][0] + d, 64)
    def isf(self, m, st, p, f): return sub(p, self.S.base, 64) == self.F[f][0]
    def field(self, off):
        if type(off) is int:
            for f, (o, n) in self.F.items():
                if o <= off < o + n: return f
    def poke(self, st, f, v, n=None, d=0):
        o, sz = self.F[f]
        self.m.contents(st, self.S, True).c[o + d] = (n or sz, v)
    def peek(self, st, f, d=0, n=None):
        o, sz = self.F[f]
        return Machine.load_at(self.m, st, self.S, o + d, n or sz)
    def drop(self, st, f):
        o, sz = self.F[f]
        c = self.m.contents(st, self.S, True).c
        for k in list(c):
            if o <= k < o + sz: del c[k]
    def pokefn(self, st, f, name):
        self.poke(st, f, var(name + '.f0', 64), 8, 0); self.poke(st, f, var(name + '.f1', 64), 8, 8)
        self.poke(st, f, var(name + '.manager', 64), 8, 16); self.poke(st, f, var(name + '.invoker', 64), 8, 24)

    def setup(self, m, **x):
        st = State()
        self.S = m.new_region(st, 'stream', self.size, 'cells', 16)
        st.mem['stream'].init = lambda mm, s, r, off, n: var('stream+%d' % off, 8)
        st.x.update(lock=0, q=0, **x)
        for n in ('fcb', 'bac', 'arg', 'log'): st.assume(bnot(eq(var(n + '.manager', 64), 0, 64)))
        return st

    def choose(self, m, st, name):
        """an outcome of the environment"""
        c = st.x.get('pend')
        if c is None: c = st.x['pend'] = fresh(name, 1)
        t = st.truth(c)
        if t is None: raise NeedFork(c)
        st.x['pend'] = None
        return t

    def bad(self, m, st, msg, kind='thread'):
        if DBG: print(msg, {k: v for k, v in st.x.items()}, [(f.f.name, f.lbl) for f in st.frames])
        raise_(m, st, kind, msg)

    # -------------------------------------------------------- accesses
    def access(self, m, st, off, n, w):
        f = self.field(off)
        x = st.x
        if self.mode == 'ctor' or self.mode == 'barrier' or self.mode == 'latch': return
        if f is None:
            if w is not None: raise Unsupported('a field of the stream without a contract changes')
            return
        if f in GUARDED:
            if self.mode == 'dtor' and len(x['joined']) == self.nthreads: return        # nobody else is left
            if not x['lock']: self.bad(m, st, '%s is accessed without the mutex' % f, 'race')
            if w is None: x['reads'] = x['reads'] | {f}
        elif f in PARAMS and w is None and self.mode == 'worker' and x['phase'] != 'work' and not self.leads(m, st):
            self.bad(m, st, '%s is read outside an operation' % f, 'race')
        elif f == '_current_offset': self.bad(m, st, '_current_offset is accessed as plain memory', 'race')
        if w is not None:
            if f in GUARDED: x['wr'] = x['wr'] | {f}
            getattr(self, 'write_' + self.mode)(m, st, f, off - self.F[f][0], n, w[0])

    def isbit(self, m, st, v, b):
        v = v if type(v) is int else trunc(v, 1) if v.w > 1 else v
        if type(v) is int: return (v & 1) == b
        return m.valid(st, eq(v, b, 1))

    # -------------------------------------------------------- mutex
    def lock(self, m, st, p):
        if not self.isf(m, st, p, '_mutex'): raise Unsupported('another mutex')
        if st.x['lock']: self.bad(m, st, 'locks the mutex it holds')
        st.x['lock'] = 1
        self.havoc(m, st)
        return 0

    def havoc(self, m, st):
        """what the mutex guards is arbitrary, within what the others guarantee"""
        x = st.x
        x['reads'] = frozenset(); x['wr'] = frozenset()
        x['t0'] = fresh('trigger', 32)
        x['err0'] = x['err'] if x.get('err') is not None else fresh('error', 1)
        x['f0'] = fresh('finalizing', 1)
        x['q0'] = 1 if x['q'] else fresh('quit', 1)
        self.poke(st, '_trigger', x['t0'])
        for f, v in (('_error', 'err0'), ('_finalizing', 'f0'), ('_quit', 'q0')): self.poke(st, f, zext(x[v], 1, 8) if type(x[v]) is T else x[v])
        self.pokefn(st, '_finalize_callback', 'fcb')
        if '_queue' in self.F: x['qe'] = fresh('empty', 1)
        if self.mode == 'push' or self.mode == 'finalize': st.assume(eq(x['f0'], 0, 1))       # precondition
        x['notif'] = ()

    def unlock(self, m, st, p):
        if not self.isf(m, st, p, '_mutex'): raise Unsupported('another mutex')
        x = st.x
        if not x['lock']: self.bad(m, st, 'unlocks a mutex it does not hold')
        getattr(self, 'section_' + self.mode)(m, st)
        x['lock'] = 0
        for k in LOCKED: x.pop(k, None)
        for f in GUARDED:
            if f in self.F: self.drop(st, f)
        return 0

    def notify(self, m, st, p, all_):
        cv = self.field(sub(p, self.S.base, 64))
        if cv is None: raise Unsupported('another condition variable')
        st.x['notif'] = st.x.get('notif', ()) + ((cv, all_),)
        return 0

    def woken(self, m, st, f):
        """every wait whose condition reads f is woken after the mutex was taken"""
        for cv, reads in self.sites.items():
            if any(f in r for r in reads):
                ok = any(c == cv and (a or f == '_queue' and len(reads) == 1) for c, a in st.x.get('notif', ()))
                if not ok: self.bad(m, st, '%s changes without waking the threads that wait on %s for it' % (f, cv))

    # -------------------------------------------------------- atomics
    def atomic(self, m, st, a, ins):
        name = ins.a[0].name
        p = a[0]
        g = ATOMIC.fullmatch(name)
        rest = g.group(3)
        if re.match(r'[CD][12]E', rest): return NOHANDLE
        f = self.field(sub(p, self.S.base, 64))
        if f not in ('_quit', '_current_offset'): raise Unsupported('atomic access to %s' % f)
        b = 'Ib' in g.group(2)
        w = 8 if b else 64
        if self.mode == 'ctor': return NOHANDLE
        if rest.startswith('cv') or rest.startswith('4load'):
            if f == '_quit': return self.read_quit(m, st)
            raise Unsupported('reads the current offset')
        if rest.startswith('aS') or rest.startswith('5store'):
            v = a[1]
            if f == '_quit': v = v if type(v) is int else (zext(v, 1, 8) if v.w == 1 else v); self.write_quit(m, st, v)
            else: self.write_offset(m, st, v)
            return v if rest.startswith('aS') else 0
        if f == '_current_offset' and (rest.startswith('9fetch_add') or rest.startswith('pLE')):
            v = self.fetch(m, st, a[1])
            return v if rest.startswith('9') else add(v, a[1], 64)
        raise Unsupported('atomic operation %s' % name)

    def read_quit(self, m, st):
        x = st.x
        if x['lock']:
            x['reads'] = x['reads'] | {'_quit'}
            return x['q0']
        if x['q']: return 1
        t = self.choose(m, st, 'quit')
        if t: x['q'] = 1
        return t

    def write_quit(self, m, st, v):
        if self.mode != 'dtor': self.bad(m, st, 'only the destructor sets the quit flag')
        if not self.isbit(m, st, v, 1): self.bad(m, st, 'the quit flag is only ever set')
        st.x['quit'] = 1
        if st.x['lock']:
            st.x['q0'] = 1; st.x['qlock'] = 1
        return

    # -------------------------------------------------------- worker
    def worker(self, leader, L=None):
        self.case = '%s, %s%s' % (self.kind, 'thread 0' if leader else 'other threads', '' if L is None else {0xffffffff: ', no epochs', 'any': ', epochs of any size'}.get(L) or ', epochs of 2^%d' % L)
        self.mode = 'worker'
        m = self.machine()
        st = self.setup(m, phase='init', trig=0, bar=0, nextmin=0, off=None, blk=None, notif=(), mustfail=0, failed=0, end=0, fin=0, ready=0, nq=0, err=None, reset=frozenset(), hand=0, eoff=None)
        self.leader = leader
        self.L = _LOG2 if L == 'any' else L
        self.epochs = L is not None and L != 0xffffffff
        if L == 'any':
            _LO[0] = self.BS.bit_length() - 1
            st.assume(ule(_LO[0], self.L, 32)); st.assume(ult(self.L, 64, 32))
        self.params(m, st)
        if leader: tid = 0
        else:
            tid = var('thread', 64)
            st.assume(bnot(eq(tid, 0, 64)))
        m.new_region(st, 'ostream', 512, 'cells', 16)
        if self.kind == 'decomp': m.new_region(st, 'front', self.bsize, 'cells', 16)
        f = self.mod.func('verif_loop')
        m.push(st, f, [self.S.base, tid])
        lp = Loops(m, self.L if self.epochs else None)
        ex, ends = lp.explore(st)
        for o in ends:
            try:
                if o.kind != 'ret': self.bad(m, o.st, 'a worker ends with %s' % o.kind)
                if o.st.x['lock']: self.bad(m, o.st, 'a worker ends with the mutex')
                if not o.st.x['q']: self.bad(m, o.st, 'a worker ends although the stream does not')
                if not o.st.x['ready']: self.bad(m, o.st, 'the thread never reports that it is ready')
            except Fail as e: m.on_fail(e)
            except Halt: pass
        if not ends and not self.fails: raise Unsupported('no path to the end')
        return self.done(m)

    def done(self, m):
        return self.fails, m.stats, m.obl_kinds, self.sites

    def params(self, m, st):
        """the operation's parameters, set by start before the trigger"""
        self.poke(st, '_ptr', fresh('op.ptr', 64))
        if self.kind == 'comp':
            st.x['size'] = fresh('op.size', 64)
            self.poke(st, '_size', st.x['size'])
            self.pokefn(st, '_block_available_callback', 'bac')
            self.poke(st, '_offset_sync_epoch_multiple_log2', self.L)

    def count_down(self, m, st, p):
        if not self.isf(m, st, p, '_threads_ready'): raise Unsupported('another latch')
        if st.x['lock']: self.bad(m, st, 'counts down with the mutex')
        if st.x['ready']: self.bad(m, st, 'counts down twice')
        st.x['ready'] = 1
        return 0

    def section_worker(self, m, st, waiting=False):
        x = st.x
        q = x['q']
        if not q and '_quit' in x['reads']:
            t = st.truth(x['q0']) if type(x['q0']) is T else x['q0']
            if t is None: raise NeedFork(x['q0'])
            if t: q = 1
            elif x['phase'] == 'arrived' and not waiting: x['nq'] = 1
        if waiting: return
        if x['phase'] == 'arrived' and not q and x['err'] is None and x['nq']: x['err'] = x['err0']
        if '_trigger' in x['reads']:
            if not q:
                if x['phase'] not in ('init', 'idle'): self.bad(m, st, 'looks for a new operation before it finished the last one')
                m.prove(st, bnot(eq(x['t0'], x['trig'], 32)), 'thread', 'an operation is started once')
            if not x['ready']: self.bad(m, st, 'an operation starts before the thread is ready')
            x.update(phase='work', trig=x['t0'], bar=0, nextmin=0, off=None, end=0, fin=0, failed=0, mustfail=0, nq=0, err=None, reset=frozenset())
            self.params(m, st)
        elif x['phase'] == 'work':
            if '_finalizing' in x['reads'] and self.isbit(m, st, x['f0'], 1):
                if self.kind == 'comp': x['fin'] = 1
                elif '_queue' in x['reads'] and not x.get('popped') and self.isbit(m, st, x['qe'], 1): x['fin'] = 1
            if x.get('popped'): x['fin'] = 0
        x['q'] = q

    def wait(self, m, st, cv):
        x = st.x
        if not x['lock']: self.bad(m, st, 'waits without the mutex')
        f = self.field(sub(cv, self.S.base, 64))
        if f is None: raise Unsupported('another condition variable')
        if self.mode != 'worker': raise Unsupported('waits in ' + self.mode)
        if x['wr'] or x.get('popped'): raise Unsupported('waits after changing the shared state')
        r = x['reads']
        self.section_worker(m, st, True)
        m.prove(st, eq(x['q0'], 0, 1), 'thread', 'nobody waits when the stream quits')
        if '_quit' not in r: self.bad(m, st, 'waits without looking at the quit flag')
        if '_trigger' in r:
            m.prove(st, eq(x['t0'], x['trig'], 32), 'thread', 'nobody waits when a new operation is there')
            if x['phase'] not in ('init', 'idle'): self.bad(m, st, 'waits for a new operation before it finished the last one')
        elif x['phase'] == 'work':
            m.prove(st, eq(x['f0'], 0, 1), 'thread', 'nobody waits for more work when the operation is being finalized')
            if self.kind == 'decomp': m.prove(st, eq(x['qe'], 1, 1), 'thread', 'nobody waits when blocks are there')
            else: self.settled(m, st)
            if self.kind == 'comp' and not x['end']: self.bad(m, st, 'waits before all blocks are taken')
        else: self.bad(m, st, 'waits outside an operation')
        if x['hand']: self.bad(m, st, 'waits with a block that is not handled')
        self.sites.setdefault(f, set()).add(r)
        self.havoc(m, st)
        return 0

    def leads(self, m, st):
        x = st.x
        if not (self.leader and x['phase'] == 'arrived'): return False
        return bool(x['nq']) or bool(x['lock']) and self.isbit(m, st, x['q0'], 0)

    def write_worker(self, m, st, f, d, n, v):
        x = st.x
        if f in ('_trigger', '_quit'): self.bad(m, st, 'a worker changes %s' % f)
        if f == '_error':
            if x['failed'] and self.isbit(m, st, v, 1):
                x['mustfail'] = 0
                return
            b = v & 1 if type(v) is int else trunc(v, 1)
            if m.valid(st, eq(b, trunc(self.peek(st, '_error'), 1) if type(self.peek(st, '_error')) is T else self.peek(st, '_error'), 1)) and not self.leads(m, st): return
            if not self.leads(m, st): self.bad(m, st, 'the error flag changes although no block failed')
            if not self.isbit(m, st, v, 0): self.bad(m, st, 'the error flag is not reset')
        elif f == '_finalizing':
            if not self.leads(m, st): self.bad(m, st, 'only thread 0 resets %s, after the final barrier, if the stream does not quit' % f)
            if not self.isbit(m, st, v, 0): self.bad(m, st, 'a worker sets _finalizing')
        elif f == '_finalize_callback' or f in PARAMS:
            if not self.leads(m, st): self.bad(m, st, 'only thread 0 resets %s, after the final barrier, if the stream does not quit' % f)
            if f == '_offset_sync_epoch_multiple_log2': self.bad(m, st, 'a worker changes the epochs', 'frame')
        else: self.bad(m, st, 'a worker writes %s' % f, 'frame')
        x['reset'] = x['reset'] | {f}

    def write_offset(self, m, st, v):
        x = st.x
        if self.mode == 'worker':
            if v == 0:
                if not self.leads(m, st): self.bad(m, st, 'only thread 0 resets the offset, after the final barrier, if the stream does not quit')
                x['reset'] = x['reset'] | {'_current_offset'}
                return
            if not x['failed']: self.bad(m, st, 'new work is stopped although no block failed')
            if x['phase'] != 'work': self.bad(m, st, 'new work is stopped outside the operation')
        elif self.mode == 'finalize':
            if not self.cancel: self.bad(m, st, 'new work is stopped although the operation is not cancelled')
            if '_finalizing' in x['log']: self.bad(m, st, 'new work is stopped after the workers may have finished')
        elif self.mode != 'dtor': self.bad(m, st, 'the offset changes')
        if type(v) is not int or v % self.BS: self.bad(m, st, 'offsets are multiples of the block size')
        if v < BIG or v > BIG + (1 << 62): self.bad(m, st, 'the offset that stops new work is beyond every input')

    def fetch(self, m, st, n):
        x = st.x
        if self.mode != 'worker' or x['phase'] != 'work': self.bad(m, st, 'takes a block outside an operation')
        if n != self.BS: self.bad(m, st, 'blocks are taken one by one')
        self.settled(m, st)
        k = self.BS.bit_length() - 1
        off = cat(((64 - k, fresh('block', 64 - k)), (k, 0)))
        st.assume(ule(x['nextmin'], off, 64))
        st.assume(ule(off, BIG + (1 << 62), 64))
        x['off'] = off; x['nextmin'] = add(off, self.BS, 64)
        x['hand'] = 0
        return off

    def last_valid(self, st):
        k = self.BS.bit_length() - 1
        s = st.x['size']
        return cat(((64 - k, ext(s, 63, k)), (k, 0)))

    def settled(self, m, st):
        """the offset taken last needs nothing more"""
        x = st.x
        if x['hand']: self.bad(m, st, 'a block is not emitted')
        if x['off'] is None: return
        m.prove(st, ule(self.last_valid(st), x['off'], 64), 'thread', 'every block taken is handled')
        x['off'] = None; x['end'] = 1

    # blocks
    def content(self, m, st, p):
        r, o = m.resolve(st, p)
        return tuple(m.load_at(st, r, o + k, 8) for k in range(0, self.bsize, 8))

    def blockvals(self, name): return tuple(fresh('%s+%d' % (name, k), 64) for k in range(0, self.bsize, 8))

    def queue(self, m, st, a, ins):
        name = ins.a[0].name
        x = st.x
        rest = re.sub(r'.*St5dequeIS\d?_SaIS\d?_EEE', '', name)
        mine = self.isf(m, st, a[0], '_queue') if type(a[0]) is T else False
        if self.mode == 'ctor': return 0
        if not mine:
            r, o = m.resolve(st, a[0])
            if re.match(r'C[12]|D[12]', rest): return 0
            raise Unsupported('another queue')
        if re.match(r'D[12]E', rest) and self.mode == 'dtor': return 0
        if not x['lock']: self.bad(m, st, '_queue is accessed without the mutex', 'race')
        if rest.startswith('5empty'):
            x['reads'] = x['reads'] | {'_queue'}
            return x['qe']
        if rest.startswith('4size'): raise Unsupported('size of the queue')
        if rest.startswith('5front') or rest.startswith('3pop'):
            if self.mode != 'worker': self.bad(m, st, 'takes a block from the queue')
            m.prove(st, eq(x['qe'], 0, 1), 'thread', 'blocks are taken only when there are some')
            if x['phase'] != 'work': self.bad(m, st, 'takes a block outside an operation')
            if x['hand'] or x.get('popped'): raise Unsupported('takes several blocks')
            if x.get('front') is None:
                x['blk'] = self.blockvals('block')
                x['front'] = 1
                if region(st, 'front'): 
                    r = region(st, 'front')
                else: r = m.new_region(st, 'front', self.bsize, 'cells', 16)
                c = m.contents(st, r, True).c
                c.clear()
                for k, v in enumerate(x['blk']): c[8 * k] = (8, v)
            if rest.startswith('5front'): return region(st, 'front').base
            x['popped'] = 1; x['hand'] = 1
            x['qe'] = fresh('empty', 1)
            return 0
        if rest.startswith('4push') or rest.startswith('7emplace'):
            if self.mode != 'push': self.bad(m, st, 'adds a block to the queue')
            x['pushed'] = x['pushed'] + (self.content(m, st, a[1]),)
            x['wr'] = x['wr'] | {'_queue'}
            x['qe'] = 0
            return 0
        if rest.startswith('aS') or rest.startswith('4swap'):
            if rest.startswith('aS') and type(a[1]) is T and self.field(sub(a[1], self.S.base, 64)): raise Unsupported('assigns a queue of the stream')
            if self.mode == 'worker' and not x['failed']: self.bad(m, st, 'blocks are dropped although none failed')
            if self.mode == 'finalize' and not self.cancel: self.bad(m, st, 'blocks are dropped although the operation is not cancelled')
            if self.mode not in ('worker', 'finalize', 'dtor'): self.bad(m, st, 'blocks are dropped')
            x['qe'] = 1
            return a[0]
        raise Unsupported('queue operation %s' % name)

    def free(self, m, st, a, ins):
        if type(a[0]) is T and a[0].op == 'var' and a[0].a[0].startswith(('block+', 'result+')):
            if st.x['hand'] and self.kind == 'decomp' : self.bad(m, st, 'a block is released before it is handled')
            return 0
        return BUILTIN['free'](m, st, a, ins)

    def handle(self, m, st, a, ins):
        x = st.x
        if self.mode != 'worker': raise Unsupported('handles a block in ' + self.mode)
        if x['lock']: self.bad(m, st, 'a block is handled with the mutex')
        if self.kind == 'decomp':
            this, blk = a[0], a[1]
            if not x['hand'] or x['phase'] != 'work': self.bad(m, st, 'handles a block that was not taken, or a second time')
            for u, v in zip(self.content(m, st, blk), x['blk']): m.prove(st, eq(u, v, 64), 'thread', 'the block taken is the block handled')
            t = self.choose(m, st, 'fails')
            x['hand'] = 0; x['blk'] = None
            if t: x['failed'] = 1; x['mustfail'] = 1
            return 1 - t
        res, this, off = a[0], a[1], a[2]
        if x['phase'] != 'work' or x['off'] is None: self.bad(m, st, 'handles a block that was not taken, or a second time')
        m.prove(st, eq(off, x['off'], 64), 'thread', 'the block taken is the block handled')
        m.prove(st, ult(off, self.last_valid(st), 64), 'thread', 'only whole blocks of the input are handled')
        t = self.choose(m, st, 'fails')
        vals = (M64 if t else off,) + self.blockvals('result')[1:]
        r, o = m.resolve(st, res)
        for k, v in enumerate(vals): m.store_at(st, r, o + 8 * k, 8, v)
        x['blk'] = vals; x['hand'] = 1; x['off'] = None; x['eoff'] = off
        if t: x['failed'] = 1; x['mustfail'] = 1
        return 0

    def logger(self, m, st, a, ins):
        if self.mode != 'ctor' and st.x['lock']: self.bad(m, st, 'the error logger is called with the mutex')
        r = region(st, 'ostream') or m.new_region(st, 'ostream', 512, 'cells', 16)
        return r.base

    def indirect(self, m, st, a, ins):
        fp = a[0]
        if self.mode == 'dtor' and len(st.x['joined']) == self.nthreads and len(a) == 4 and a[3] == 3: return 0     # function objects of the stream are destroyed
        if type(fp) is T and fp.op == 'var':
            n = fp.a[0]
            if n.endswith('.manager'):
                op = a[3] if len(a) > 3 else None
                if op == 2: m.memcpy(st, a[1], a[2], 16)
                elif op != 3: raise Unsupported('function manager')
                return 0
            if n == 'fcb.invoker': return self.callback(m, st, a)
            if n == 'bac.invoker': return self.emission(m, st, a)
        raise Unsupported('indirect call')

    def callback(self, m, st, a):
        x = st.x
        if self.mode != 'worker': self.bad(m, st, 'the completion callback is called')
        if x['lock']: self.bad(m, st, 'the completion callback is called with the mutex')
        if not self.leader: self.bad(m, st, 'only thread 0 calls the completion callback')
        if x['phase'] != 'arrived': self.bad(m, st, 'the completion callback is called before the final barrier, or twice')
        if not x['nq'] or x['err'] is None: self.bad(m, st, 'the completion callback is called although the stream may quit')
        need = {'_error', '_finalizing'} | ({'_current_offset'} if self.kind == 'comp' else set())
        if not need <= x['reset']: self.bad(m, st, 'the completion callback is called before %s is reset' % ', '.join(sorted(need - x['reset'])))
        f = m.do_load(st, a[1], 8)
        m.prove(st, eq(f, var('fcb.f0', 64), 64), 'thread', 'the callback called is the one given')
        v = m.do_load(st, a[2], 1)
        v = v & 1 if type(v) is int else trunc(v, 1)
        m.prove(st, eq(v, bnot(x['err']) if type(x['err']) is T else 1 - x['err'], 1), 'thread', 'the callback is told whether an error happened')
        x['phase'] = 'idle'; x['err'] = None; x['nq'] = 0
        return 0

    def emission(self, m, st, a):
        x = st.x
        if x['lock']: self.bad(m, st, 'the block callback is called with the mutex')
        if self.mode != 'worker' or x['phase'] != 'work' or not x['hand']: self.bad(m, st, 'a block is emitted that was not handled, or a second time')
        for u, v in zip(self.content(m, st, a[2]), x['blk']): m.prove(st, eq(u, v, 64), 'thread', 'the block handled is the block emitted')
        if self.epochs and not x['q']: m.prove(st, eq(x['bar'], epoch(x['eoff'], self.L), 64), 'thread', 'a block is emitted after exactly the barriers of its epoch')
        x['hand'] = 0; x['blk'] = None; x['eoff'] = None
        return 0

    def arrive(self, m, st, p):
        x = st.x
        if not self.isf(m, st, p, '_finalize_barrier'): raise Unsupported('another barrier')
        if self.mode != 'worker': raise Unsupported('arrives in ' + self.mode)
        if x['lock']: self.bad(m, st, 'waits at the barrier with the mutex')
        if x['q']: return 0         # interrupted: no order any more, and nothing is reset
        if x['phase'] != 'work': self.bad(m, st, 'arrives at the final barrier twice')
        if self.kind == 'comp' and self.epochs:
            top = epoch(x['size'], self.L)
            if x['off'] is not None:
                t = ult(x['bar'], ite(ult(x['off'], x['size'], 64), epoch(x['off'], self.L), top, 64), 64)
                if m.valid(st, t):
                    x['bar'] = add(x['bar'], 1, 64)
                    return 0
            self.settled(m, st)
            m.prove(st, eq(x['bar'], top, 64), 'thread', 'every thread arrives the same number of times: once per epoch and once at the end')
        if self.kind == 'comp':
            self.settled(m, st)
            if not x['end']: self.bad(m, st, 'arrives at the final barrier before all blocks are taken')
        if x['hand']: self.bad(m, st, 'arrives at the final barrier with a block that is not handled')
        if x['mustfail']: self.bad(m, st, 'arrives at the final barrier without reporting the block that failed')
        if not x['fin']: self.bad(m, st, 'arrives at the final barrier before the operation is finalized and no block is left')
        self.arrived(x)
        return 0

    def arrived(self, x):
        x.update(phase='arrived' if self.leader else 'idle', off=None, blk=None, eoff=None, nextmin=0, bar=0, nq=0, err=None, hand=0, failed=0, mustfail=0, fin=0, end=0)

    # -------------------------------------------------------- start, push, finalize, destructor, constructor
    def end(self, m, st, f, args, check):
        m.cut = None
        m.push(st, self.mod.func(f), args)
        n = [0]
        def end(o):
            n[0] += 1
            try:
                if o.kind != 'ret': self.bad(m, o.st, 'ends with %s' % o.kind)
                if o.st.x['lock']: self.bad(m, o.st, 'returns with the mutex')
                check(o.st, o.val)
            except Fail as e: m.on_fail(e)
            except Halt: pass
        m.explore(st, end)
        if not n[0] and not self.fails: raise Unsupported('no path to the end')
        return self.done(m)

    def funcarg(self, m, st, name):
        r = m.new_region(st, name, 32, 'cells', 16)
        for k, s in enumerate(('f0', 'f1', 'manager', 'invoker')): st.mem[name].c[8 * k] = (8, var('%s.%s' % (name, s), 64))
        return r.base

    def isfn(self, m, st, f, name, what):
        for k, s in enumerate(('f0', 'f1', 'manager', 'invoker')):
            if s == 'f1': continue      # small function objects may use one word
            m.prove(st, eq(self.peek(st, f, 8 * k, 8), var('%s.%s' % (name, s), 64), 64), 'thread', what)

    def start(self):
        self.mode = 'start'; self.case = '%s, start' % self.kind
        m = self.machine()
        st = self.setup(m, log=frozenset())
        args = [self.S.base, var('arg.ptr', 64)]
        if self.kind == 'comp':
            args += [var('arg.size', 64), self.funcarg(m, st, 'arg')]
            for f in ('_size', '_block_available_callback'): self.drop(st, f)
            # the stream is idle: the callback of the last operation was reset
            for k in range(4): self.poke(st, '_block_available_callback', 0, 8, 8 * k)
        def check(s, v):
            if '_trigger' not in s.x['log']: self.bad(m, s, 'no operation is triggered')
            self.woken(m, s, '_trigger')
        return self.end(m, st, 'verif_start', args, check)
    def write_start(self, m, st, f, d, n, v):
        x = st.x
        if f == '_trigger': return
        if f in PARAMS and f != '_offset_sync_epoch_multiple_log2':
            if '_trigger' in x['log']: self.bad(m, st, '%s is set after the operation was triggered' % f, 'race')
            return
        self.bad(m, st, 'start changes %s' % f, 'frame')
    def section_start(self, m, st):
        x = st.x
        if '_trigger' in x['wr']:
            m.prove(st, bnot(eq(self.peek(st, '_trigger'), x['t0'], 32)), 'thread', 'the trigger changes')
            if '_trigger' in x['log']: self.bad(m, st, 'two operations are triggered')
            m.prove(st, eq(self.peek(st, '_ptr'), var('arg.ptr', 64), 64), 'thread', 'the operation has the pointer given')
            if self.kind == 'comp':
                m.prove(st, eq(self.peek(st, '_size'), var('arg.size', 64), 64), 'thread', 'the operation has the size given')
                self.isfn(m, st, '_block_available_callback', 'arg', 'the operation has the callback given')
        x['log'] = x['log'] | x['wr']

    def ready(self):
        self.mode = 'ready'; self.case = '%s, wait_until_ready' % self.kind
        m = self.machine()
        st = self.setup(m, log=frozenset(), hand=0, waited=0)
        def check(s, v):
            if not s.x['waited']: self.bad(m, s, 'does not wait for the threads')
        return self.end(m, st, 'verif_ready', [self.S.base], check)
    def latch_wait(self, m, st, p):
        if not self.isf(m, st, p, '_threads_ready') or self.mode != 'ready': raise Unsupported('waits for a latch in ' + self.mode)
        if st.x['lock']: self.bad(m, st, 'waits with the mutex')
        st.x['waited'] = 1
        return 0
    def section_ready(self, m, st): pass
    def write_ready(self, m, st, f, d, n, v): self.bad(m, st, 'wait_until_ready changes %s' % f, 'frame')

    def pushblock(self):
        self.mode = 'push'; self.case = '%s, push_block' % self.kind
        m = self.machine()
        st = self.setup(m, log=frozenset(), pushed=(), res=None, failed=0, hand=0)
        vals = self.blockvals('block')
        r = m.new_region(st, 'block', self.bsize, 'cells', 16)
        for k, v in enumerate(vals): st.mem['block'].c[8 * k] = (8, v)
        def check(s, v):
            x = s.x
            if x.get('res') is None: self.bad(m, s, 'the error flag is not looked at')
            if len(x['pushed']) > 1: self.bad(m, s, 'the block is added twice')
            v = v if type(v) is int else trunc(v, 1) if v.w > 1 else v
            ok = len(x['pushed'])
            m.prove(s, eq(v, ok, 1), 'thread', 'push_block tells whether the block was added')
            m.prove(s, eq(x['res'], 1 - ok, 1), 'thread', 'the block is added unless an error happened')
            if ok:
                for u, w in zip(x['pushed'][0], vals): m.prove(s, eq(u, w, 64), 'thread', 'the block added is the block given')
                self.woken(m, s, '_queue')
        return self.end(m, st, 'verif_push', [self.S.base, r.base], check)
    def write_push(self, m, st, f, d, n, v): self.bad(m, st, 'push_block changes %s' % f, 'frame')
    def section_push(self, m, st):
        x = st.x
        if '_error' in x['reads'] or x['pushed']: x['res'] = x['err0']
        x['log'] = x['log'] | x['wr']

    def finalize(self, cancel):
        self.mode = 'finalize'; self.case = '%s, finalize%s' % (self.kind, ', cancelled' if cancel else '')
        self.cancel = cancel
        m = self.machine()
        st = self.setup(m, log=frozenset(), failed=0, hand=0)
        a = self.funcarg(m, st, 'arg')
        def check(s, v):
            if '_finalizing' not in s.x['log']: self.bad(m, s, 'the operation is not finalized')
            self.woken(m, s, '_finalizing')
        return self.end(m, st, 'verif_finalize', [self.S.base, cancel, a], check)
    def write_finalize(self, m, st, f, d, n, v):
        if f not in ('_finalizing', '_finalize_callback'): self.bad(m, st, 'finalize changes %s' % f, 'frame')
        if '_finalizing' in st.x['log']: self.bad(m, st, 'finalize changes %s after the workers may have finished' % f)
    def section_finalize(self, m, st):
        x = st.x
        if '_finalizing' in x['wr']:
            v = self.peek(st, '_finalizing')
            m.prove(st, eq(v if type(v) is int else trunc(v, 1), 1, 1), 'thread', 'finalize sets the flag')
            self.isfn(m, st, '_finalize_callback', 'arg', 'the callback stored is the one given')
        x['log'] = x['log'] | x['wr']

    def dtor(self, n):
        self.nthreads = n
        self.mode = 'dtor'; self.case = '%s, destructor with %d threads' % (self.kind, n)
        m = self.machine()
        st = self.setup(m, quit=0, qlock=0, intr=0, joined=frozenset(), hand=0, log=frozenset())
        r = m.new_region(st, 'threads', 8 * n + 8, 'cells', 16)
        for k, v in ((0, 0), (8, 8 * n), (16, 8 * n)): self.poke(st, '_threads', add(r.base, v, 64), 8, k)
        for f in ('_error_logger', '_debug_logger', '_block_available_callback'):
            if f in self.F: self.pokefn(st, f, 'log')
        self.pokefn(st, '_finalize_callback', 'fcb')
        def check(s, v):
            x = s.x
            if not x['quit']: self.bad(m, s, 'the quit flag is not set')
            if not x['intr']: self.bad(m, s, 'the barrier is not interrupted')
            if len(x['joined']) != n: self.bad(m, s, 'a thread is not joined')
            self.woken(m, s, '_quit')
        return self.end(m, st, 'verif_dtor', [self.S.base], check)
    def write_dtor(self, m, st, f, d, n, v):
        if f in ('_finalize_callback', '_block_available_callback', '_threads'): return      # destroyed
        if len(st.x['joined']) == 0: self.bad(m, st, 'the destructor changes %s' % f, 'frame')
    def section_dtor(self, m, st):
        x = st.x
        if x['intr'] and not x['quit']: self.bad(m, st, 'the barrier is interrupted before the quit flag is set: waiting threads go on as if all had arrived')
        if x['quit'] and not x['qlock']: self.bad(m, st, 'the quit flag is set without the mutex: a thread may miss it and wait for ever')
    def interrupt(self, m, st, p):
        x = st.x
        if not self.isf(m, st, p, '_finalize_barrier') or self.mode != 'dtor': raise Unsupported('interrupts in ' + self.mode)
        if not (x['quit'] or x['lock']): self.bad(m, st, 'the barrier is interrupted before the quit flag is set: waiting threads go on as if all had arrived')
        x['intr'] = 1
        return 0
    def join(self, m, st, a, ins):
        x = st.x
        if self.mode != 'dtor': raise Unsupported('joins in ' + self.mode)
        if x['lock']: self.bad(m, st, 'joins with the mutex')
        if not (x['quit'] and x['intr']): self.bad(m, st, 'joins before the threads are told to quit and the barrier is interrupted')
        r, o = m.resolve(st, a[0])
        if r.name != 'threads' or o in x['joined']: self.bad(m, st, 'joins a thread twice')
        self.woken(m, st, '_quit')
        x['joined'] = x['joined'] | {o}
        return 0

    def ctor(self, n):
        self.nthreads = n
        self.mode = 'ctor'; self.case = '%s, constructor with %d threads' % (self.kind, n)
        m = self.machine()
        st = self.setup(m, spawned=(), log=frozenset(), hand=0)
        impl = m.new_region(st, 'impl', 64, 'cells', 16, readonly=True)
        st.mem['impl'].init = lambda mm, s, r, off, k: var('impl+%d' % off, 8)
        st.assume(bnot(eq(Machine.load_at(m, st, impl, self.align, 8), 0, 64)))
        def check(s, v):
            x = s.x
            if len(x['spawned']) != n: self.bad(m, s, '%d threads are started' % len(x['spawned']))
            if sorted(x['spawned']) != list(range(n)): self.bad(m, s, 'threads get the numbers %s' % (x['spawned'],))
            self.ctor_state(m, s, n)
        a = self.funcarg(m, st, 'arg'); b = self.funcarg(m, st, 'log')
        # a refused alignment ends with an exception
        m.cut = None
        m.push(st, self.mod.func('verif_ctor'), [self.S.base, impl.base, n, a, b])
        k = [0]
        def end(o):
            try:
                if o.kind == 'throw':
                    if o.st.x['spawned']: self.bad(m, o.st, 'throws with threads running')
                    return
                if o.kind != 'ret': self.bad(m, o.st, 'ends with %s' % o.kind)
                k[0] += 1
                check(o.st, o.val)
            except Fail as e: m.on_fail(e)
            except Halt: pass
        m.explore(st, end)
        if not k[0] and not self.fails: raise Unsupported('no path to the end')
        return self.done(m)
    def ctor_state(self, m, s, n):
        P = lambda f, v, d=0, k=None: m.prove(s, eq(self.peek(s, f, d, k), v, 8 * (k or self.F[f][1])), 'thread', 'initial value of %s' % f)
        P('_trigger', 0); P('_error', 0); P('_finalizing', 0); P('_quit', 0)
        if self.kind == 'comp':
            P('_current_offset', 0); P('_offset_sync_epoch_multiple_log2', 0xffffffff)
        P('_threads_ready', n, self.Lt['_value'], 8)
        P('_finalize_barrier', n, self.B['_num_threads'], 8); P('_finalize_barrier', 0, self.B['_count'], 8); P('_finalize_barrier', 0, self.B['_interrupted'], 1)
    def spawn(self, m, st, a, ins):
        if self.mode != 'ctor': raise Unsupported('starts a thread in ' + self.mode)
        # the state the thread starts from is complete
        if not st.x['spawned']: self.ctor_state(m, st, self.nthreads)
        ids = [v for v in a[1:]]
        v = m.do_load(st, a[3], 8)
        if type(v) is not int: raise Unsupported('number of a thread')
        t = m.do_load(st, a[2], 8)
        m.prove(st, eq(t, self.S.base, 64), 'thread', 'the thread works for this stream')
        st.x['spawned'] = st.x['spawned'] + (v,)
        return 0

    def epoch(self, k):
        self.mode = 'ctor'; self.case = '%s, set_offset_sync_epoch_multiple(2^%s)' % (self.kind, k)
        m = self.machine()
        st = self.setup(m, log=frozenset(), hand=0)
        def check(s, v):
            m.prove(s, eq(self.peek(s, '_offset_sync_epoch_multiple_log2'), 0xffffffff if k is None else k, 32), 'thread', 'epochs have the size given')
        return self.end(m, st, 'verif_epoch', [self.S.base, 0 if k is None else 1 << k], check)


class Monitor:
    """barrier and latch: sequential contracts of their methods, with the state
    arbitrary (within the invariant) whenever the mutex is taken or a wait returns

    barrier  invariant  0 <= count < num_threads until interrupted
             arrive     count + 1 == num_threads: count = 0, generation + 1, all woken;
                        otherwise count + 1, and waits exactly while the generation is
                        the one at arrival and the barrier is not interrupted
             interrupt  sets the flag, wakes all, changes nothing else
    latch    count_down value - 1, all woken when it reaches 0
             wait       waits exactly while the value is not 0"""
    def __init__(self, s, what):
        self.s = s; self.what = what; self.fails = []; self.case = what
        lay = s.Lt if what.startswith('latch') else s.B
        self.lay = lay
        self.wd = {'_num_threads': 8, '_count': 8, '_generation': 4, '_interrupted': 1, '_value': 8}
        self.sz = {f: self.wd[f] for f in lay if f in self.wd}
        self.pairs = [(('x', a), ('mem', 'stream', lay[f], self.wd[f])) for a, f in (('c0', '_count'), ('g0', '_generation'), ('i0', '_interrupted'), ('c0', '_value'), ('N', '_num_threads')) if f in lay]

    def bad(self, m, st, msg, kind='thread'): raise_(m, st, kind, self.what + ': ' + msg)
    def access(self, m, st, off, n, w):
        for f, k in self.sz.items():
            if self.lay[f] <= off < self.lay[f] + k:
                if not st.x['lock'] and f != '_num_threads': self.bad(m, st, '%s is accessed without the mutex' % f, 'race')
                if w is not None and f == '_num_threads': self.bad(m, st, 'the number of threads changes', 'frame')
                return
        if w is not None: raise Unsupported('a field without a contract changes')

    def put(self, m, st, f, v): m.contents(st, self.R, True).c[self.lay[f]] = (self.wd[f], v)
    def get(self, m, st, f): return Machine.load_at(m, st, self.R, self.lay[f], self.wd[f])
    def field(self, p):
        o = sub(p, self.R.base, 64)
        for f in ('_mutex', '_cv'):
            if o == self.lay[f]: return f

    def havoc(self, m, st):
        x = st.x
        x['notif'] = 0
        if self.what.startswith('latch'):
            x['c0'] = fresh('value', 64)
            if self.what == 'latch count_down': st.assume(ult(0, x['c0'], 64)); st.assume(ult(x['c0'], 1 << 32, 64))
            self.put(m, st, '_value', x['c0'])
            return
        x['c0'] = fresh('count', 64); x['i0'] = fresh('interrupted', 1)
        st.assume(mk_or(ult(x['c0'], x['N'], 64), x['i0']))
        x['g0'] = fresh('generation', 32)
        if x['my'] is not None: st.assume(mk_or(eq(x['g0'], x['my'], 32), eq(x['g0'], add(x['my'], 1, 32), 32)))
        self.put(m, st, '_count', x['c0']); self.put(m, st, '_generation', x['g0']); self.put(m, st, '_interrupted', zext(x['i0'], 1, 8))

    def lock(self, m, st, a, ins):
        x = st.x
        if self.field(a[0]) != '_mutex': raise Unsupported('another mutex')
        if x['lock'] or x['my'] is not None or x['did']: raise Unsupported('locks twice')
        x['lock'] = 1
        self.havoc(m, st)
        return 0
    def section(self, m, st, waits):
        """what the section of the code did to the state"""
        x = st.x
        if self.what.startswith('latch'):
            v = self.get(m, st, '_value')
            if self.what == 'latch count_down':
                if waits: self.bad(m, st, 'waits')
                m.prove(st, eq(v, sub(x['c0'], 1, 64), 64), 'thread', self.what + ': the value goes down by one')
                x['did'] = 1
                x['zero'] = eq(v, 0, 64)
            else:
                m.prove(st, eq(v, x['c0'], 64), 'thread', self.what + ': the value does not change')
                if waits: m.prove(st, bnot(eq(v, 0, 64)), 'thread', self.what + ': nobody waits once the value is 0')
                else: m.prove(st, eq(v, 0, 64), 'thread', self.what + ': waits until the value is 0')
            return
        c, g, i = (self.get(m, st, f) for f in ('_count', '_generation', '_interrupted'))
        P = lambda t, msg: m.prove(st, t, 'thread', self.what + ': ' + msg)
        if self.what == 'barrier interrupt':
            if waits: self.bad(m, st, 'waits')
            P(eq(i, 1, 8), 'the flag is set'); P(eq(c, x['c0'], 64), 'the count does not change'); P(eq(g, x['g0'], 32), 'the generation does not change')
            x['did'] = 1; x['zero'] = 1
            return
        P(eq(i, zext(x['i0'], 1, 8), 8), 'the flag does not change')
        if x['my'] is None:
            last = eq(add(x['c0'], 1, 64), x['N'], 64)
            off = x['i0']
            t = st.truth(last)
            if t is None: raise NeedFork(last)
            if t:
                P(mk_or(off, eq(c, 0, 64)), 'the count starts again with the last thread')
                P(mk_or(off, eq(g, add(x['g0'], 1, 32), 32)), 'the last thread starts the next generation')
                if waits: P(off, 'the last thread does not wait')
                x['zero'] = bnot(off)
            else:
                P(mk_or(off, eq(c, add(x['c0'], 1, 64), 64)), 'the thread is counted')
                P(mk_or(off, eq(g, x['g0'], 32)), 'the generation does not change before the last thread arrives')
                if not waits: P(off, 'the thread waits for the others')
            x['my'] = x['g0']
        else:
            P(eq(c, x['c0'], 64), 'nothing changes after the wait'); P(eq(g, x['g0'], 32), 'nothing changes after the wait')
            if not waits: P(mk_or(bnot(eq(x['g0'], x['my'], 32)), x['i0']), 'waits until all threads arrived or the barrier is interrupted')
        if waits: P(mk_and(eq(x['g0'], x['my'], 32), bnot(x['i0'])), 'nobody waits once all threads arrived or the barrier is interrupted')
    def unlock(self, m, st, a, ins):
        x = st.x
        if not x['lock']: self.bad(m, st, 'unlocks a mutex it does not hold')
        self.section(m, st, False)
        x['lock'] = 0
        return 0
    def wait(self, m, st, a, ins):
        x = st.x
        if not x['lock'] or self.field(a[0]) != '_cv': raise Unsupported('waits without the mutex')
        self.section(m, st, True)
        self.havoc(m, st)
        return 0
    def notify(self, m, st, a, ins):
        if self.field(a[0]) != '_cv': raise Unsupported('another condition variable')
        st.x['notif'] = 1
        return 0

    def run(self):
        m = TM([self.s.mod])
        m.spec = self
        m.on_fail = lambda e: self.fails.append((e.kind, e.msg, self.case, e.model is not None))
        P = lambda rx, f: m.hpat.append((re.compile(rx), f))
        P(r'_ZNSt5mutex4lockEv|pthread_mutex_lock', self.lock)
        P(r'_ZNSt5mutex6unlockEv|pthread_mutex_unlock', self.unlock)
        P(r'_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE', self.wait)
        P(r'_ZNSt18condition_variable10notify_allEv', self.notify)
        P(r'_ZNSt18condition_variable10notify_oneEv', lambda mm, st, a, ins: 0)     # wakes one thread only
        st = State()
        self.R = m.new_region(st, 'stream', 256, 'cells', 16)
        st.mem['stream'].init = lambda mm, s, r, off, n: var('mon+%d' % off, 8)
        N = var('threads', 64)
        st.assume(ult(0, N, 64)); st.assume(ult(N, 1 << 32, 64))
        st.x.update(lock=0, did=0, zero=0, notif=0, my=None, N=N)
        if not self.what.startswith('latch'): self.put(m, st, '_num_threads', N)
        m.push(st, self.s.mod.func({'barrier arrive': 'verif_arrive', 'barrier interrupt': 'verif_interrupt', 'latch count_down': 'verif_latch_down', 'latch wait': 'verif_latch_wait'}[self.what]), [self.R.base])
        ex, ends = Loops(m).explore(st)
        for o in ends:
            try:
                if o.kind != 'ret': self.bad(m, o.st, 'ends with %s' % o.kind)
                x = o.st.x
                if x['lock']: self.bad(m, o.st, 'returns with the mutex')
                if self.what in ('latch count_down', 'barrier interrupt') and not x['did']: self.bad(m, o.st, 'nothing happens')
                if self.what == 'barrier arrive' and x['my'] is None: self.bad(m, o.st, 'nothing happens')
                if self.what == 'latch wait' and x['notif'] is None: self.bad(m, o.st, 'nothing happens')
                if not x['notif'] and not m.valid(o.st, eq(x['zero'], 0, 1)): self.bad(m, o.st, 'the waiting threads are not woken')
            except Fail as e: m.on_fail(e)
            except Halt: pass
        if not ends and not self.fails: raise Unsupported('no path to the end')
        return self.fails, m.stats, m.obl_kinds, {}
