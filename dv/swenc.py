"""Contract proof of the portable compressor (src/serial/842_compress.c).

Its dictionaries are hash tables of lists (uthash/utlist macros); the macros are
used through their documented meaning (dv/stub), over ghost state per table:
  present(i)  slot i is filed in the table, under key reg(i)
  invariant   present(i) implies reg(i) == node array element i and i holds data
              already consumed; every list in a table is non-empty
Nodes and list elements are materialised when the code obtains them.  Heap
ownership is tracked (table / local / released), so leaks, double frees and
frees of filed objects are obligations.  The draining loops at the end are
proved for an arbitrary node and element.
add_bits is used through its contract, proved in AddBits below: after B bits its
object satisfies templates over B; a call appends n bits iff they fit."""
import re
from exec import *
from term import *
import inv, solve, spec842 as S
from loop import region, raise_, T_, W, P
from encoder import Enc, ENOSPC, M32, bytes_be

ADD = re.compile(r'(_Z\w*\d)?add_bits([A-Z]\w*)?')

class WG:
    def __init__(self, B, cap, out): self.B = B; self.cap = cap; self.out = out
    @property
    def q(self): return lshrc(self.B, 3, 64)
    @property
    def b(self): return zext(trunc(self.B, 3), 3, 64)

WC = [
    T_('out+q', P(lambda g: add(g.out, g.q, 64))),
    T_('cap-q', W(lambda g: sub(g.cap, g.q, 64))),
    T_('b', W(lambda g: g.b)),
    T_('q', W(lambda g: g.q)),
    T_('B', W(lambda g: g.B)),
    T_('8cap-B', W(lambda g: sub(mulc(g.cap, 8, 64), g.B, 64))),
    T_('8-b', W(lambda g: sub(8, g.b, 64))),
]

# ------------------------------------------------------------ liveness
def uses(x, names, out):
    if type(x) is str:
        if x in names: out.add(x)
    elif type(x) in (tuple, list):
        for y in x: uses(y, names, out)
    elif type(x) is dict:
        for y in x.values(): uses(y, names, out)
    elif hasattr(x, 'a') and not isinstance(x, T): uses(x.a, names, out)

def liveness(f):
    """{label: [live-in set before instruction i]}"""
    names = {n for _, n in f.params}
    for b in f.blocks.values():
        for i in b:
            if i.d is not None: names.add(i.d)
    use = {}
    for l, b in f.blocks.items():
        us = []
        for i in b:
            s = set()
            if i.op != 'phi': uses(i.a, names, s)
            us.append(s)
        use[l] = us
    # values that only feed merges of themselves are not live
    good = set()
    for us in use.values():
        for u in us: good |= u
    ps = [i for b in f.blocks.values() for i in b if i.op == 'phi']
    ch = True
    while ch:
        ch = False
        for i in ps:
            if i.d in good:
                s = set(); uses(i.a, names, s)
                if not s <= good: good |= s; ch = True
    labels = set(f.blocks)
    succ = {}
    for l, b in f.blocks.items():
        s = set()
        uses(b[-1].a, labels, s)
        succ[l] = s
    phiuse = {}
    for l, b in f.blocks.items():
        for i in b:
            if i.op != 'phi': break
            for p, v in i.a.items():
                s = set()
                if i.d in good: uses(v, names, s)
                phiuse.setdefault((p, l), set()).update(s)
    inn = {l: set() for l in f.blocks}
    res = {}
    ch = True
    while ch:
        ch = False
        for l, b in f.blocks.items():
            live = set()
            for s in succ[l]:
                live |= inn[s] | phiuse.get((l, s), set())
            r = [None] * (len(b) + 1)
            r[len(b)] = set(live)
            for k in range(len(b) - 1, -1, -1):
                i = b[k]
                if i.op != 'phi':
                    if i.d is not None: live.discard(i.d)
                    live |= use[l][k]
                else: live.discard(i.d)
                r[k] = set(live)
            res[l] = r
            if r[0] != inn[l]: inn[l] = r[0]; ch = True
    return res

_lv = {}
def live_at(f, lbl, ip):
    r = _lv.get(id(f))
    if r is None: r = _lv[id(f)] = (liveness(f), f)
    return r[0][lbl][ip]

_refs = {}
def refs(t):
    """names of '&..' and 'amb!..' variables and 'present' arrays in t"""
    if type(t) is not T: return frozenset()
    r = _refs.get(t)
    if r is None:
        if t.op == 'var':
            n = t.a[0]
            r = frozenset([n]) if n.startswith(('&', 'amb!', 'full!')) else frozenset()
        else:
            s = set()
            for x in ([t.a[0]] if t.op == 'ext' else solve.kids(t)): s |= refs(x)
            if t.op == 'sel' and t.a[0].startswith('present_'): s.add('present_')
            r = frozenset(s)
        _refs[t] = r
    return r

_bv = {}
def bvars(t):
    if type(t) is not T: return frozenset()
    r = _bv.get(t)
    if r is None:
        if t.op == 'var': r = frozenset([t.a[0]] if t.a[0] == 'B' or t.a[0].startswith('B!') else [])
        else:
            s = set()
            for x in ([t.a[0]] if t.op == 'ext' else solve.kids(t)): s |= bvars(x)
            r = frozenset(s)
        _bv[t] = r
    return r

class Trace:
    """concrete tables of one trace"""
    def __init__(self):
        self.tab = {}; self.lst = {}; self.of = {}; self.own = set()

class Sw(Enc):
    short = True
    aligned = False
    lazy_failure = True
    seen = None
    width = 900

    def setup(self, m):
        for n in ('find', 'add', 'del', 'first', 'next'): m.handlers['__dv_hash_' + n] = getattr(self, 'h_' + n)
        for n in ('search', 'delete', 'count', 'append', 'prepend', 'first', 'next'): m.handlers['__dv_dl_' + n] = getattr(self, 'l_' + n)
        m.handlers['free'] = self.h_free
        m.hpat.append((ADD, self.h_add_bits))

    def mkstate(self, m, data=None):
        st = Enc.mkstate(self, m, data)
        if data is None:
            self.cap = zext(var('cap', 46), 46, 64)
            st.mem['olen'].c[0] = (8, self.cap)
            st.x['B'] = 0
            st.x['H'] = {'st': (), 'node': (), 'els': (), 'absent': (), 'log': (), 'it': (), 'nxt': (), 'pend': ()}
            st.x['root'] = -1; st.x['M'] = 0
        else:
            st.x['T'] = Trace()
            st.x['B'] = 0
        return st

    # ------------------------------------------------------------ learning
    def learn(self):
        self.meta = {}; self.wrows = {}; self.wn = 0; self.wcells = None; self.empty_ok = False
        Enc.learn(self)
        self.wcells_()
        self.node_arr = {}
        for key, role in self.roles_.items():
            if role and role[0] == 'fifo': self.node_arr.setdefault(role[1], key)
        for t, d in self.meta.items():
            for f in ('k', 'keyoff', 'nsize', 'headoff', 'esize', 'idxoff', 'idxsize'):
                if f not in d: raise Unsupported('table at %s+%d: %s never seen' % (t[0], t[1], f))
            if d['k'] not in self.node_arr: raise Unsupported('no array holds the keys of the table at %s+%d' % t)
        if len(self.node_arr) != 3 or len(self.meta) != 3: raise Unsupported('%d tables, %d key arrays' % (len(self.meta), len(self.node_arr)))
        return self.tmpl

    def wcells_(self):
        if self.wcells is not None: return
        self.wcells = {}
        for k, rows in self.wrows.items():
            if len(rows) < self.wn: continue
            if all(inv.same(rows[0][1], v) for _, v in rows): continue
            t = inv.match(k, 8 * k[2], rows, WC)
            if t is not None: self.wcells[k] = t
        if not self.wcells: raise Unsupported('no cell of the bit writer follows the number of bits')

    def snap_filter(self, st, d):
        tr = st.x.get('T')
        heads = {(t[0], t[1]) for t in self.meta}
        if tr is not None:
            self.wcells_()
            own = tr.own
        else: own = ()
        return {s: v for s, v in d.items() if s[0] != 'mem' or not (
            s[1] in own or s[1].startswith(('nd!', 'el!')) or (s[1:3] in heads) or (s[1], s[2], s[3]) in self.wcells)}

    # ------------------------------------------------------------ bit writer
    def wg(self, B): return WG(B, self.cap, self.rout.base)

    def h_add_bits(self, m, st, a, ins):
        if any(ADD.fullmatch(f.f.name) for f in st.frames): return NOHANDLE
        n = a[2]
        if st.x.get('trace'):
            r, off = m.resolve(st, a[0])
            if type(off) is not int or off: raise Unsupported('bit writer object')
            self.wobj = r
            g = self.wg(st.x['B'])
            if self.wcells is None:
                skip = [(o, o + e * c) for q, o, e, c in self.arrs(st) if q is r]
                for o, (w, v) in st.mem[r.name].c.items():
                    if any(x <= o < y for x, y in skip): continue
                    self.wrows.setdefault((r.name, o, w), []).append((g, v))
                self.wn += 1
            self.emit(m, st, n, trunc(a[1], n))
            st.x['B'] = st.x['B'] + n
            return NOHANDLE
        r, off = m.resolve(st, a[0])
        if r.name != self.wobj.name or off != 0: raise_(m, st, 'contract', 'add_bits on another object')
        if type(n) is T:
            k = st.known.get(n)
            if k is None: raise NeedConc(n, 8)
            n = k
        if not 1 <= n <= 64: raise_(m, st, 'contract', 'adds %d bits at once' % n)
        if n < 64: m.prove(st, ule(a[1], mask(n), 64), 'contract', 'value has only the bits written')
        B = st.x['B']; B2 = add(B, n, 64)
        room = ule(B2, mulc(self.cap, 8, 64), 64)
        if st.x.get('failed'):
            t = st.truth(room)
            if t is None: raise NeedFork(room)
        else:
            k = st.x.get('nw', 0)
            c = var('full!%d' % k, 1)
            t = st.truth(c)
            if t is None: raise NeedFork(c)
            t = not t
        self.check_writer(m, st, B, 'before add_bits')
        st.x['nw'] = st.x.get('nw', 0) + 1
        if t:
            if not st.x.get('failed'):
                if st.truth(room) is None: st.assume(room)
                self.emit(m, st, n, trunc(a[1], n))
            self.put_writer(m, st, B2)
            return 0
        first = not st.x.get('failed')
        if first:
            st.model = None
            if st.truth(room) == 1: raise Halt('infeasible')
            if st.truth(room) is None: st.assume(bnot(room))
        st.x['failed'] = 1
        st.x['emit'] = ()
        k = st.x.get('nf', 0); st.x['nf'] = k + 1
        B3 = zext(var('B!f%d' % k, 50), 50, 64)
        st.model = None
        st.assume(ule(B3, mulc(self.cap, 8, 64), 64))
        st.assume(ult(sub(mulc(self.cap, 8, 64), B3, 64), 37 if n <= 37 else 64, 64))
        self.put_writer(m, st, B3)
        return -ENOSPC & M32

    def weaken(self, m, st):
        """failed stream: what only describes the stream is forgotten"""
        for s, t in self.tmpl.items():
            if t is None and s[0] == 'mem' and s[1] in st.mem and type(st.mem[s[1]]) is Cells and s[1] == self.wobj.name:
                x = st.mem[s[1]].c.get(s[2])
                if x is not None and x[0] == s[3]:
                    m.contents(st, region(st, s[1]), True).c[s[2]] = (s[3], var('forgotten %s+%d' % (s[1], s[2]), 8 * s[3]))

    def put_writer(self, m, st, B):
        g = self.wg(B)
        c = m.contents(st, region(st, self.wobj.name), True).c
        for (rn, o, w), t in self.wcells.items(): c[o] = (w, t.fn(g, 8 * w))
        st.x['B'] = B

    def check_writer(self, m, st, B, when):
        g = self.wg(B)
        r = region(st, self.wobj.name)
        for (rn, o, w), t in self.wcells.items():
            m.prove(st, eq(m.load_at(st, r, o, w), t.fn(g, 8 * w), 8 * w), 'inv', 'bit writer field at +%d %s: %s' % (o, when, t.name))

    # ------------------------------------------------------------ tables, trace
    def table(self, m, st, p):
        r, off = m.resolve(st, p, 'table')
        if type(off) is not int: raise Unsupported('table address')
        return (r.name, off)

    def tr_find(self, m, st, a, tr, t):
        r, off = m.resolve(st, a[1])
        return tr.tab.setdefault(t, {}).get(m.load_at(st, r, off, a[2]), 0)

    def listhead(self, m, st, p):
        r, off = m.resolve(st, p, 'list')
        if type(off) is not int: raise Unsupported('list address')
        return r, off

    def tr_setlist(self, m, st, r, off, l):
        m.contents(st, r, True).c[off] = (8, l[0] if l else 0)

    # ------------------------------------------------------------ ghost helpers
    def H(self, st, part): return dict(st.x['H'][part])
    def setH(self, st, part, d):
        h = dict(st.x['H']); h[part] = tuple(sorted(d.items(), key=lambda x: str(x[0]))); st.x['H'] = h

    def amb(self, st):
        k = st.x.get('amb', 0)
        c = var('amb!%d' % k, 1)
        t = st.truth(c)
        if t is None: raise NeedFork(c)
        return t
    def ambdone(self, st): st.x['amb'] = st.x.get('amb', 0) + 1
    def uniq(self, st, base):
        n = base; k = 0
        while n in st.mem: k += 1; n = '%s.%d' % (base, k)
        return n

    def metaof(self, t):
        d = self.meta.get(t)
        if d is None: raise Unsupported('unknown table %s+%d' % t)
        return d

    def status(self, m, st, t):
        s = self.H(st, 'st').get(t, 'empty')
        r = region(st, t[0])
        c = m.contents(st, r)
        if s == 'empty':
            m.prove(st, eq(m.load_at(st, r, t[1], 8), 0, 64), 'memory', 'table head is null before it is used')
        elif t[1] in c.c: raise_(m, st, 'heap', 'table head is overwritten')
        return s

    def setstatus(self, m, st, t, s):
        h = self.H(st, 'st'); h[t] = s
        self.setH(st, 'st', h)
        r = region(st, t[0]); c = m.contents(st, r, True)
        if s == 'empty': c.c[t[1]] = (8, 0)
        else: self.opaque_head(m, st, t)

    def opaque_head(self, m, st, t):
        r = region(st, t[0]); c = m.contents(st, r, True)
        c.c.pop(t[1], None)
        heads = {x[1] for x in self.meta if x[0] == t[0]}
        def init(mm, s, rr, off, n):
            if any(h <= off < h + 8 for h in heads): raise Unsupported('table head is read outside the table macros')
        c.init = init

    def slots(self, k):
        r, o, e, n = self.node_arr[k]
        return n, n.bit_length() - 1

    def elemfn(self, k):
        r, o, e, n = self.node_arr[k]
        return self.elem(('fifo', k), e, n, None, '%s+%d' % (r, o))

    def reg0(self, m, st, k, i): return self.elemfn(k)(m, st, None, i)

    def present0(self, st, k, i):
        M = st.x['M']
        if type(M) is int and M == 0: return 0
        c = ult(mulc(i, k, 64), mulc(M, 8, 64), 64)
        t = st.truth(c)
        if t == 0: return 0
        s = sel('present_%d' % k, i, 1)
        t2 = st.truth(s)
        if t2 is not None: s = t2
        return mk_and(s, 1 if t else c)

    def now(self, m, st, t, i):
        """(present, reg) of slot i"""
        k = self.meta[t]['k']
        for slot, p, reg in reversed(self.H(st, 'log').get(t, ())):
            e = eq(i, slot, 64)
            if type(e) is not int:
                tr = st.truth(e)
                if tr is None:
                    if m.valid(st, e): tr = 1
                    elif m.valid(st, bnot(e)): tr = 0
                    else: raise NeedFork(e)
                e = tr
            if e: return p, reg
        p = self.present0(st, k, i)
        if type(p) is int and not p: return 0, 0
        return p, self.reg0(m, st, k, i)

    def log(self, st, t, i, p, reg):
        h = self.H(st, 'log')
        h[t] = tuple(x for x in h.get(t, ()) if x[0] is not i and x[0] != i) + ((i, p, reg),)
        self.setH(st, 'log', h)

    # elements of the node arrays, noting what was loaded
    def elem(self, role, e, n, M, name):
        if role is None or role[0] != 'fifo': return Enc.elem(self, role, e, n, M, name)
        k = role[1]; w = 8 * e
        f1 = Enc.elem(self, role, e, n, None, name)
        zero = self.zero_arr.get(k)
        un = (lambda i: 0) if zero else (lambda i: sel('unwritten_' + name, i, w))
        def f(m, st, a, i):
            MM = st.x['M']
            if type(MM) is int and MM == 0: v = un(i)
            else:
                ok = ult(mulc(i, k, 64), mulc(MM, 8, 64), 64)
                t = ok if type(ok) is int else st.truth(ok)
                if t is None:
                    if m.valid(st, ok): t = 1
                    elif m.valid(st, bnot(ok)): t = 0
                    else: raise NeedFork(ok)
                if not t: v = un(i)
                else:
                    from encoder import spec_off
                    off = spec_off(i, k, MM)
                    v = cat([(8, byte0('in', add(off, j, 64))) for j in range(k)])
            if a is not None:
                x = (k, i, v)
                if x not in st.x.get('nodeld', ()): st.x['nodeld'] = st.x.get('nodeld', ()) + (x,)
            return v
        return f

    zero_arr = {}
    def install(self, m, st, M, entry):
        if entry:
            self.zero_arr = {}
            for r, o, e, n in self.arrs(st):
                role = self.roles_.get((r.name, o, e, n))
                if role and role[0] == 'fifo':
                    c = st.mem[r.name].c
                    x = o; end = o + e * n
                    while x < end and c.get(x, (0, 1))[1] == 0 and c[x][0] > 0: x += c[x][0]
                    self.zero_arr[role[1]] = x == end
        Enc.install(self, m, st, M, entry)

    # ------------------------------------------------------------ nodes and elements
    def new_el(self, m, st, node, t, key, idx=None):
        d = self.meta[t]
        if idx is None and not node.startswith('nd!'): node_ = 'nd!' + node
        name = self.uniq(st, 'el!%s%s' % (node, '' if idx is None else '@'))
        r = m.new_region(st, name, d['esize'], 'cells', 16)
        c = m.contents(st, r, True)
        w = d['idxsize']; k = d['k']; n, sb = self.slots(k)
        if idx is not None:
            c.c[d['idxoff']] = (w, trunc(idx, 8 * w))
        else:
            sv = var('amb!s:' + name, min(sb, 8 * w))
            s = zext(sv, sb, 64)
            def init(mm, q, rr, off, nb):
                if not d['idxoff'] <= off < d['idxoff'] + w: raise Unsupported('list element is read outside the list macros')
                if self.H(q, 'els').get(name) is None: raise Unsupported('element of a list that changed')
                if self.H(q, 'st').get(t) not in ('drain', 'last'):
                    kk = k
                    ok = ult(mulc(s, kk, 64), mulc(q.x['M'], 8, 64), 64)
                    if not self.H(q, 'log').get(t):
                        q.model = None
                        if q.truth(ok) is None: q.assume(ok)
                        ps = sel('present_%d' % kk, s, 1)
                        if q.truth(ps) is None: q.assume(ps)
                        e = eq(self.reg0(mm, q, kk, s), key, 8 * kk)
                        if q.truth(e) is None: q.assume(e)
                    else:
                        p, reg = self.now(mm, q, t, s)
                        q.model = None
                        q.assume(p if type(p) is T else 1 if p else 0)
                        q.assume(eq(reg, key, 8 * kk))
                return ext(zext(s, 64, 8 * w) if False else trunc(s, 8 * w), 8 * (off - d['idxoff']) + 7, 8 * (off - d['idxoff']))
            c.init = init
        h = self.H(st, 'els'); h[name] = node; self.setH(st, 'els', h)
        return r

    def new_node(self, m, st, t, key, name, empty=False):
        d = self.meta[t]
        name = self.uniq(st, name)
        r = m.new_region(st, name, d['nsize'], 'cells', 16)
        h = self.H(st, 'node'); h[name] = (t, key); self.setH(st, 'node', h)
        c = m.contents(st, r, True)
        c.c[d['keyoff']] = (d['k'], key)
        def init(mm, q, rr, off, nb): raise Unsupported('table node is read outside the macros')
        c.init = init
        if empty: c.c[d['headoff']] = (8, 0)
        else:
            e = self.new_el(m, st, name, t, key)
            m.contents(st, r, True).c[d['headoff']] = (8, e.base)
        return r

    def tableof(self, st, name):
        x = self.H(st, 'node').get(name)
        return x[0] if x else None

    # ------------------------------------------------------------ hash macros
    def h_find(self, m, st, a, ins):
        t = self.table(m, st, a[0])
        tr = st.x.get('T')
        if tr is not None: return self.tr_find(m, st, a, tr, t)
        d = self.metaof(t)
        if a[2] != d['k']: raise Unsupported('key length')
        s = self.status(m, st, t)
        r, off = m.resolve(st, a[1])
        key = m.load_at(st, r, off, d['k'])
        m.untainted(st, key)
        if s == 'empty':
            h = self.H(st, 'absent'); h[t] = key; self.setH(st, 'absent', h)
            return 0
        if s != 'gen': raise Unsupported('lookup while the table is drained')
        for name, (t2, k2) in st.x['H']['node']:
            if t2 == t and (k2 is key or (type(key) is int and k2 == key)): return region(st, name).base
        ab = self.H(st, 'absent')
        if t in ab and (ab[t] is key or (type(key) is int and type(ab[t]) is int and ab[t] == key)): return 0
        hit = self.amb(st)
        if hit and self.empty_ok:
            raise Unsupported('lists may be empty')
        if not hit:
            done = set()
            for k, i, v in st.x.get('nodeld', ()):
                if k == d['k'] and (v is key or (type(v) is int and type(key) is int and v == key)):
                    if any(eq(i, x[0], 64) != 0 for x in self.H(st, 'log').get(t, ())): continue
                    p = self.present0(st, k, i)
                    if type(p) is T and st.truth(p) is None:
                        st.model = None
                        st.assume(bnot(p))
            ab[t] = key; self.setH(st, 'absent', ab)
            self.ambdone(st)
            return 0
        self.ambdone(st)
        return self.new_node(m, st, t, key, 'nd!%d:%s' % (t[1], key.id if type(key) is T else key)).base

    def h_add(self, m, st, a, ins):
        t = self.table(m, st, a[0])
        r, off = m.resolve(st, a[1]); rk, ko = m.resolve(st, a[2])
        if off != 0 or rk is not r or type(ko) is not int: raise Unsupported('hash node layout')
        tr = st.x.get('T')
        if tr is not None:
            d = self.meta.setdefault(t, {})
            d.update(k=a[3], keyoff=ko, nsize=r.size)
            tr.tab.setdefault(t, {})[m.load_at(st, r, ko, a[3])] = r.base
            tr.of[r.name] = t; tr.own.add(r.name)
            return 0
        d = self.metaof(t)
        if (a[3], ko) != (d['k'], d['keyoff']): raise Unsupported('key layout')
        s = self.status(m, st, t)
        for e in self.H(st, 'pend').get(r.name, ()):
            self.now(m, st, t, canon(zext(m.load_at(st, region(st, e), d['idxoff'], d['idxsize']), 8 * d['idxsize'], 64), 64))
        if s not in ('gen', 'empty'): raise Unsupported('insertion while the table is drained')
        if r.name not in st.x.get('live', ()): raise_(m, st, 'heap', 'node added to a table is not a local object')
        m.bounds(st, r, ko, a[3], 'key')
        key = m.load_at(st, r, ko, d['k'])
        ab = self.H(st, 'absent')
        if not (t in ab and (ab[t] is key or m.valid(st, eq(ab[t], key, 8 * d['k'])))):
            raise_(m, st, 'contract', 'a key is added to a table only when it is not there')
        ab.pop(t); self.setH(st, 'absent', ab)
        st.x['live'] = tuple(x for x in st.x['live'] if x != r.name)
        h = self.H(st, 'node'); h[r.name] = (t, key); self.setH(st, 'node', h)
        if s == 'empty': self.setstatus(m, st, t, 'gen')
        c = m.contents(st, r, True)
        p = self.H(st, 'pend').get(r.name)
        if p:
            hp = self.H(st, 'pend'); hp.pop(r.name); self.setH(st, 'pend', hp)
            for e in p: self.file(m, st, r.name, t, e)
            self.join(m, st)
        return 0

    def h_del(self, m, st, a, ins):
        t = self.table(m, st, a[0])
        r, off = m.resolve(st, a[1])
        tr = st.x.get('T')
        if tr is not None:
            for k, v in list(tr.tab.get(t, {}).items()):
                if v is a[1]: del tr.tab[t][k]
            return 0
        n = self.H(st, 'node').get(r.name)
        if n is None or n[0] != t or off != 0: raise_(m, st, 'heap', 'node removed from a table it is not in')
        d = self.meta[t]
        s = self.status(m, st, t)
        hd = m.load_at(st, r, d['headoff'], 8)
        if s == 'gen' and hd != 0: raise Unsupported('node with elements removed from its table')
        h = self.H(st, 'node'); h.pop(r.name); self.setH(st, 'node', h)
        st.x['live'] = st.x.get('live', ()) + (r.name,)
        if s == 'last': self.setstatus(m, st, t, 'empty')
        ab = self.H(st, 'absent')
        if s == 'gen' and t not in ab: ab[t] = n[1]; self.setH(st, 'absent', ab)
        return 0

    def h_first(self, m, st, a, ins):
        t = self.table(m, st, a[0])
        tr = st.x.get('T')
        if tr is not None:
            l = list(tr.tab.get(t, {}).values())
            return l[0] if l else 0
        self.metaof(t)
        s = self.status(m, st, t)
        if s == 'empty': return 0
        if s != 'gen': raise Unsupported('nested iteration over a table')
        e = self.amb(st)
        self.ambdone(st)
        if st.x.get('failed'): self.weaken(m, st)
        self.join(m, st, ('first', e))
        self.forget(m, st, t)
        if e:
            self.setstatus(m, st, t, 'empty')
            return 0
        self.setstatus(m, st, t, 'drain')
        return self.iter_node(m, st, t, 'I').base

    def forget(self, m, st, t):
        """materialised nodes of table t are no longer followed"""
        h = self.H(st, 'node'); els = self.H(st, 'els')
        for n in [n for n, x in h.items() if x[0] == t]:
            h.pop(n)
            for e in [e for e, q in els.items() if q == n]: els.pop(e)
        self.setH(st, 'node', h); self.setH(st, 'els', els)

    def iter_node(self, m, st, t, tag):
        key = var('amb!key%d%s' % (t[1], tag), 8 * self.meta[t]['k'])
        return self.new_node(m, st, t, key, 'nd!%s%d' % (tag, t[1]))

    def h_next(self, m, st, a, ins):
        t = self.table(m, st, a[0])
        tr = st.x.get('T')
        if type(a[1]) is int: raise_(m, st, 'pointer', 'next of a null node')
        r, off = m.resolve(st, a[1])
        if tr is not None:
            l = list(tr.tab.get(t, {}).values())
            i = [x for x, v in enumerate(l) if v is a[1]]
            return l[i[0] + 1] if i and i[0] + 1 < len(l) else 0
        s = self.status(m, st, t)
        n = self.H(st, 'node').get(r.name)
        if s not in ('drain', 'last') or n is None or n[0] != t: raise Unsupported('iteration over a table')
        d = self.meta[t]
        site = ('h', t, st.frames[-1].f.name, st.frames[-1].lbl, st.frames[-1].ip)
        hd = m.load_at(st, r, d['headoff'], 8)
        mp = {r.base: 'CUR', n[1]: 'KEY'}
        if type(hd) is T: mp[hd] = 'EL'
        last = self.amb(st)
        self.ambdone(st)
        self.arrive(m, st, site, t, r.name, mp)
        if last:
            self.setstatus(m, st, t, 'last')
            return 0
        return self.iter_node(m, st, t, 'J').base

    def arrive(self, m, st, site, cont, cur, mp):
        """second arrival of an iteration: the same state up to the current element"""
        self.prune(m, st, mp)
        k = self.statekey(st, mp)
        h = self.H(st, 'it')
        o = h.get(site)
        if o is None:
            h[site] = (cur, k); self.setH(st, 'it', h)
            return
        if o[1] == k or self.covers(st, o[1], k): raise Halt('infeasible')
        if o[0] in self.H(st, 'node') or o[0] in self.H(st, 'els'):
            raise_(m, st, 'heap', 'an element stays in its table or list at the end')
        if self.debug: self.diff(o[1], k)
        raise Unsupported('iteration over a table is not uniform')
    def covers(self, st, a, k):
        """equal, except where the first arrival held an undefined value (arbitrary, mentioned nowhere else)"""
        if a[1:] != k[1:] or len(a[0]) != len(k[0]): return False
        wild = set()
        for x, y in zip(a[0], k[0]):
            if x[:3] != y[:3] or len(x[3]) != len(y[3]): return False
            for (n, v), (n2, v2) in zip(x[3], y[3]):
                if n != n2: return False
                if v == v2: continue
                if not (type(v) is T and v.op == 'var' and v.a[0].startswith('undef!')) or v in wild: return False
                wild.add(v)
        from encoder import mentions
        return not any(mentions(c, v) for c in st.pc for v in wild)

    debug = False
    def diff(self, a, b):
        import sys
        for x, y in zip(a, b):
            if x != y:
                print('DIFF', [z for z in x if z not in y] if type(x) in (tuple, frozenset) else x, '|', [z for z in y if z not in x] if type(y) in (tuple, frozenset) else y, file=sys.stderr)

    # ------------------------------------------------------------ list macros
    def l_search(self, m, st, a, ins):
        r, off = self.listhead(m, st, a[0])
        tr = st.x.get('T')
        if tr is not None:
            t = tr.of.get(r.name)
            if t: self.meta[t].update(idxoff=a[1], idxsize=a[2])
            for e in tr.lst.get((r.name, off), ()):
                q, _ = m.resolve(st, e)
                if m.load_at(st, q, a[1], a[2]) == a[3]: return e
            return 0
        t, d = self.listof(m, st, r, off)
        if (a[1], a[2]) != (d['idxoff'], d['idxsize']): raise Unsupported('search in another field')
        hd = m.load_at(st, r, off, 8)
        if type(hd) is int: return 0
        k = d['k']; n, sb = self.slots(k)
        i = canon(a[3], 64)
        if not m.valid(st, ult(i, n, 64)): raise Unsupported('search for a slot out of range')
        if self.H(st, 'st').get(t) != 'gen': raise Unsupported('search while the table is drained')
        p, reg = self.now(m, st, t, i)
        key = self.H(st, 'node')[r.name][1]
        c = mk_and(p, eq(reg, key, 8 * k)) if p else 0
        f = c if type(c) is int else st.truth(c)
        if f is None: raise NeedFork(c)
        if not f: return 0
        return self.new_el(m, st, r.name, t, key, i).base

    def listof(self, m, st, r, off):
        t = self.tableof(st, r.name)
        if t is None:
            for e, n in st.x['H']['els']:
                if n == r.name: t = self.nodetab(r.name, st)
            if t is None: raise Unsupported('list outside the tables')
        d = self.meta[t]
        if off != d['headoff']: raise Unsupported('list head')
        return t, d

    def nodetab(self, name, st):
        return st.x.get('det', {}).get(name)

    def l_delete(self, m, st, a, ins):
        r, off = self.listhead(m, st, a[0])
        e, _ = m.resolve(st, a[1])
        tr = st.x.get('T')
        if tr is not None:
            l = tr.lst.get((r.name, off), [])
            l[:] = [x for x in l if x is not a[1]]
            self.tr_setlist(m, st, r, off, l)
            return 0
        t, d = self.listof(m, st, r, off)
        els = self.H(st, 'els')
        if els.get(e.name) != r.name: raise_(m, st, 'heap', 'element removed from a list it is not in')
        s = self.H(st, 'st').get(t)
        hd = m.load_at(st, r, off, 8)
        if s == 'gen':
            idx = zext(m.load_at(st, e, d['idxoff'], d['idxsize']), 8 * d['idxsize'], 64)
            more = self.amb(st)
            self.ambdone(st)
            x = m.contents(st, e).c.get(d['idxoff'])
            if x is None: m.contents(st, e, True).c[d['idxoff']] = (d['idxsize'], trunc(idx, 8 * d['idxsize']))
            self.log(st, t, canon(idx, 64), 0, 0)
            for x in [x for x, q in els.items() if q == r.name]: els.pop(x)
            self.setH(st, 'els', els)
            st.x['live'] = st.x.get('live', ()) + (e.name,)
            if more:
                key = self.H(st, 'node')[r.name][1]
                q = self.new_el(m, st, r.name, t, key)
                m.contents(st, r, True).c[off] = (8, q.base)
            else: m.contents(st, r, True).c[off] = (8, 0)
            return 0
        if s not in ('drain', 'last'): raise Unsupported('list operation')
        if hd is not e.base: raise Unsupported('not the first element is removed')
        nx = self.H(st, 'nxt')
        if e.name not in nx: raise Unsupported('element removed without looking for the next one')
        q = nx.pop(e.name); self.setH(st, 'nxt', nx)
        els.pop(e.name); self.setH(st, 'els', els)
        st.x['live'] = st.x.get('live', ()) + (e.name,)
        m.contents(st, r, True).c[off] = (8, region(st, q).base if q else 0)
        return 0

    def l_count(self, m, st, a, ins):
        r, off = self.listhead(m, st, a[0])
        tr = st.x.get('T')
        if tr is not None: return len(tr.lst.get((r.name, off), ()))
        hd = m.load_at(st, r, off, 8)
        if type(hd) is int: return 0
        self.listof(m, st, r, off)
        k = st.x.get('amb', 0); st.x['amb'] = k + 1
        return add(zext(var('amb!n%d' % k, 31), 31, 32), 1, 32)

    def l_prepend(self, m, st, a, ins): return self.l_append(m, st, a, ins, True)
    def l_append(self, m, st, a, ins, front=False):
        r, off = self.listhead(m, st, a[0])
        e, eo = m.resolve(st, a[1])
        tr = st.x.get('T')
        if tr is not None:
            l = tr.lst.setdefault((r.name, off), [])
            if front: l.insert(0, a[1])
            else: l.append(a[1])
            tr.own.add(e.name)
            t = tr.of.get(r.name)
            if t: self.meta[t].update(headoff=off, esize=e.size)
            self.tr_setlist(m, st, r, off, l)
            return 0
        if eo != 0 or e.name not in st.x.get('live', ()): raise_(m, st, 'heap', 'element appended to a list is not a local object')
        hd = m.load_at(st, r, off, 8)
        t = self.tableof(st, r.name)
        if t is None:
            if r.name not in st.x.get('live', ()): raise Unsupported('list outside the tables')
            hp = self.H(st, 'pend')
            if not (type(hd) is int and hd == 0 or r.name in hp): raise Unsupported('list outside the tables')
            hp[r.name] = hp.get(r.name, ()) + (e.name,); self.setH(st, 'pend', hp)
            st.x['live'] = tuple(x for x in st.x['live'] if x != e.name)
            if hd == 0 or front: m.contents(st, r, True).c[off] = (8, e.base)
            return 0
        d = self.meta[t]
        if off != d['headoff']: raise Unsupported('list head')
        if self.H(st, 'st').get(t) != 'gen': raise Unsupported('insertion while the table is drained')
        self.file(m, st, r.name, t, e.name)
        if type(hd) is int:
            if hd: raise_(m, st, 'heap', 'list head is not a list')
            m.contents(st, r, True).c[off] = (8, e.base)
        elif front: m.contents(st, r, True).c[off] = (8, e.base)
        self.join(m, st)
        return 0

    def file(self, m, st, node, t, e):
        """element e is in the list of a node that is in table t"""
        d = self.meta[t]
        re_ = region(st, e)
        idx = canon(zext(m.load_at(st, re_, d['idxoff'], d['idxsize']), 8 * d['idxsize'], 64), 64)
        n, sb = self.slots(d['k'])
        m.prove(st, ult(idx, n, 64), 'inv', 'slot filed in the %d-byte table is below %d' % (d['k'], n))
        p, reg = self.now(m, st, t, idx)
        m.prove(st, bnot(p) if type(p) is T else 1 - p, 'inv', 'a slot is filed once in the %d-byte table' % d['k'])
        self.log(st, t, idx, 1, self.H(st, 'node')[node][1])
        st.x['live'] = tuple(x for x in st.x['live'] if x != e)
        els = self.H(st, 'els'); els[e] = node; self.setH(st, 'els', els)

    def l_first(self, m, st, a, ins):
        r, off = self.listhead(m, st, a[0])
        return m.load_at(st, r, off, 8)

    def l_next(self, m, st, a, ins):
        r, off = self.listhead(m, st, a[0])
        if type(a[1]) is int: raise_(m, st, 'pointer', 'next of a null element')
        tr = st.x.get('T')
        if tr is not None:
            l = tr.lst.get((r.name, off), [])
            i = [x for x, v in enumerate(l) if v is a[1]]
            return l[i[0] + 1] if i and i[0] + 1 < len(l) else 0
        t, d = self.listof(m, st, r, off)
        e, _ = m.resolve(st, a[1])
        if self.H(st, 'els').get(e.name) != r.name or self.H(st, 'st').get(t) not in ('drain', 'last'): raise Unsupported('list iteration')
        site = ('l', t, st.frames[-1].f.name, st.frames[-1].lbl, st.frames[-1].ip)
        last = self.amb(st)
        self.ambdone(st)
        self.arrive(m, st, site, r.name, e.name, {e.base: 'CURE'})
        nx = self.H(st, 'nxt')
        if last:
            nx[e.name] = None
            self.setH(st, 'nxt', nx)
            return 0
        q = self.new_el(m, st, r.name + "'", t, None)
        els = self.H(st, 'els'); els[q.name] = r.name; self.setH(st, 'els', els)
        nx[e.name] = q.name
        self.setH(st, 'nxt', nx)
        return q.base

    def h_free(self, m, st, a, ins):
        if st.x.get('T') is None and type(a[0]) is T:
            r, off = m.resolve(st, a[0], 'free')
            if r.name in self.H(st, 'node'): raise_(m, st, 'heap', 'node is released while it is in a table')
            if r.name in self.H(st, 'els'): raise_(m, st, 'heap', 'element is released while it is in a list')
            if r.name in self.H(st, 'pend') or any(n == r.name for n in self.H(st, 'els').values()):
                raise_(m, st, 'heap', 'node is released while its list has elements')
        return b_free(m, st, a, ins)

    # ------------------------------------------------------------ merging
    def prune(self, m, st, keep=()):
        """drop dead values, released objects nobody refers to, and facts about forgotten things"""
        rs = set()
        for fr in st.frames:
            lv = live_at(fr.f, fr.lbl, fr.ip) - {fr.blk[fr.ip - 1].d}
            env = fr.env
            for k in [k for k in env if k not in lv]: del env[k]
            for v in fr.env.values():
                if type(v) is T: rs |= refs(v)
                elif type(v) is tuple:
                    for x in v: rs |= refs(x)
        for n, v in st.x.get('emit', ()): rs |= refs(v)
        rs |= refs(st.x.get('B', 0))
        for t in keep:
            if type(t) is T: rs |= refs(t)
        byname = {r.name: r for r in st.regs.values()}
        live = set(st.x.get('live', ()))
        soft = lambda n: n.startswith(('nd!', 'el!')) or (n.startswith('heap') and n not in live)
        scan = [n for n in st.mem if not soft(n)]
        scan += [n for n in live if n in st.mem and soft(n)]
        done = set()
        while scan:
            n = scan.pop()
            if n in done: continue
            done.add(n)
            mm = st.mem[n]
            if type(mm) is Cells:
                for w, v in mm.c.values():
                    if type(v) is T: rs |= refs(v)
                for ar in mm.arrays:
                    for i, v in ar.log: rs |= refs(i) | refs(v)
            else:
                for o, w, v in mm.log: rs |= refs(o) | refs(v)
            for x in st.mem:
                if x not in done and ('&' + x) in rs: scan.append(x)
        gone = [n for n in st.mem if n not in done and ('&' + n) not in rs]
        if gone:
            g = set(gone)
            for n in gone:
                del st.mem[n]
                st.regs.pop(byname[n].atom, None)
            for part in ('node', 'els'):
                h = self.H(st, part)
                h = {k: v for k, v in h.items() if k not in g}
                self.setH(st, part, h)
            h = self.H(st, 'els')
            nd = self.H(st, 'node')
        rs = {x for x in rs if x.startswith('amb!')}
        pc = [c for c in st.pc if all(x in rs or x.startswith('&') for x in refs(c))]
        if len(pc) != len(st.pc):
            st.pc = []; st.pcset = {}; st.known = {}; st.facts = {}; st.proved = set(); st.model = None
            for c in pc: st.assume(c)

    def statekey(self, st, mp={}):
        f = lambda v: mp.get(v, v) if type(v) in (T, str) else v
        fr = tuple((x.f.name, x.lbl, x.ip, tuple(sorted((k, f(v)) if type(v) is not tuple else (k, v) for k, v in x.env.items()) if False else tuple((k, f(x.env[k])) for k in sorted(x.env)))) for x in st.frames)
        mem = []
        byname = {b: r for r in st.regs.values() for b in [r.name]}
        for n in st.mem:
            mm = st.mem[n]
            r = byname.get(n)
            nm = mp.get(r.base, n) if r is not None else n
            if type(mm) is Cells: mem.append((str(nm), mm.freed, tuple((o, mm.c[o][0], f(mm.c[o][1])) for o in sorted(mm.c)), tuple((a.off, a.log) for a in mm.arrays)))
            else: mem.append((str(nm), mm.freed, mm.log))
        mem.sort(key=lambda x: x[0])
        nm = lambda n: mp.get(byname[n].base, n) if n in byname else n
        H = st.x['H']
        h = (H['st'], tuple(sorted((nm(n), t, str(f(k))) for n, (t, k) in H['node'])), tuple(sorted((nm(e), nm(n)) for e, n in H['els'])),
             tuple(sorted((nm(e), str(n)) for e, n in H['nxt'])), H['pend'])
        x = (tuple(sorted(nm(n) for n in st.x.get('live', ()))), st.x.get('failed'), st.x.get('emit'), st.x.get('B'))
        return (fr, tuple(mem), h, x)

    def join(self, m, st, tag=None):
        """two executions in the same state are followed once"""
        h = self.H(st, 'absent')
        if h: self.setH(st, 'absent', {})
        st.x['nodeld'] = ()
        self.prune(m, st)
        if st.x.get('failed'):
            # nothing said about the data matters any more
            now = bvars(st.x['B'])
            pc = [c for c in st.pc if light(c) and bvars(c) <= now]
            if len(pc) != len(st.pc):
                st.pc = []; st.pcset = {}; st.known = {}; st.facts = {}; st.proved = set(); st.model = None
                for c in pc: st.assume(c)
        if not any('amb!' in x for x in st.mem) and not any(n.startswith(('nd!', 'el!')) for n in st.mem): st.x['amb'] = 0
        hs = [int(n[4:]) for n in st.mem if n.startswith('heap')]
        st.x['heap'] = max(hs) + 1 if hs else 0
        if self.seen is None: return
        k = (st.x['root'], tag, self.statekey(st), st.x['H']['log'], frozenset(st.pc))
        if k in self.seen: raise Halt('infeasible')
        self.seen.add(k)

    # ------------------------------------------------------------ loop
    def abstract(self, m, st, M):
        st.x['H'] = {'st': (), 'node': (), 'els': (), 'absent': (), 'log': (), 'it': (), 'nxt': (), 'pend': ()}
        st.x['M'] = M
        self.setH(st, 'st', {t: 'gen' for t in self.meta})
        for t in self.meta: self.opaque_head(m, st, t)
        B = zext(var('B', 50), 50, 64)
        st.assume(ule(B, mulc(self.cap, 8, 64), 64))
        self.put_writer(m, st, B)

    def roots(self, m, head, M, c):
        out = Enc.roots(self, m, head, M, c)
        for st, M_, c_, h in list(out):
            if type(M_) is int: st.x['root'] = 0
            else: st.x['root'] = 1
        if len(out) > 1:
            st = self.step(m, head, self.generic(m, head, M, c), M, c)
            st.x['root'] = 2
            st.x['failed'] = 1
            st.assume(ule(sub(mulc(self.cap, 8, 64), st.x['B'], 64), 36, 64))
            out.append((st, M, c, head))
        return out

    def islive(self, fr, k): return k in live_at(fr.f, fr.lbl, fr.ip)

    def back_edge(self, m, head, st, M, c):
        if st.x.get('failed'):
            m.prove(st, ult(M, self.N, 64), 'func', 'only whole blocks of the input are processed')
            s = [s for s, t in self.tmpl.items() if t not in (None, 'const') and t.name == 'c']
            if not s: raise Unsupported('no pending count')
            now = self.snapshot(st, st.frames[-1].lbl, self.arrs(st))
            c2 = zext(now[s[0]], self.ws[s[0]], 64)
            M2 = M + 1 if type(M) is int else add(M, 1, 64)
            m.prove(st, mk_and(ule(c2, 63, 64), ult(c2, M2, 64)), 'inv', 'pending blocks fit a repeat count')
            self.check_head(m, head, st, self.ghost(M2, c2))
            m.prove(st, ule(sub(mulc(self.cap, 8, 64), st.x['B'], 64), 36, 64), 'enospc', 'a stream that failed cannot be ended')
            return
        Enc.back_edge(self, m, head, st, M, c)

    def check_head(self, m, head, st, g2):
        Enc.check_head(self, m, head, st, g2)
        self.check_writer(m, st, st.x['B'], 'at the loop head')
        m.prove(st, ule(st.x['B'], mulc(self.cap, 8, 64), 64), 'inv', 'bits emitted are within the capacity')
        H = st.x['H']
        if H['pend'] or H['nxt']: raise_(m, st, 'inv', 'unfinished list operation')
        for t, d in self.meta.items():
            k = d['k']
            s = self.status(m, st, t)
            if s == 'empty': raise Unsupported('table unused after a block')
            if s != 'gen': raise Unsupported('table drained inside the loop')
            rn, o, e, n = self.node_arr[k]
            arr = [x for x in st.mem[rn].arrays if x.off == o][0]
            log = self.H(st, 'log').get(t, ())
            r = region(st, rn)
            for slot, p, reg in log:
                if not p: continue
                v = m.arr_load(st, r, st.mem[rn], arr, mulc(slot, k, 64), k)
                m.prove(st, eq(v, reg, 8 * k), 'inv', 'a slot is filed in the %d-byte table under the data it holds' % k)
                m.prove(st, ult(mulc(slot, k, 64), mulc(g2.M, 8, 64), 64), 'inv', 'a slot filed in the %d-byte table holds data' % k)
            for i, v in arr.log:
                if any(eq(canon(i, 64), x[0], 64) == 1 or x[0] is i for x in log): continue
                p, reg = self.now(m, st, t, canon(i, 64))
                m.prove(st, bnot(p) if type(p) is T else 1 - p, 'inv', 'a slot that changes is filed again in the %d-byte table' % k)
        for name, (t, key) in H['node']:
            if m.load_at(st, region(st, name), self.meta[t]['headoff'], 8) == 0:
                raise_(m, st, 'inv', 'a list in a table is empty')

    # ------------------------------------------------------------ end
    def finish(self, m, o, M, c, inloop=False):
        st = o.st
        if o.kind != 'ret': raise_(m, st, 'func', 'ends with %s' % (o.kind,))
        for t, s in st.x['H']['st']:
            if s != 'empty': raise_(m, st, 'heap', 'table is not released at the end')
        neg = slt(o.val, 0, 32)
        if not st.x.get('failed') and (type(neg) is int and neg or (type(neg) is T and m.valid(st, neg))):
            if st.x.get('live'): raise_(m, st, 'heap', 'memory is not released (%s)' % ', '.join(st.x['live']))
            m.prove(st, eq(o.val, -ENOSPC & M32, 32), 'enospc', 'accepted input is only refused for lack of space')
            m.prove(st, eq(m.load_at(st, self.rol, 0, 8), 0, 64), 'errlen', 'length is 0 on error')
            rem, done, end = self.parse(m, st, M, c, bool(self.alt) and inloop, tail=True)
            if not end: raise_(m, st, 'enospc', 'refused before the stream is complete')
            P_ = self.padded(st)
            m.prove(st, mk_or(ult(self.cap, P_, 64), ult(M32, P_, 64)), 'enospc', 'no-space error only when the padded stream does not fit')
            return
        Enc.finish(self, m, o, M, c, inloop)

    def padded(self, st): return shlc(lshrc(add(st.x['B'], 63, 64), 6, 64), 3, 64)

    def finish_stream(self, m, st, ol):
        P_ = self.padded(st); B = st.x['B']
        m.prove(st, eq(ol, P_, 64), 'std', 'reported length is the stream padded to 8 bytes')
        m.prove(st, ule(ol, self.cap, 64), 'bounds', 'reported length is within the capacity')
        # zero padding: bytes [ceil(B/8), padded) written as zero, nothing below
        lo = lshrc(add(B, 7, 64), 3, 64)
        at = lo
        for off, n, v in st.mem['out'].log:
            m.prove(st, ule(lo, off, 64), 'func', 'padding does not touch the stream')
            if m.valid(st, ule(off, at, 64)):
                m.prove(st, eq(v, 0, 8 * n) if type(n) is int else 0, 'std', 'padding is zero')
                e = add(off, n, 64)
                if m.valid(st, ule(at, e, 64)): at = e
        m.prove(st, ule(P_, at, 64), 'std', 'the stream is padded with zeros to 8 bytes')

class AddBits:
    """body of add_bits against its contract, for every number of bits in the last byte and every n"""
    def __init__(self, E):
        self.E = E; self.fails = []
        for mod in E.mods:
            for n in mod.funcs:
                if ADD.fullmatch(n): self.f = mod.func(n)

    def run(self, b, n):
        E = self.E
        m = Machine(E.mods)
        case = 'add_bits: %d bits in the last byte, %d new' % (b, n)
        m.on_fail = lambda e: self.fails.append((e.kind, e.msg, case, e.model is not None))
        st = State()
        cap = zext(var('cap', 46), 46, 64)
        q = zext(var('q', 47), 47, 64)
        rout = m.new_region(st, 'out', cap, 'buf', 1)
        rp = m.new_region(st, 'p', E.wobj.size, 'cells', 16)
        B = add(mulc(q, 8, 64), b, 64)
        g = WG(B, cap, rout.base)
        c = st.mem['p'].c
        for (rn, o, w), t in E.wcells.items(): c[o] = (w, t.fn(g, 8 * w))
        st.assume(ule(B, mulc(cap, 8, 64), 64))
        d = var('d', n)
        m.push(st, self.f, [rp.base, zext(d, n, 64), n])
        out = []
        def end(o):
            try: self.end(m, o, b, n, q, cap, B, d, rp, rout)
            except Fail as e: m.on_fail(e)
            except Halt: pass
        m.explore(st, end)
        return m

    def end(self, m, o, b, n, q, cap, B, d, rp, rout):
        st = o.st; E = self.E
        if o.kind != 'ret': raise_(m, st, 'contract', 'add_bits ends with %s' % o.kind)
        for off, w, v in st.mem['out'].log:
            m.prove(st, ule(q, off, 64), 'func', 'add_bits stores from the current byte on')
        cells = st.mem['p'].c
        w_ = {(o_, w): t for (rn, o_, w), t in E.wcells.items()}
        for o_, (w, v) in cells.items():
            if (o_, w) in w_: continue
            if not (type(v) is T and v.op == 'var' and v.a[0].startswith('uninit!')):
                raise_(m, st, 'frame', 'add_bits changes the field at +%d' % o_)
        fit = ule(add(B, n, 64), mulc(cap, 8, 64), 64)
        ok = eq(o.val, 0, 32)
        if type(ok) is T: ok = 1 if m.valid(st, ok) else 0
        if ok:
            m.prove(st, fit, 'enospc', 'add_bits succeeds only when the bits fit')
            g2 = WG(add(B, n, 64), cap, rout.base)
            for (o_, w), t in w_.items():
                m.prove(st, eq(m.load_at(st, rp, o_, w), t.fn(g2, 8 * w), 8 * w), 'contract', 'bit writer field at +%d after add_bits: %s' % (o_, t.name))
            tot = b + n; nb = (tot + 7) // 8
            part = ext(byte0('out', q), 7, 8 - b) if b else None
            allb = cat(([(b, part)] if b else []) + [(n, d)] + ([(8 * nb - tot, 0)] if tot % 8 else []))
            for j in range(nb):
                v = m.buf_load(st, rout, st.mem['out'], add(q, j, 64), 1)
                m.prove(st, eq(v, ext(allb, 8 * (nb - j) - 1, 8 * (nb - j) - 8), 8), 'func', 'byte %d stored by add_bits' % j)
            return
        m.prove(st, bnot(fit), 'enospc', 'add_bits fails only when the bits do not fit')
        m.prove(st, eq(o.val, -ENOSPC & M32, 32), 'enospc', 'add_bits fails with the no-space error')
        last = None
        for j in range(0, n + 1):
            g2 = WG(add(B, j, 64), cap, rout.base)
            if all(eq(m.load_at(st, rp, o_, w), t.fn(g2, 8 * w), 8 * w) == 1 for (o_, w), t in w_.items()):
                B2 = g2.B
                m.prove(st, mk_and(ule(B2, mulc(cap, 8, 64), 64), ult(sub(mulc(cap, 8, 64), B2, 64), n, 64)), 'contract', 'bits left after a failed add_bits')
                return
        raise_(m, st, 'contract', 'bit writer fields after a failed add_bits')
