"""Contract proof of crc32_be.

  requires  crc == 0, buf[0..len) readable
  loop      after k iterations the checksum variable holds the bitwise CRC
            state of the first p0 + stride*k bytes (native or byte-swapped),
            every other loop variable equals v0 + c*k, p0 + stride*k <= len
  ensures   result == bitwise CRC-32 (0x04C11DB7, msb first, init 0) of
            buf[0..len); every read lies in buf[0..len)

The step obligation (checksum after the bytes of one iteration) is an identity
between GF(2)-affine functions of the state and the bytes; it is decided by
computing both normal forms.  Table lookups with an arbitrary index are affine
functions of the index when the table is, which is checked for every entry.
"""
import random, re
from exec import *
from term import *
import inv, spec842 as S, solve

W = 32
POLY = 0x04C11DB7
FORMS = {'native': lambda v: v, 'swapped': lambda v: bswap(v, 32)}

# ------------------------------------------------------------ GF(2) normal forms
class NotLinear(Exception):
    pass

class GF2:
    """bit i of a term as an integer mask: bit 0 = constant, others = atom bits"""
    def __init__(self, tabs):
        self.ix = {}; self.memo = {}; self.tabs = tabs
    def atom(self, t, i):
        k = (t, i)
        n = self.ix.get(k)
        if n is None: n = self.ix[k] = len(self.ix) + 1
        return 1 << n
    def bits(self, t, w):
        """list, index 0 = least significant"""
        if type(t) is int: return [(t >> i) & 1 for i in range(w)]
        r = self.memo.get(t)
        if r is None: r = self.memo[t] = self._bits(t)
        return r
    def _bits(self, t):
        op = t.op; a = t.a; w = t.w
        if op == 'cat':
            out = []
            for pw, p in reversed(a): out += self.bits(p, pw)
            return out
        if op == 'ext': return self.bits(a[0], a[0].w)[a[2]:a[1] + 1]
        if op == 'xor': return [x ^ y for x, y in zip(self.bits(a[0], w), self.bits(a[1], w))]
        if op == 'and' and (type(a[0]) is int or type(a[1]) is int):
            c, x = (a[0], a[1]) if type(a[0]) is int else (a[1], a[0])
            return [b if (c >> i) & 1 else 0 for i, b in enumerate(self.bits(x, w))]
        if op == 'or' and (type(a[0]) is int or type(a[1]) is int):
            c, x = (a[0], a[1]) if type(a[0]) is int else (a[1], a[0])
            return [1 if (c >> i) & 1 else b for i, b in enumerate(self.bits(x, w))]
        if op == 'or':
            x = self.bits(a[0], w); y = self.bits(a[1], w)
            if all(p == 0 or q == 0 for p, q in zip(x, y)): return [p | q for p, q in zip(x, y)]
            raise NotLinear(show(t))
        if op == 'not': return [1 ^ self.bits(a[0], 1)[0]]
        if op == 'lin' and w > 1:
            # sum of terms with disjoint bits
            out = self.bits(a[0], w)
            for x, k in a[1]:
                if k & (k - 1): raise NotLinear(show(t))
                s = k.bit_length() - 1
                b = ([0] * s + self.bits(x, w))[:w]
                if any(p and q for p, q in zip(out, b)): raise NotLinear(show(t))
                out = [p | q for p, q in zip(out, b)]
            return out
        if op == 'ite':
            c = self.bits(a[0], 1)[0]
            x = self.bits(a[1], w); y = self.bits(a[2], w)
            out = []
            for p, q in zip(x, y):
                d = p ^ q
                if d == 0: out.append(p)
                elif d == 1: out.append(q ^ c)
                else: raise NotLinear(show(t))
            return out
        if op == 'eq' and type(a[0]) is T and type(a[1]) is int or op == 'eq' and type(a[1]) is T and type(a[0]) is int:
            x, c = (a[0], a[1]) if type(a[0]) is T else (a[1], a[0])
            b = self.bits(x, x.w)
            nz = [(p, i) for i, p in enumerate(b) if p not in (0, 1)]
            fixed = all(p == ((c >> i) & 1) for i, p in enumerate(b) if p in (0, 1))
            if not fixed: return [0]
            if len(nz) == 1: return [nz[0][0] ^ 1 ^ ((c >> nz[0][1]) & 1)]
            raise NotLinear(show(t))
        if op == 'sext':
            b = self.bits(a[0], a[0].w)
            return b + [b[-1]] * (w - len(b))
        if op == 'uf' and a[0] in self.tabs:
            tab = self.tabs[a[0]]
            x = self.bits(a[1], a[1].w)
            out = [(tab[0] >> i) & 1 for i in range(w)]
            for j, b in enumerate(x):
                if not b: continue
                d = tab[1 << j] ^ tab[0]
                for i in range(w):
                    if (d >> i) & 1: out[i] ^= b
            return out
        if op in ('var', 'byte'):
            return [self.atom(t, i) for i in range(w)]
        raise NotLinear(show(t))

def spec_advance(g, s, bytes_):
    """bitwise CRC over GF(2) forms: s list of 32 masks (lsb first)"""
    s = list(s)
    for b in bytes_:
        x = g.bits(b, 8)
        for i in range(8): s[24 + i] ^= x[i]
        for _ in range(8):
            top = s[31]
            s = [0] + s[:31]
            if top:
                for i in range(32):
                    if (POLY >> i) & 1: s[i] ^= top
    return s

# ------------------------------------------------------------ machine
class Crc:
    def __init__(self, mod):
        self.mod = mod
        self.fails = []
        self.tabs = {}
        names = [n for n in mod.funcs if re.fullmatch(r'.*crc32_be.*', n)]
        called = set()
        for fn in mod.funcs.values():
            if fn.name in names: continue
            for l in fn.src[1]:
                for n in names:
                    if re.search(r'@"?%s"?\(' % re.escape(n), l): called.add(n)
        self.entries = [n for n in names if n in called]

    def machine(self):
        m = Machine([self.mod])
        orig = m.load_global
        def load_global(st, r, off, n):
            if type(off) is T and st.known.get(off) is None:
                v = self.symtab(m, st, r, off, n, orig)
                if v is not None: return v
            return orig(st, r, off, n)
        m.load_global = load_global
        return m

    def symtab(self, m, st, r, off, n, orig):
        """load from a constant table at an arbitrary index -> uninterpreted table term"""
        c, ts = lin_of(off, 64)
        if len(ts) != 1: return None
        x, k = ts[0]
        s = 0; idx = None
        for pw, p in reversed(pieces(x, x.w)):
            if type(p) is int:
                c += (p << s) * k
            elif idx is not None: return None
            else: idx = p; sh = s; iw = pw
            s += pw
        if idx is None or iw > 12: return None
        step = (k << sh) & mask(64)
        c &= mask(64)
        name = 'tab%s:%d:%d:%d:%d' % (r.name, c, step, n, iw)
        if name not in self.tabs:
            m.prove(st, 1 if c + step * (mask(iw)) + n <= r.size else 0, 'memory', 'every index of the table lies inside it')
            tab = [orig(st, r, c + step * i, n) for i in range(1 << iw)]
            self.tabs[name] = tab
            m.stats['obl'] += len(tab); m.obl_kinds['table'] = m.obl_kinds.get('table', 0) + len(tab)
            for i in range(1 << iw):
                v = tab[0]
                for j in range(iw):
                    if (i >> j) & 1: v ^= tab[1 << j] ^ tab[0]
                if v != tab[i]:
                    f = Fail('func', 'entry %d of the checksum table at %s+%d breaks its linearity' % (i, r.tag[1], c)); f.st = st
                    self.fails.append((f.kind, f.msg, 'checksum table', True))
                    break
        return uf(name, 8 * n, idx)

    def base(self, a):
        return cat(((17, 0), (44, var('&buf', 44, 1, (1 << 43))), (3, a))) if a else None

    def mkstate(self, m, a, data=None):
        st = State()
        n = len(data) if data is not None else zext(var('len', 46, 0, (1 << 46) - 1), 46, 64)
        b = cat(((17, 0), (44, var('&buf', 44, 1, 1 << 43)), (3, a)))
        r = m.new_region(st, 'buf', n, 'buf', 1, readonly=True, base=b)
        if data is not None: st.mem['buf'].preset = ((0, dict(enumerate(data))),)
        return st, r, n

    def start(self, m, st, r, n, name):
        f = self.mod.func(name)
        if len(f.params) != 3: raise Unsupported('%s takes %d arguments' % (name, len(f.params)))
        m.push(st, f, [0, r.base, n])

    # -------------------------------------------------------- traces
    def learn(self, name):
        R = random.Random(32)
        runs = [(0, 160), (1, 167), (2, 173), (3, 241), (4, 170), (7, 335)]
        vis = []
        for a, n in runs:
            data = bytes(R.randrange(256) for _ in range(n))
            v = inv.Visits()
            m = self.machine(); m.visit = v
            res = []
            st, r, nn = self.mkstate(m, a, data)
            self.start(m, st, r, nn, name)
            m.explore(st, res.append)
            if len(res) != 1 or res[0].kind != 'ret': raise Unsupported('trace of %s' % name)
            if res[0].val != S.crc32be_fast(data):
                raise Fail('func', 'wrong checksum of %d bytes at alignment %d' % (n, a))
            vis.append((v, data, a))
        # the main loop: visited in proportion to the length in every run
        ks = [k for k in vis[0][0].n if all(v.n.get(k, 0) >= len(d) // 17 for v, d, _ in vis)]
        if not ks: raise Unsupported('no main loop in ' + name)
        ks.sort(key=lambda k: vis[0][0].first[k])
        self.header = ks[0]
        # values at the header
        self.vals = None
        self.crcphi = None; self.stride = None
        deltas = {}
        crcc = None
        for v, data, a in vis:
            rows = []
            m = self.machine()
            def visit(st, fr, lbl):
                if inv.key_of(st, lbl) == self.header: rows.append(inv.snapshot(st, lbl))
            m.visit = visit
            st, r, nn = self.mkstate(m, a, data)
            self.start(m, st, r, nn, name)
            m.explore(st, lambda o: None)
            pre = [S.crc32be_fast(data[:i]) for i in range(len(data) + 1)]
            ix = {}
            for i, x in enumerate(pre): ix.setdefault(x, i)
            xs = {}
            for i, x in enumerate(pre): xs.setdefault(bswap(x, 32), i)
            here = set()
            for s in rows[0]:
                for fm, d in (('native', ix), ('swapped', xs)):
                    if all(type(q.get(s)) is int and q[s] in d for q in rows) and all(type(q.get(s)) is int and q[s] for q in rows[1:]):
                        p = [d[q[s]] for q in rows]
                        if p[0] <= 16 and len({p[i + 1] - p[i] for i in range(len(p) - 1)}) == 1:
                            here.add((s, fm, p[1] - p[0]))
            crcc = here if crcc is None else crcc & here
            for s in rows[0]:
                ds = set()
                for q, q2 in zip(rows, rows[1:]):
                    if s not in q2: ds.add(None); continue
                    w = inv.width_of_snap(q[s], q2[s]) if False else 64
                    x, y = q[s], q2[s]
                    wv = y.w if type(y) is T else x.w if type(x) is T else None
                    d = sub(y, x, wv) if wv else y - x
                    ds.add(d if type(d) is int else None)
                deltas.setdefault(s, set()).update(ds)
        if not crcc: raise Unsupported('no loop variable of %s holds the checksum' % name)
        self.crcvars = sorted(crcc, key=str)
        self.stride = self.crcvars[0][2]
        self.delta = {s: (next(iter(d)) if len(d) == 1 else None) for s, d in deltas.items()}
        for s, fm, k in self.crcvars: self.delta[s] = ('crc', fm)

    # -------------------------------------------------------- proof
    def run(self, name, a):
        """alignment a: entry, arbitrary iteration, exits"""
        m = self.machine()
        case = '%s, start address = %d mod 8' % (name, a)
        heads = []
        m.cut = lambda mm, s, fr, lbl: inv.key_of(s, lbl) == self.header
        m.on_fail = lambda e: self.fails.append((e.kind, e.msg, case, e.model is not None))
        st, r, n = self.mkstate(m, a)
        self.r = r; self.n = n
        self.start(m, st, r, n, name)
        g = GF2(self.tabs)
        def end(o):
            try:
                if o.kind == 'cut': heads.append(o.st)
                else: self.at_ret(m, o, g, [0] * 32, 0, 17)
            except Fail as e: m.on_fail(e)
            except Halt: pass
        m.explore(st, end)
        for h in heads:
            try: self.loop(m, h, case)
            except Fail as e: m.on_fail(e)
        return self.fails, m.stats, m.obl_kinds, len(heads)

    def bytes(self, off, n):
        return [byte0('buf', add(off, j, 64)) for j in range(n)]

    def same(self, m, st, g, val, form, want, msg):
        """obligation: the 32-bit term equals the affine form"""
        m.stats['obl'] += 1
        m.obl_kinds['func'] = m.obl_kinds.get('func', 0) + 1
        try: b = g.bits(FORMS[form](val), 32)
        except NotLinear as e: raise Unsupported('checksum value is not affine: %s' % str(e)[:100])
        if b != want:
            f = Fail('func', msg); f.st = st; f.model = True
            raise f

    def at_ret(self, m, o, g, s0, pos, maxt):
        st = o.st
        if o.kind != 'ret':
            f = Fail('func', 'ends with %s' % o.kind); f.st = st
            raise f
        for t in range(maxt):
            if m.valid(st, eq(self.n, add(pos, t, 64), 64)):
                m.prove(st, 1, 'func', 'length reached')
                self.same(m, st, g, o.val, 'native', spec_advance(g, s0, self.bytes(pos, t)), 'result is the checksum of the whole buffer')
                return
        f = Fail('func', 'returns at an undetermined length'); f.st = st
        # wrong length: does some execution end here with other bytes left?
        raise f

    def loop(self, m, head, case):
        fr = head.frames[-1]
        ent = inv.snapshot(head, fr.lbl)
        g = GF2(self.tabs)
        p0 = None
        for p in range(17):
            try:
                if all(g.bits(FORMS[fm](ent[s]), 32) == spec_advance(g, [0] * 32, self.bytes(0, p)) for s, fm, _ in self.crcvars):
                    p0 = p; 
                    if m.valid(head, ule(p, self.n, 64)): break
            except NotLinear as e: raise Unsupported('checksum value is not affine: %s' % str(e)[:100])
        m.prove(head, 0 if p0 is None else 1, 'inv', 'at loop entry the checksum variable holds the checksum of a prefix')
        m.prove(head, ule(p0, self.n, 64), 'inv', 'the prefix lies inside the buffer')
        k = zext(var('k', 42, 0, (1 << 42) - 1), 42, 64)
        Sv = var('S', 32)
        pos = add(p0, mulc(k, self.stride, 64), 64)
        st = head.copy()
        st.model = None; st.fuel = 0
        f2 = st.frames[-1]
        def put(st, s, v):
            if s[0] == 'phi': st.frames[-1].env[s[1]] = v
            else: m.contents(st, [r for r in st.regs.values() if r.name == s[1]][0], True).c[s[2]] = (s[3], v)
        def val(s, w, kk, Sx):
            d = self.delta.get(s, 0)
            if d is None: return fresh('havoc', w)
            if type(d) is tuple: return FORMS[d[1]](Sx)
            return add(ent[s], mulc(trunc(kk, w) if w < 64 else kk, d & mask(w), w), w)
        for s in ent:
            w = inv.width_of(head, s, fr.lbl)
            put(st, s, val(s, w, k, Sv))
        st.assume(ule(pos, self.n, 64))
        sv = [g.atom(Sv, i) for i in range(32)]
        g.memo[Sv] = sv
        def end(o):
            try:
                if o.kind == 'cut':
                    s2 = o.st
                    now = inv.snapshot(s2, fr.lbl)
                    want = spec_advance(g, sv, self.bytes(pos, self.stride))
                    m.prove(s2, ule(add(pos, self.stride, 64), self.n, 64), 'inv', 'an iteration stays inside the buffer')
                    for s, v in now.items():
                        d = self.delta.get(s, 0)
                        if d is None: continue
                        if s not in ent:
                            raise Unsupported('loop variable appears late')
                        w = inv.width_of(s2, s, fr.lbl)
                        if type(d) is tuple:
                            self.same(m, s2, g, v, d[1], want, 'one iteration advances the checksum by its %d bytes' % self.stride)
                        else:
                            m.prove(s2, eq(v, val(s, w, add(k, 1, 64), None), w), 'inv', 'loop variable %s advances by %d' % (s[1], sgn(d, w)))
                    for fa, fb in zip(head.frames, s2.frames):
                        ph = {i.d for i in inv.phis(fb, fb.lbl)} if fb is s2.frames[-1] else ()
                        for kk, v in fa.env.items():
                            if kk not in ph and fb.env.get(kk) is not v and fb.env.get(kk) != v:
                                raise Fail('inv', 'value %s changes in the loop' % kk)
                else: self.at_ret(m, o, g, sv, pos, self.stride + 17)
            except Fail as e: m.on_fail(e)
            except Halt: pass
        m.explore(st, end)
