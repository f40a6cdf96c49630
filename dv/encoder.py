"""Contract proof of an 842 compressor's loop over 8-byte blocks.

Ghost state at the loop head: M whole blocks consumed, c of them (0..63) not
yet described by the output ("pending": all equal to block M-1, which is also
the block before them), the bits emitted so far describe blocks [0, M-c).
  invariant  every variable equals its template over (M, c, in, ilen, last);
             index tables: each entry is empty or a slot s with s*k < 8M;
             ring buffers: slot s holds the k input bytes at the position the
             format resolves index s to when 8M bytes are out
  step       the bits emitted decode, by the format, to the next blocks, byte
             for byte; pending stays expressible; <= 69 bits per block
  exit       repeat (if pending), short data for the last 1..7 bytes (portable
             only), END, CRC-32 of the whole input, nothing else; then padding
The bit writer is used through its own contract (proved separately), so its
capacity never meets this code: it fails or not, and on failure the result is
-ENOSPC with length 0 and everything released."""
import random, re, time
from exec import *
from term import *
import inv, spec842 as S, solve
from loop import region, raise_, T_, W, P

ENOSPC = 28
M32 = (1 << 32) - 1

class G:
    def __init__(self, M, c, last, ilen, inb):
        self.M = M; self.c = c; self.last = last; self.ilen = ilen; self.inb = inb

def bytes_le(v):       # 8 byte terms/numbers -> 64-bit little-endian word
    return cat([(8, b) for b in reversed(v)])
def bytes_be(v): return cat([(8, b) for b in v])

CANDS = [
    T_('in+8M', P(lambda g: add(g.inb, mulc(g.M, 8, 64), 64))),
    T_('ilen-8M', W(lambda g: sub(g.ilen, mulc(g.M, 8, 64), 64))),
    T_('M', W(lambda g: g.M)),
    T_('8M', W(lambda g: mulc(g.M, 8, 64))),
    T_('ilen/8-M', W(lambda g: sub(lshrc(g.ilen, 3, 64), g.M, 64))),
    T_('c', W(lambda g: g.c)),
    T_('c!=0', lambda g, w: bnot(eq(g.c, 0, 64)) if w == 1 else (zext(bnot(eq(g.c, 0, 64)), 1, w) if w in (8, 32) else None)),
    T_('last', P(lambda g: bytes_le(g.last))),
    T_('last, big-endian', P(lambda g: bytes_be(g.last))),
    T_('in+8M-8', P(lambda g: add(g.inb, sub(mulc(g.M, 8, 64), 8, 64), 64))),
    T_('8(c)', W(lambda g: mulc(g.c, 8, 64))),
    T_('M%256', W(lambda g: zext(trunc(g.M, 8), 8, 64))),
    T_('2M%512', W(lambda g: zext(trunc(mulc(g.M, 2, 64), 9), 9, 64))),
    T_('4M%256', W(lambda g: zext(trunc(mulc(g.M, 4, 64), 8), 8, 64))),
    T_('2M', W(lambda g: mulc(g.M, 2, 64))), T_('4M', W(lambda g: mulc(g.M, 4, 64))),
    T_('M!=0', lambda g, w: bnot(eq(g.M, 0, 64)) if w == 1 else (zext(bnot(eq(g.M, 0, 64)), 1, w) if w in (8, 32) else None)),
]

def spec_off(s, n, M):
    """format: index s of size n (64-bit term) -> byte position when 8M bytes are out"""
    F = S.FIFO[n]; lg = F.bit_length() - 1
    total = mulc(M, 8, 64)
    off = mulc(s, n, 64)
    section = shlc(lshrc(total, lg, 64), lg, 64)
    pos = sub(total, section, 64)
    near = add(off, section, 64); far = add(off, sub(section, F, 64), 64)
    return ite(ult(F, total, 64), ite(ult(off, pos, 64), near, far, 64), off, 64)

def arrays_of(mod, t, off=0):
    t = mod.res(t)
    if t[0] == 'st':
        r = []
        for o, x in zip(mod.lay(t)[2], t[1]): r += arrays_of(mod, x, off + o)
        return r
    if t[0] == 'arr':
        e = mod.res(t[2])
        if t[1] >= 64 and e[0] == 'i': return [(off, mod.size(e), t[1])]
        if t[1] < 64 and e[0] in ('arr', 'st'):
            r = []
            for i in range(t[1]): r += arrays_of(mod, e, off + i * mod.size(e))
            return r
    return []

def covered(bits):
    """number of blocks described by a concrete bit string of whole templates"""
    n = 0; p = 0
    while p < len(bits):
        op = int(bits[p:p + 5], 2); p += 5
        f = S.fields(op)
        if f is None: return n
        v = []
        for w in f:
            v.append(int(bits[p:p + w] or '0', 2)); p += w
        if op == S.OP_END: return n
        n += v[0] + 1 if op == S.OP_REPEAT else 1
    return n

class Enc:
    header = None
    short = False          # portable: short data at the end, any length
    def __init__(self, mods, fname):
        self.mods = mods; self.fname = fname; self.fails = []
        self.case = ''
        self.widen = {}

    # ---- machine
    def machine(self):
        m = Machine(self.mods)
        # states pass between machines: they agree on what the globals are
        if not hasattr(self, 'globs'): self.globs = {}, {}; self.inited = {}
        m._globs, m.globregs = self.globs
        m.hpat.append((re.compile(r'.*crc32_be.*'), self.h_crc))
        m.handlers['malloc'] = self.h_malloc
        m.fork_select = True
        m.fork_all = True
        m.light = 1
        self.setup(m)
        m.on_fail = self.record
        if self.header is not None:
            m.cut = lambda mm, s, fr, lbl: inv.key_of(s, lbl) == self.header
            m.maxfuel = 4000000
        return m

    def record(self, e):
        self.fails.append((e.kind, e.msg, '%s %s' % (self.fname, self.case), e.model is not None))

    def setup(self, m): pass

    def h_malloc(self, m, st, a, ins):
        p = b_malloc(m, st, a, ins)
        if type(a[0]) is int and a[0] > 512:
            r, _ = m.resolve(st, p)
            for mod in self.mods:
                for n in list(mod.types):
                    try: t = ('named', n); sz = mod.size(t)
                    except Exception: continue
                    if sz == a[0]:
                        ar = arrays_of(mod, t)
                        if ar: r.typ = (mod, t)
        return p

    def arrs(self, st):
        """[(region, off, esz, n)] of large arrays in private memory"""
        out = []
        for r in st.regs.values():
            if r.typ is None or r.name not in st.mem: continue
            for o, e, n in arrays_of(*r.typ): out.append((r, o, e, n))
        return out

    def h_crc(self, m, st, a, ins):
        if st.x.get('trace'): return st.x['crcval']
        r, off = m.resolve(st, a[1], 'crc32_be argument')
        m.prove(st, eq(a[0], 0, 32), 'func', 'checksum starts from 0')
        m.prove(st, eq(off, 0, 64) if r.name == 'in' else 0, 'func', 'checksum covers the input from its first byte')
        m.prove(st, eq(a[2], self.ilen, 64), 'func', 'checksum covers the whole input')
        return uf('crc_in', 32)

    # ---- emitted bits
    def emit(self, m, st, n, v):
        """v: n-bit value"""
        m.untainted(st, v)
        st.x['emit'] = st.x.get('emit', ()) + ((n, v),)

    # ---- states
    def mkstate(self, m, data=None):
        st = State()
        if data is None:
            self.N = zext(var('N', 43), 43, 64)
            self.ilen = cat(((18, 0), (43, var('N', 43)), (3, var('rest', 3))))
            self.cap = var('cap', 64)
            osz = zext(trunc(self.cap, 46), 46, 64)
            n = self.ilen
        else:
            n = len(data); self.ilen = n; self.cap = 8 * n + 1000; osz = self.cap
        al = 8 if self.aligned else 1
        self.rin = m.new_region(st, 'in', n, 'buf', al, readonly=True)
        self.rout = m.new_region(st, 'out', osz, 'buf', al)
        self.rol = m.new_region(st, 'olen', 8, 'cells', 8)
        st.mem['olen'].c[0] = (8, self.cap)
        if data is not None:
            st.mem['in'].preset = ((0, dict(enumerate(data))),)
            st.x['trace'] = 1; st.x['crcval'] = S.crc32be_fast(data)
        return st

    def start(self, m, st):
        for mod in self.mods:
            f = mod.func(self.fname)
            if f is not None: break
        else: raise Unsupported('function %s not found' % self.fname)
        m.push(st, f, [self.rin.base, self.ilen, self.rout.base, self.rol.base])

    # ---- learning
    def datasets(self):
        rnd = random.Random(84)
        out = []
        for N in (150, 31, 5):
            bl = [bytes(rnd.randrange(256) for _ in range(8))]
            while len(bl) < N:
                x = rnd.random()
                if x < .15 and len(bl) > 3: bl += [bl[-1]] * rnd.choice([1, 2, 3, 7])
                elif x < .2: bl.append(bytes(8))
                elif x < .3: bl.append(bl[rnd.randrange(len(bl))])
                elif x < .5: bl.append(bl[-1][:4] + bytes(rnd.randrange(256) for _ in range(4)))
                elif x < .6: bl.append(bl[-1][4:6] + bytes(rnd.randrange(256) for _ in range(4)) + bl[0][:2])
                else: bl.append(bytes(rnd.randrange(256) for _ in range(8)))
            if N == 150: bl = bl[:60] + [bl[59]] * 70 + bl[60:N - 70]
            bl = bl[:N]
            out.append(b''.join(bl) + (bytes(rnd.randrange(256) for _ in range(3)) if self.short and N == 31 else b''))
        return out

    def trace(self, data, visit):
        m = self.machine(); m.on_fail = None; m.cut = None
        m.check_align = False
        st = self.mkstate(m, data)
        m.visit = visit
        m.maxfuel = 40000000
        self.start(m, st)
        res = []
        m.explore(st, res.append)
        if len(res) != 1: raise Unsupported('trace of %s branches' % self.fname)
        o = res[0]
        return o

    def learn(self):
        vs = []; ds = self.datasets()
        for d in ds:
            v = inv.Visits()
            o = self.trace(d, v)
            if o.kind != 'ret' or o.val != 0:
                raise Fail('func', '%s fails on ordinary input with ample capacity' % self.fname)
            vs.append(v)
        for alt in (0, 1):
            ks = inv.pick_header(vs, [len(d) // 8 + 1 - alt for d in ds])
            ks.sort(key=len)
            if ks: break
        else: raise Unsupported('no per-block loop found in ' + self.fname)
        self.header = ks[0]; self.alt = alt
        rows = {}; ws = {}; nv = [0]; const = {}; roles = {}
        for d in ds:
            j = [0]; first = {}
            def visit(st, fr, lbl):
                if inv.key_of(st, lbl) != self.header: return
                M = j[0]
                em = st.x.get('emit', ())
                bits = ''.join(format(v, '0%db' % n) for n, v in em)
                c = M - covered(bits)
                g = G(M, c, list(d[8 * M - 8:8 * M]) if M else [0] * 8, len(d), self.rin.base)
                ar = self.arrs(st)
                if M < 12 or M % 16 == 1 or 130 < M < 134: self.roles(st, ar, roles, M, d)
                for s, v in self.snapshot(st, lbl, ar).items():
                    if s not in ws: ws[s] = inv.width_of(st, s, lbl)
                    if M == 0: first[s] = v
                    elif not (first.get(s) is v or inv.same(first.get(s), v)): const[s] = False
                    if M: rows.setdefault(s, []).append((g, v))
                if M: nv[0] += 1
                j[0] += 1
            self.trace(d, visit)
        self.tmpl = {}
        self.ranges = {}
        for s, vals in rows.items():
            if len(vals) < nv[0]: self.tmpl[s] = None; continue
            if const.get(s, True): self.tmpl[s] = 'const'; continue
            t = self.tmpl[s] = inv.match(s, ws[s], vals, CANDS)
            if t is None and all(type(v) is int for _, v in vals):
                bl = max(v for _, v in vals).bit_length()
                if bl < ws[s] - 1: self.ranges[s] = bl
        self.ws = ws
        self.roles_ = {k: (r[0] if r else None) for k, r in roles.items()}
        return self.tmpl

    def snapshot(self, st, lbl, ar):
        d = inv.snapshot(st, lbl)
        ex = {}
        for r, o, e, n in ar: ex.setdefault(r.name, []).append((o, o + e * n))
        if ex: d = {s: v for s, v in d.items() if s[0] != 'mem' or not any(a <= s[2] < b for a, b in ex.get(s[1], ()))}
        return self.snap_filter(st, d)

    def snap_filter(self, st, d): return d

    def roles(self, st, ar, roles, M, data):
        for r, o, e, n in ar:
            key = (r.name, o, e, n)
            cells = st.mem[r.name].c
            vals = {}
            for i in range(n):
                x = cells.get(o + e * i)
                if x is not None: vals[i] = x[1] if x[0] == e else '?'
            if key not in roles:
                roles[key] = [('fifo', k) for k in (2, 4, 8) if e == k and n == S.FIFO[k] // k] + [('index', k) for k in (8, 2, 4)]
            keep = []
            for role, k in roles[key]:
                if role == 'fifo':
                    ok = all(vals.get(s) == int.from_bytes(data[S.resolve(s, k, 8 * M):][:k], 'big') for s in range(min(n, 8 * M // k)))
                else:
                    none = (1 << 8 * e) - 1
                    ok = len(vals) == n and all(type(v) is int and (v == none or (v < S.FIFO[k] // k and v * k < 8 * M)) for v in vals.values())
                if ok: keep.append((role, k))
            roles[key] = keep

    # ---- symbolic states
    def install(self, m, st, M, entry):
        """turn the large arrays into symbolic arrays described by their roles"""
        for r, o, e, n in self.arrs(st):
            mm = m.contents(st, r, True)
            key = (r.name, o, e, n)
            role = self.roles_.get(key)
            old = {off: mm.c.pop(off) for off in list(mm.c) if o <= off < o + e * n}
            if entry and role and role[0] == 'index':
                none = (1 << 8 * e) - 1
                for i in range(n):
                    x = old.get(o + e * i)
                    if x is None or x[0] != e or x[1] != none:
                        raise_(m, st, 'inv', 'index table at +%d is empty before the first block' % o)
            if entry:
                # was every element written before the loop?
                self.inited[key] = sum(x[0] for x in old.values()) >= e * n and not any(tainted(x[1]) for x in old.values())
            a = Arr('%s+%d' % (r.name, o), o, e, n, self.elem(role, e, n, M, ('' if self.inited.get(key) else 'unwritten_') + '%s+%d' % (r.name, o)))
            mm.arrays = tuple(x for x in mm.arrays if x.off != o) + (a,)

    def elem(self, role, e, n, M, name):
        w = 8 * e
        if role is None:
            return lambda m, st, a, i: sel(name, i, w)
        k = role[1]
        sb = (S.FIFO[k] // k).bit_length() - 1
        if role[0] == 'index':
            name = name.replace('unwritten_', '')
            def f(m, st, a, i):
                none = (1 << w) - 1
                if type(M) is int and M == 0: return none
                neg = sel('empty_' + name, i, 1)
                s = sel('slot_' + name, i, sb)
                t = st.truth(neg)
                if t is None: raise NeedFork(neg)
                if t: return none
                c = ult(mulc(zext(s, sb, 64), k, 64), mulc(M, 8, 64), 64)
                if st.truth(c) is None:
                    st.model = None
                    st.assume(c)
                return zext(s, sb, w)
            return f
        def f(m, st, a, i):
            if type(M) is int and M == 0: return sel(name, i, w)
            ok = ult(mulc(i, k, 64), mulc(M, 8, 64), 64)
            if not m.valid(st, ok):
                if m.valid(st, bnot(ok)): return sel(name, i, w)
                raise NeedFork(ok)
            off = spec_off(i, k, M)
            return cat([(8, byte0('in', add(off, j, 64))) for j in range(k)])
        return f

    def entry(self, m):
        """from the function's start to the loop head (M = 0) or to a return"""
        st = self.mkstate(m)
        heads = []
        self.start(m, st)
        self.case = 'before the first block'
        def end(o):
            try:
                if o.kind == 'cut': heads.append(o.st)
                else: self.finish(m, o, 0, 0)
            except Fail as e: m.on_fail(e)
            except Halt: pass
        m.explore(st, end)
        for h in heads:
            if h.x.get('emit'): raise_(m, h, 'inv', 'nothing is emitted before the loop')
            if h.x.get('failed'): raise_(m, h, 'inv', 'bit writer failed before the loop')
        return heads

    def generic(self, m, head, M, c):
        """arbitrary loop state with M >= 1 blocks consumed"""
        st = head.copy(); st.model = None; st.fuel = 0
        g = self.ghost(M, c)
        fr = st.frames[-1]
        ent = self.snapshot(head, fr.lbl, self.arrs(head))
        for s in list(ent) + [s for s in self.tmpl if s not in ent and s[0] == 'mem' and s[1] in st.mem]:
            t = self.tmpl.get(s, 'const')
            if t == 'const': continue
            w = inv.width_of(head, s, fr.lbl) if s in ent else self.ws[s]
            if t is None:
                b = self.ranges.get(s)
                e = ent.get(s)
                v = inv.havoc(e, w) if b is None else zext(inv.havoc(e, b), b, w) if b else 0
            else: v = t.fn(g, w)
            if s[0] == 'phi': fr.env[s[1]] = v
            else: m.contents(st, region(st, s[1]), True).c[s[2]] = (s[3], v)
        self.install(m, st, M, False)
        st.assume(ule(1, M, 64)); st.assume(ule(M, self.N, 64)); st.assume(ult(c, M, 64))
        self.abstract(m, st, M)
        return st

    def abstract(self, m, st, M): pass

    def block(self, M): return [byte0('in', add(mulc(M, 8, 64), j, 64)) for j in range(8)]

    def ghost(self, M, c):
        last = [byte0('in', add(mulc(M, 8, 64), j - 8 & mask(64), 64)) for j in range(8)]
        return G(M, c, last, self.ilen, self.rin.base)

    # ---- obligations
    def const_of(self, m, st, t, w, what):
        if type(t) is int: return t
        k = st.known.get(t)
        if k is not None: return k
        r, mod = check(st.pc)
        if r == 'unsat': raise Halt('infeasible')
        v = mval(mod, t)
        if m.valid(st, eq(t, v, w)): return v
        raise_(m, st, 'contract', '%s is not determined on this path' % what)

    def same_bytes(self, m, st, a, b, kind, msg):
        for x, y in zip(a, b): m.prove(st, eq(x, y, 8), kind, msg)

    def parse(self, m, st, M, c, cur, tail=False):
        """decode the emitted bits; returns pending count after them and whether block M is described"""
        em = st.x.get('emit', ())
        tot = sum(n for n, _ in em)
        rem = c; done = False; end = False; short = False
        cov = 0
        last = self.ghost(M, c).last
        allb = cat(em) if em else 0
        p = [0]
        def take(n, what):
            if p[0] + n > tot: raise_(m, st, 'func', 'incomplete template (%s)' % what)
            v = ext(allb, tot - p[0] - 1, tot - p[0] - n)
            p[0] += n
            return v
        blk = self.block(M) if cur else None
        while p[0] < tot:
            if end: raise_(m, st, 'func', 'bits after the CRC')
            op = self.const_of(m, st, take(5, 'template'), 5, 'template')
            if op == S.OP_REPEAT:
                r = add(zext(take(6, 'repeat count'), 6, 64), 1, 64)
                if m.valid(st, ule(r, rem, 64)): rem = sub(rem, r, 64)
                elif cur and not done and type(M) is T and m.valid(st, eq(r, add(rem, 1, 64), 64)):
                    self.same_bytes(m, st, blk, last, 'func', 'a repeated block equals the block before it')
                    rem = 0; done = True
                else:
                    m.prove(st, ule(r, rem, 64), 'func', 'repeat count covers pending blocks only')
                cov = add(cov, r, 64)
                continue
            if op == S.OP_END:
                m.prove(st, eq(rem, 0, 64), 'func', 'no pending blocks at the end template')
                if not tail: raise_(m, st, 'func', 'end template inside the data')
                if cur and not done: raise_(m, st, 'func', 'end template before the last block')
                m.prove(st, eq(take(32, 'CRC'), uf('crc_in', 32), 32), 'func', 'CRC field is the checksum of the input')
                end = True
                continue
            m.prove(st, eq(rem, 0, 64), 'func', 'pending repeats are emitted before other data')
            if op == S.OP_SHORT and tail and (not cur or done) and not short:
                n = self.const_of(m, st, take(3, 'short data length'), 3, 'short data length')
                m.prove(st, eq(trunc(self.ilen, 3), n, 3), 'func', 'short data holds exactly the rest of the input')
                if not n: raise_(m, st, 'std', 'empty short data')
                if not self.short: raise_(m, st, 'std', 'short data is not a standard template')
                for j in range(n):
                    m.prove(st, eq(take(8, 'short data'), byte0('in', add(mulc(M + 1 if cur and type(M) is int else add(M, int(cur), 64), 8, 64), j, 64)), 8), 'func', 'short data byte %d' % j)
                short = True
                continue
            if op == S.OP_SHORT: raise_(m, st, 'std', 'short data used for a whole block')
            if not cur or done or short: raise_(m, st, 'func', 'template %#x describes no block' % op)
            if op == S.OP_ZEROS:
                self.same_bytes(m, st, blk, [0] * 8, 'func', 'zeros template for a block of zeros')
            elif op < 26:
                o = 0
                for k, n in S.TEMPLATES[op]:
                    if k == 'D':
                        v = take(8 * n, 'data')
                        for j in range(n):
                            m.prove(st, eq(ext(v, 8 * (n - j) - 1, 8 * (n - j) - 8), blk[o + j], 8), 'func', 'data field of template %#x at byte %d' % (op, o))
                    else:
                        i = zext(take(S.IBITS[n], 'index'), S.IBITS[n], 64)
                        off = spec_off(i, n, M)
                        self.earlier(m, st, i, off, n, M, 'index field of template %#x at byte %d refers to earlier output' % (op, o))
                        for j in range(n):
                            m.prove(st, eq(byte0('in', add(off, j, 64)), blk[o + j], 8), 'func', 'index field of template %#x at byte %d refers to equal data' % (op, o))
                    o += n
            else: raise_(m, st, 'func', 'undefined template %#x' % op)
            done = True; cov = add(cov, 1, 64)
        if not tail and tot:
            m.prove(st, ule(tot, mulc(cov, 69, 64), 64), 'std', 'at most 69 bits per block')
        return rem, short if tail else done, end

    def back_edge(self, m, head, st, M, c):
        N = self.N
        m.prove(st, ult(M, N, 64), 'func', 'only whole blocks of the input are processed')
        rem, done, _ = self.parse(m, st, M, c, True)
        c2 = rem if done else add(rem, 1, 64)
        if not (type(c2) is int and c2 == 0) and not done:
            # block M stays pending
            if type(M) is int: raise_(m, st, 'func', 'the first block is not described')
            self.same_bytes(m, st, self.block(M), self.ghost(M, c).last, 'func', 'a pending block equals the block before it')
        m.prove(st, ule(c2, 63, 64), 'func', 'pending blocks fit a repeat count')
        if type(M) is int: M2 = M + 1
        else: M2 = add(M, 1, 64)
        g2 = self.ghost(M2, c2)
        self.check_head(m, head, st, g2)

    def check_head(self, m, head, st, g2):
        fr = st.frames[-1]
        now = self.snapshot(st, fr.lbl, self.arrs(st))
        ent = head.x.get('snap')
        if ent is None: ent = head.x['snap'] = self.snapshot(head, head.frames[-1].lbl, self.arrs(head))
        for s, t in self.tmpl.items():
            if s not in now:
                if t is None or s[0] != 'mem' or s[1] not in st.mem: continue
                v = m.load_at(st, region(st, s[1]), s[2], s[3])
            else: v = now[s]
            w = self.ws[s]
            if t is None:
                b = self.ranges.get(s)
                if b is not None and rng(v)[1] > mask(b):
                    # inferred range too narrow: widened, and the loop is explored again
                    self.widen[s] = max(self.widen.get(s, 0), rng(v)[1].bit_length())
                if tainted(v) and ent.get(s) is not None and not tainted(ent[s]): m.state_fail(st, v)
                continue
            x = ent.get(s) if t == 'const' else t.fn(g2, w)
            if x is None: continue
            m.prove(st, eq(v, x, w), 'inv', 'loop invariant: %s == %s' % (s[1] if s[0] == 'phi' else '%s+%d' % s[1:3], 'its value at loop entry' if t == 'const' else t.name))
        for s, v in now.items():
            if s in self.tmpl or s not in ent: continue
            if v is not ent[s] and v != ent[s]:
                m.prove(st, eq(v, ent[s], inv.width_of(st, s, fr.lbl)), 'inv', 'loop invariant: %s unchanged' % (s,))
        for r, o, e, n in self.arrs(st):
            key = (r.name, o, e, n)
            role = self.roles_.get(key)
            if role is None: continue
            a = [x for x in st.mem[r.name].arrays if x.off == o][0]
            self.check_array(m, st, a, role, g2.M)
        for fa, fb in zip(head.frames, st.frames):
            if fa.lbl != fb.lbl or fa.f is not fb.f: raise_(m, st, 'inv', 'call stack differs at the back edge')
            ph = {i.d for i in inv.phis(fb, fb.lbl)} if fb is st.frames[-1] else ()
            for k, v in fa.env.items():
                if k in ph or not self.islive(fb, k): continue
                u = fb.env.get(k)
                if u is not v and u != v: raise_(m, st, 'inv', 'value %s changes in the loop' % k)
        if sorted(st.x.get('live', ())) != sorted(head.x.get('live', ())): raise_(m, st, 'heap', 'memory allocated or released inside the loop')

    def check_array(self, m, st, a, role, M2):
        k = role[1]; w = 8 * a.esz
        for i, v in a.log:
            m.untainted(st, (i, v))
        if role[0] == 'index':
            none = (1 << w) - 1
            for i, v in a.log:
                ok = mk_or(eq(v, none, w), mk_and(ult(v, S.FIFO[k] // k, w), ult(mulc(zext(v, w, 64), k, 64), mulc(M2, 8, 64), 64)))
                m.prove(st, ok, 'inv', 'entry stored in the index table at +%d is a slot of data already seen' % a.off)
            return
        # ring buffer: arbitrary slot holding data
        new = spec_new(M2, k)
        log = {}
        for i, v in a.log: log[canon(i, 64)] = v
        exp = dict(new)
        fast = len(log) == len(exp) and all(i in log and same(log[i], v) for i, v in exp.items())
        if fast:
            m.stats['obl'] += len(exp); m.stats['syn'] += len(exp)
            m.obl_kinds['inv'] = m.obl_kinds.get('inv', 0) + len(exp)
            self.ring_lemma(m, k, M2)
            return
        sb = (S.FIFO[k] // k).bit_length() - 1
        s = zext(var('slot_any', sb), sb, 64)
        c = ult(mulc(s, k, 64), mulc(M2, 8, 64), 64)
        r = region(st, a.name.rsplit('+', 1)[0])
        st = st.copy(); st.model = None
        if not m.feasible(st, c): return
        st.model = None
        st.assume(c)
        work = [st]
        while work:
            q = work.pop()
            try:
                mm = m.contents(q, r, True)
                b = [x for x in mm.arrays if x.off == a.off][0]
                v = m.arr_load(q, r, mm, b, mulc(s, k, 64), k)
            except NeedFork as f:
                if m.fork(q, f.cond, work) is not None: work.append(q)
                continue
            off = spec_off(s, k, M2)
            m.prove(q, eq(v, cat([(8, byte0('in', add(off, j, 64))) for j in range(k)]), 8 * k), 'inv', 'ring buffer at +%d: every slot holds the data its index refers to' % a.off)

    lemmas = {}
    def earlier(self, m, st, i, off, n, M, msg):
        c = ult(mulc(i, n, 64), mulc(M, 8, 64), 64)
        if type(M) is T and m.valid(st, c) and self.index_lemma(m, n):
            m.stats['obl'] += 1
            m.obl_kinds['func'] = m.obl_kinds.get('func', 0) + 1
            return
        m.prove(st, ule(add(off, n, 64), mulc(M, 8, 64), 64), 'func', msg)

    def index_lemma(self, m, n):
        """a slot holding data (s*n < 8M) is resolved to n bytes of earlier output (pure lemma, proved once)"""
        r = self.lemmas.get(('idx', n))
        if r is None:
            M = zext(var('M', 43), 43, 64)
            s = zext(var('slot_any', S.IBITS[n]), S.IBITS[n], 64)
            pc = [ule(1, M, 64), ult(mulc(s, n, 64), mulc(M, 8, 64), 64)]
            m.stats['obl'] += 1
            r = check(pc + [bnot(ule(add(spec_off(s, n, M), n, 64), mulc(M, 8, 64), 64))])[0] == 'unsat'
            self.lemmas['idx', n] = r
        return r

    def ring_lemma(self, m, k, M2):
        """writing the slots of block M and nothing else keeps the ring invariant (pure lemma, proved once)"""
        if type(M2) is int or (k,) in self.lemmas: return
        M = sub(M2, 1, 64)
        sb = (S.FIFO[k] // k).bit_length() - 1
        s = zext(var('slot_any', sb), sb, 64)
        pc = [ule(1, M2, 64), ule(M2, 1 << 43, 64), ult(mulc(s, k, 64), mulc(M2, 8, 64), 64)]
        new = spec_new(M2, k)
        isnew = []
        for j, (i, v) in enumerate(new):
            e = eq(s, i, 64)
            isnew.append(e)
            m.stats['obl'] += 1
            r, _ = check(pc + [e, bnot(eq(spec_off(s, k, M2), add(mulc(M, 8, 64), j * k, 64), 64))])
            if r != 'unsat': raise Fail('inv', 'ring buffer lemma for new slots of size %d' % k)
        m.stats['obl'] += 2
        old = pc + [bnot(e) for e in isnew]
        r, _ = check(old + [bnot(mk_and(ult(mulc(s, k, 64), mulc(M, 8, 64), 64), eq(spec_off(s, k, M2), spec_off(s, k, M), 64)))])
        if r != 'unsat': raise Fail('inv', 'ring buffer lemma for kept slots of size %d' % k)
        self.lemmas[k,] = 1

    # ---- end of the function
    def finish(self, m, o, M, c, inloop=False):
        st = o.st
        if o.kind != 'ret': raise_(m, st, 'func', 'ends with %s' % (o.kind,))
        ol = m.load_at(st, self.rol, 0, 8)
        if st.x.get('live'): raise_(m, st, 'heap', 'memory is not released (%s)' % ', '.join(st.x['live']))
        if st.x.get('failed'):
            m.prove(st, eq(o.val, -ENOSPC & M32, 32), 'enospc', 'a stream that does not fit gives the no-space error')
            m.prove(st, eq(ol, 0, 64), 'errlen', 'length is 0 on error')
            return
        neg = slt(o.val, 0, 32)
        if type(neg) is int and neg or (type(neg) is T and m.valid(st, neg)):
            m.prove(st, bnot(eq(trunc(self.ilen, 3), 0, 3)) if not self.short else 0, 'enospc', 'accepted input is only refused for lack of space')
            m.prove(st, bnot(eq(o.val, -ENOSPC & M32, 32)), 'enospc', 'no-space error only when the stream does not fit')
            m.prove(st, eq(ol, 0, 64), 'errlen', 'length is 0 on error')
            return
        m.prove(st, eq(o.val, 0, 32), 'func', 'result is 0 on success')
        cur = bool(self.alt) and inloop
        m.prove(st, eq(self.N, add(M, 1, 64) if cur else M, 64), 'func', 'success only after the whole input')
        if not self.short: m.prove(st, eq(trunc(self.ilen, 3), 0, 3), 'func', 'only whole blocks are accepted')
        rem, done, end = self.parse(m, st, M, c, cur, tail=True)
        if not end: raise_(m, st, 'func', 'no end template')
        if not done: m.prove(st, eq(trunc(self.ilen, 3), 0, 3), 'func', 'the last bytes are described')
        self.finish_stream(m, st, ol)

    def tail_bits(self, st): return sum(n for n, _ in st.x.get('emit', ()))

    # ---- exploration
    def step(self, m, head, st, M, c, work=None):
        st.x = dict(st.x); st.x['emit'] = (); st.x['M'] = M
        self.begin(m, head, M, c)
        return st

    def begin(self, m, head, M, c):
        self.case = 'first block' if type(M) is int else 'block M'
        def end(o):
            try:
                if o.kind == 'cut':
                    if o.st.x.get('failed') and not self.lazy_failure: raise_(m, o.st, 'enospc', 'goes on after the bit writer failed')
                    if self.alt:
                        # bottom-tested loop: the head is passed with M+1 blocks started
                        pass
                    self.back_edge(m, head, o.st, M, c)
                else: self.finish_any(m, head, o, M, c)
            except Fail as e:
                if e.st is None: e.st = o.st
                m.on_fail(e)
            except Halt: pass
        self.end = end

    def roots(self, m, head, M, c):
        h0 = head.copy()
        self.install(m, h0, 0, True)
        out = [(self.step(m, head, h0, 0, 0), 0, 0, head)]
        if m.feasible(head, ule(1, self.N, 64)):
            out.append((self.step(m, head, self.generic(m, head, M, c), M, c), M, c, head))
        return out

    def islive(self, fr, k): return True

    def prove_all(self, res, pool):
        """entry, first block, arbitrary block, exits; pool(fn, tasks) explores in parallel"""
        self.learn()
        for rnd in range(12):
            self.fails = []; self.widen = {}; self.seen = set()
            import exec as ex_
            ex_._failed.clear()
            m = self.machine()
            heads = self.entry(m)
            if not heads or len(heads) > 4: raise Unsupported('%s: %d loop entries' % (self.fname, len(heads)))
            M = zext(var('M', 43), 43, 64); c = zext(var('c', 6), 6, 64)
            work = []
            for head in heads:
                work += self.roots(m, head, M, c)
            out = []
            while work and len(work) < self.width:
                st, M_, c_, head = work.pop(0)
                self.one(m, head, st, M_, c_, out)
                work += [(q, M_, c_, head) for q in out]; del out[:]
                if len(self.fails) > 40: break
            st0 = dict(m.stats); k0 = dict(m.obl_kinds); f0 = self.fails
            if rnd < 5 and not f0 and self.ranges:
                # some complete paths first: cheap way to see that inferred ranges are too narrow
                rnd_ = random.Random(rnd)
                seen, self.seen = self.seen, None
                save = m.on_fail; m.on_fail = lambda e: None
                for _ in range(150):
                    st, M_, c_, head = rnd_.choice(work)
                    st = st.copy()
                    while st is not None:
                        del out[:]
                        self.one(m, head, st, M_, c_, out)
                        st = rnd_.choice(out) if out and rnd_.random() < .8 else None
                m.on_fail = save; del out[:]
                self.seen = seen
                ex_._failed.clear()
                if self.widen:
                    self.ranges.update(self.widen)
                    continue
            self.widened = dict(self.widen)
            def task(i):
                self.fails = []; self.widen = {}
                mm = self.machine()
                st, M_, c_, head = work[i]
                todo = [st]
                t0 = time.time()
                while todo:
                    self.one(mm, head, todo.pop(), M_, c_, todo)
                    if len(self.fails) > 40 or (self.fails or f0) and time.time() - t0 > 30:
                        mm.stats['stopped'] = 1
                        break
                return self.fails, mm.stats, mm.obl_kinds, self.widen
            fails, ex = pool(task, list(range(len(work))), rnd)
            for w in ex:
                for s, b in (w or {}).items(): self.widened[s] = max(b, self.widened.get(s, 0))
            if fails or f0 or not self.widened: break
            self.ranges.update(self.widened)
        return f0, st0, k0

    def one(self, m, head, st, M, c, work):
        self.begin(m, head, M, c)
        o = m.run1(st, work)
        if o is not None: self.end(o)

    lazy_failure = False
    width = 300
    seen = None

    def finish_any(self, m, head, o, M, c):
        self.finish(m, o, M, c, True)

def spec_new(M2, k):
    """[(slot, value)] of the k-byte pieces of block M2-1"""
    M = M2 - 1 if type(M2) is int else sub(M2, 1, 64)
    n = S.FIFO[k] // k; sb = n.bit_length() - 1
    out = []
    for j in range(8 // k):
        s = add(mulc(M, 8 // k, 64), j, 64)
        i = canon(zext(trunc(s, sb), sb, 64), 64)
        out.append((i, cat([(8, byte0('in', add(mulc(M, 8, 64), j * k + b, 64))) for b in range(k)])))
    return out

def same(a, b):
    return a is b or (type(a) is int and a == b) or inv.same(a, b)

class Opt(Enc):
    aligned = True
    EXC = '_ZTI24bitstream_full_exception'
    def setup(self, m):
        self.loose = getattr(self, 'loose', True)
        pat = lambda n: re.compile(r'(_Z\w*\d)?%s([A-Z]\w*)?' % n)
        m.hpat.append((pat('stream_open'), self.h_open))
        m.hpat.append((pat('stream_write_bits'), self.h_write))
        m.hpat.append((pat('stream_flush'), self.h_flush))
        m.hpat.append((pat('stream_size'), self.h_size))
        m.hpat.append((pat('stream_close'), self.h_close))
        m.catches = lambda h, t: h is None or h == t

    def h_open(self, m, st, a, ins):
        if st.x.get('stream'): raise_(m, st, 'contract', 'stream opened twice')
        m.prove(st, eq(a[0], self.rout.base, 64), 'func', 'the stream is written to the output buffer')
        m.prove(st, eq(a[1], self.cap, 64), 'enospc', 'the stream has the capacity given by the caller')
        r = m.new_region(st, 'bitstream', 64, 'cells', 16)
        st.x['live'] = st.x.get('live', ()) + (r.name,)
        st.x['stream'] = r.base
        return r.base

    def isstream(self, m, st, p):
        if st.x.get('stream') is not p: raise_(m, st, 'contract', 'not the open stream')
        if 'bitstream' not in st.x.get('live', ()): raise_(m, st, 'memory', 'stream used after close')

    def full(self, m, st):
        """fork: the write does not fit; returns the exception then"""
        if st.x.get('trace'): return None
        k = st.x.get('nw', 0)
        c = var('full!%d' % k, 1)
        t = st.truth(c)
        if t is None: raise NeedFork(c)
        st.x['nw'] = k + 1
        if t:
            if st.x.get('failed'): raise_(m, st, 'contract', 'bit writer used after it failed')
            st.x['failed'] = 1
            r = m.new_region(st, 'exc', 16, 'cells', 16)
            return Throw(r.base, self.EXC)

    def h_write(self, m, st, a, ins):
        self.isstream(m, st, a[0])
        n = a[2]
        if type(n) is T:
            k = st.known.get(n)
            if k is None: raise NeedConc(n, 8)
            n = k
        if not 1 <= n <= 64: raise_(m, st, 'contract', 'writes %d bits at once' % n)
        if not self.loose: m.prove(st, ule(a[1], mask(n), 64), 'contract', 'value has only the bits written')
        t = self.full(m, st)
        if t is not None: return t
        if st.x.get('flushed'): raise_(m, st, 'func', 'bits written after the flush')
        self.emit(m, st, n, trunc(a[1], n))
        return 0

    def h_flush(self, m, st, a, ins):
        self.isstream(m, st, a[0])
        t = self.full(m, st)
        if t is not None: return t
        st.x['flushed'] = st.x.get('flushed', 0) + 1
        return 0

    def h_size(self, m, st, a, ins):
        self.isstream(m, st, a[0])
        if st.x.get('trace'): return 8
        if not st.x.get('flushed'): raise_(m, st, 'func', 'size is taken before the flush')
        return uf('padded_size', 64)

    def h_close(self, m, st, a, ins):
        self.isstream(m, st, a[0])
        st.x['live'] = tuple(x for x in st.x['live'] if x != 'bitstream')
        return 0

    def finish_stream(self, m, st, ol):
        if st.x.get('flushed') != 1: raise_(m, st, 'func', 'the stream is not flushed')
        m.prove(st, eq(ol, uf('padded_size', 64), 64), 'func', 'reported length is the size of the padded stream')
        for c in st.pc:
            if mentions(c, self.cap): raise_(m, st, 'enospc', 'the decision depends on the capacity')

def mentions(t, v):
    seen = set(); stack = [t]
    while stack:
        x = stack.pop()
        if x is v: return True
        if x in seen: continue
        seen.add(x)
        stack += solve.kids(x) if x.op != 'ext' else [x.a[0]]
    return False
