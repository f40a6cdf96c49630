"""Contract proof of the optimized compressor's bit writer (bitstream.cpp).

Ghost state: G bits written so far (G = 64*q + p), capacity of C = bytes/8
words.  Invariant: every field of the stream object equals its template over
(q, p, C, last p bits); bytes [0, 8q) of the buffer hold the first 64q bits.
  stream_open(buf, bytes)  G = 0, no access to buf
  stream_write_bits(v, n)  1 <= n <= 64: appends the n low bits of v; throws
                           bitstream_full_exception iff floor((G+n)/64) > C,
                           and then has not stored beyond the capacity
  stream_flush             pads with zero bits to a multiple of 64; throws iff
                           ceil(G/64) > C
  stream_size              8*q when p == 0
  stream_close             releases exactly the stream object
The fields' templates are read off concrete traces and proved inductive."""
import random
from exec import *
from term import *
import inv
from loop import region, raise_, T_, W, P

EXC = 'bitstream_full'

class G:
    """q, p (number), C words, bytes, b: base of the buffer, part: the p buffered bits (width p) or None"""
    def __init__(self, q, p, bytes_, base, part):
        self.q = q; self.p = p; self.bytes = bytes_; self.b = base; self.part = part
        self.C = lshrc(bytes_, 3, 64)

def left(g):
    if not g.p: return 0
    return cat(((g.p, g.part), (64 - g.p, 0)))
def right(g):
    if not g.p: return 0
    return zext(g.part, g.p, 64)

CANDS = [
    T_('q words', W(lambda g: g.q)),
    T_('8q', W(lambda g: mulc(g.q, 8, 64))),
    T_('buf+8q', P(lambda g: add(g.b, mulc(g.q, 8, 64), 64))),
    T_('C-q', W(lambda g: sub(g.C, g.q, 64))),
    T_('8(C-q)', W(lambda g: mulc(sub(g.C, g.q, 64), 8, 64))),
    T_('bytes-8q', W(lambda g: sub(g.bytes, mulc(g.q, 8, 64), 64))),
    T_('p', W(lambda g: g.p)),
    T_('64-p', W(lambda g: 64 - g.p)),
    T_('(64-p)%64', W(lambda g: (64 - g.p) % 64)),
    T_('G', W(lambda g: add(mulc(g.q, 64, 64), g.p, 64))),
    T_('last bits, left aligned', P(left)),
    T_('last bits, right aligned', P(right)),
]

NAMES = ('stream_open', 'stream_write_bits', 'stream_flush', 'stream_size', 'stream_close')

def find(mods, n):
    import re
    for m in mods:
        for f in m.funcs:
            if f == n or re.fullmatch(r'_Z\w*\d%s[A-Z]\w*' % n, f): return m, f
    return None, None

class Bitstream:
    def __init__(self, mods):
        self.mods = mods; self.fails = []
        self.f = {}
        for n in NAMES:
            m, f = find(mods, n)
            if m is None: raise Unsupported('function %s not found' % n)
            self.f[n] = (m, f)
        self.loose = True        # values may have bits above n

    def call(self, m, st, n, args):
        """run to the end: list of (state, outcome)"""
        mod, f = self.f[n]
        m.push(st, mod.func(f), args)
        out = []
        m.explore(st, out.append)
        return out

    def snap(self, st, s):
        r = [x for x in st.regs.values() if x.base is s][0]
        return r, {(o, n): v for o, (n, v) in st.mem[r.name].c.items()}

    def machine(self): return Machine(self.mods)

    def learn(self):
        rnd = random.Random(7)
        rows = {}; n_ = 0
        const = {}
        for run in range(3):
            m = self.machine()
            nb = [400, 403, 1000][run]
            st = State()
            rb = m.new_region(st, 'buf', nb, 'buf', 8)
            o = self.call(m, st, 'stream_open', [rb.base, nb])
            if len(o) != 1 or o[0].kind != 'ret': raise Unsupported('stream_open')
            st = o[0].st; s = o[0].val
            if type(s) is int: raise Unsupported('stream_open returns no object')
            bits = ''
            rb_ = rb
            first = None
            while True:
                q, p = divmod(len(bits), 64)
                g = G(q, p, nb, rb_.base, int(bits[-p:], 2) if p else None)
                r, d = self.snap(st, s)
                if first is None: first = d
                n_ += 1
                for k, v in d.items():
                    rows.setdefault(k, []).append((g, v))
                    if first.get(k) is not v and first.get(k) != v: const[k] = False
                if len(bits) > 64 * (nb // 8) - 70: break
                n = rnd.choice([1, 3, 5, 8, 11, 18, 32, 41, 61, 63, 64])
                v = rnd.getrandbits(n)
                o = self.call(m, st, 'stream_write_bits', [s, v, n])
                if len(o) != 1 or o[0].kind != 'ret': raise Fail('func', 'stream_write_bits fails with room left')
                st = o[0].st
                bits += format(v, '0%db' % n)
        self.size = r.size
        self.tmpl = {}
        for k, vs in rows.items():
            if len(vs) < n_: self.tmpl[k] = None; continue
            if const.get(k, True): self.tmpl[k] = 'const'; continue
            self.tmpl[k] = inv.match(k, 8 * k[1], vs, CANDS)
        return self.tmpl

    def base(self):
        """symbolic stream right after stream_open"""
        m = self.machine()
        m.on_fail = lambda e: self.fails.append((e.kind, e.msg, 'stream_open', e.model is not None))
        st = State()
        by = zext(var('bytes', 46), 46, 64)
        rb = m.new_region(st, 'buf', by, 'buf', 8)
        o = self.call(m, st, 'stream_open', [rb.base, by])
        if len(o) != 1 or o[0].kind != 'ret': raise Unsupported('stream_open')
        st = o[0].st; s = o[0].val
        if type(s) is int: raise Unsupported('stream_open returns no object')
        r = [x for x in st.regs.values() if x.base is s][0]
        if st.x.get('live') != (r.name,): raise Fail('heap', 'stream_open allocates one object')
        if st.mem['buf'].log: raise Fail('contract', 'stream_open writes the buffer')
        g = G(0, 0, by, rb.base, None)
        self.head = (st, s, r, by, rb)
        self.m0 = m
        self.check(m, st, g, 'after stream_open')
        return m

    def check(self, m, st, g, when):
        s, r, ent = self.head[1], self.head[2], self.head[0]
        for (o, n), t in self.tmpl.items():
            if t is None: continue
            v = m.load_at(st, r, o, n)
            x = m.load_at(ent, r, o, n) if t == 'const' else t.fn(g, 8 * n)
            m.prove(st, eq(v, x, 8 * n), 'inv', 'stream field at %d %s: %s' % (o, when, 'unchanged' if t == 'const' else t.name))

    def state(self, m, p):
        ent, s, r, by, rb = self.head
        st = ent.copy(); st.model = None; st.fuel = 0
        q = zext(var('q', 43), 43, 64)
        part = var('part', p) if p else None
        g = G(q, p, by, rb.base, part)
        c = m.contents(st, r, True)
        c.c = dict(c.c)
        for (o, n), t in self.tmpl.items():
            if t == 'const': continue
            c.c[o] = (n, fresh('havoc', 8 * n) if t is None else t.fn(g, 8 * n))
        st.assume(ule(q, g.C, 64))
        return st, g

    def words(self, m, st, g, stores, text):
        """stores stay in the current word up to the capacity"""
        for off, n, v in st.mem['buf'].log:
            m.prove(st, mk_and(ule(mulc(g.q, 8, 64), off, 64), ule(add(off, n, 64), mulc(g.C, 8, 64), 64)), 'memory', '%s stores between the words written and the capacity' % text)

    def write(self, p, n):
        m = self.machine(); case = 'stream_write_bits: %d buffered bits, %d new' % (p, n)
        m.on_fail = lambda e: self.fails.append((e.kind, e.msg, case, e.model is not None))
        st, g = self.state(m, p)
        low = var('val', n)
        v = low if n == 64 else cat(((64 - n, var('junk', 64 - n) if self.loose else 0), (n, low)))
        if self.find_width('stream_write_bits', 2) < 64: n_ = n
        for o in self.call(m, st, 'stream_write_bits', [self.head[1], v, n]):
            s2 = o.st
            full = mk_and(1 if p + n >= 64 else 0, eq(g.q, g.C, 64))
            try:
                if o.kind == 'throw':
                    m.prove(s2, full, 'enospc', 'a write fails only when the word does not fit')
                    if EXC not in (o.val[1] or ''): raise_(m, s2, 'contract', 'throws %s' % o.val[1])
                    self.words(m, s2, g, 0, 'failed write')
                    continue
                if o.kind != 'ret': raise_(m, s2, 'contract', 'ends with %s' % o.kind)
                m.prove(s2, bnot(full), 'enospc', 'a write that fills a word beyond the capacity fails')
                self.words(m, s2, g, 1, 'write')
                allb = (([(p, g.part)] if p else []) + [(n, low)])
                t = cat(allb)
                if p + n >= 64:
                    first = ext(t, p + n - 1, p + n - 64)
                    got = m.buf_load(s2, self.head[4], s2.mem['buf'], mulc(g.q, 8, 64), 8)
                    m.prove(s2, eq(bswap(got, 64), first, 64), 'func', 'the filled word is stored in big-endian order')
                    np = p + n - 64
                    g2 = G(add(g.q, 1, 64), np, g.bytes, g.b, ext(t, np - 1, 0) if np else None)
                else: g2 = G(g.q, p + n, g.bytes, g.b, t)
                self.check(m, s2, g2, 'after the write')
                if s2.x.get('live') != self.head[0].x.get('live'): raise_(m, s2, 'heap', 'allocates memory')
            except Fail as e: m.on_fail(e)
            except Halt: pass
        return m

    def find_width(self, n, i):
        mod, f = self.f[n]
        return 8

    def flush(self, p):
        m = self.machine(); case = 'stream_flush: %d buffered bits' % p
        m.on_fail = lambda e: self.fails.append((e.kind, e.msg, case, e.model is not None))
        st, g = self.state(m, p)
        for o in self.call(m, st, 'stream_flush', [self.head[1]]):
            s2 = o.st
            full = mk_and(1 if p else 0, eq(g.q, g.C, 64))
            try:
                if o.kind == 'throw':
                    m.prove(s2, full, 'enospc', 'the flush fails only when the last word does not fit')
                    if EXC not in (o.val[1] or ''): raise_(m, s2, 'contract', 'throws %s' % o.val[1])
                    self.words(m, s2, g, 0, 'failed flush')
                    continue
                if o.kind != 'ret': raise_(m, s2, 'contract', 'ends with %s' % o.kind)
                m.prove(s2, bnot(full), 'enospc', 'a flush beyond the capacity fails')
                self.words(m, s2, g, 1, 'flush')
                if p:
                    got = m.buf_load(s2, self.head[4], s2.mem['buf'], mulc(g.q, 8, 64), 8)
                    m.prove(s2, eq(ext(bswap(got, 64), 63, 64 - p), g.part, p), 'func', 'the last word holds the buffered bits')
                    m.prove(s2, eq(ext(bswap(got, 64), 63 - p, 0), 0, 64 - p), 'std', 'the last word is padded with zeros')
                q2 = add(g.q, 1 if p else 0, 64)
                s3 = s2.copy()
                for o3 in self.call(m, s3, 'stream_size', [self.head[1]]):
                    if o3.kind != 'ret': raise_(m, o3.st, 'contract', 'stream_size ends with %s' % o3.kind)
                    m.prove(o3.st, eq(o3.val, mulc(q2, 8, 64), 64), 'func', 'stream_size is the number of bytes written')
            except Fail as e: m.on_fail(e)
            except Halt: pass
        # close, from any state
        st, g = self.state(m, p)
        for o in self.call(m, st, 'stream_close', [self.head[1]]):
            if o.kind != 'ret': self.fails.append(('contract', 'stream_close ends with %s' % o.kind, case, False))
            elif o.st.x.get('live'): self.fails.append(('heap', 'stream_close leaves memory allocated', case, False))
            elif o.st.mem['buf'].log: self.fails.append(('contract', 'stream_close writes the buffer', case, False))
        return m
