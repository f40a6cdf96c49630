"""Contract proof of the sequential chunked entry points.

  callee    simple(in, ilen, out, olen*) : any 32-bit result, writes *olen only
            (its own contract is the property of the simple function)
  loop      at the head of iteration k: index == k, offsets == k*stride mod 2^64,
            ret == first hard error of chunks < k (ghost R)
  step      chunk k skipped: no call, rets[k] and olens[k] untouched
            otherwise: exactly one call simple(in + k*istride, ilens[k],
            out + k*ostride, &olens[k]), rets[k] == its result
  ensures   k == numchunks on return, result == R
"""
from exec import *
from term import *
import inv, random
from loop import *

ENOSPC = 28
NOSP = (1 << 32) - ENOSPC

class G:
    def __init__(self, k, num, istr, ostr, b): self.k = k; self.num = num; self.istr = istr; self.ostr = ostr; self.b = b

CANDS = [
    T_('k', W(lambda g: g.k)),
    T_('num-k', W(lambda g: sub(g.num, g.k, 64))),
    T_('k*istride', W(lambda g: mul(g.k, g.istr, 64))),
    T_('k*ostride', W(lambda g: mul(g.k, g.ostr, 64))),
    T_('in+k*istride', P(lambda g: add(g.b['in'], mul(g.k, g.istr, 64), 64))),
    T_('out+k*ostride', P(lambda g: add(g.b['out'], mul(g.k, g.ostr, 64), 64))),
    T_('rets+4k', P(lambda g: add(g.b['rets'], mulc(g.k, 4, 64), 64))),
    T_('ilens+8k', P(lambda g: add(g.b['ilens'], mulc(g.k, 8, 64), 64))),
    T_('olens+8k', P(lambda g: add(g.b['olens'], mulc(g.k, 8, 64), 64))),
]

class Chunked:
    def __init__(self, mod, fname, simple):
        self.mod = mod; self.fname = fname; self.simple = simple; self.fails = []

    def machine(self, handler):
        m = Machine([self.mod])
        m.handlers[self.simple] = handler
        return m

    def regs(self, m, st, num):
        R = {}
        for n, e, ro in (('in', 0, True), ('out', 0, False), ('rets', 4, False), ('ilens', 8, True), ('olens', 8, False)):
            R[n] = m.new_region(st, n, mulc(num, e, 64) if e else 0, 'buf', max(e, 1), readonly=ro)
        return R

    def start(self, m, st, R, num, istr, ostr):
        f = self.mod.func(self.fname)
        if f is None: raise Unsupported('function %s not found' % self.fname)
        m.push(st, f, [num, R['rets'].base, R['in'].base, istr, R['ilens'].base, R['out'].base, ostr, R['olens'].base])

    def learn(self):
        rnd = random.Random(11)
        runs = []; counts = []
        for num in (3, 5, 6):
            istr = rnd.randrange(1 << 40); ostr = rnd.randrange(1 << 40)
            lens = [rnd.randrange(1 << 30) for _ in range(num)]
            res = [(1 << 32) - 22 if i == 1 else 0 for i in range(num)]
            ex = {}
            def run(visit, num=num, istr=istr, ostr=ostr, lens=lens, res=res, ex=ex):
                c = [0]
                def h(m, st, a, ins):
                    c[0] += 1
                    return res[c[0] - 1]
                m = self.machine(h)
                m.visit = visit
                st = State()
                R = self.regs(m, st, num)
                ex['b'] = {n: r.base for n, r in R.items()}
                st.mem['ilens'].preset = ((0, {i: (lens[i // 8] >> (8 * (i % 8))) & 255 for i in range(8 * num)}),)
                self.start(m, st, R, num, istr, ostr)
                out = []
                m.explore(st, out.append)
                if len(out) != 1 or out[0].kind != 'ret': raise Unsupported('trace of ' + self.fname)
            runs.append((run, lambda j, num=num, istr=istr, ostr=ostr, ex=ex: G(j, num, istr, ostr, ex['b'])))
            counts.append((num + 1, num))
        self.loop = Loop(self.fname).learn(runs, CANDS, counts)
        # the variable that accumulates the result: i32, without template
        self.acc = [s for s, t in self.loop.tmpl.items() if t is None]

    def handler(self, m, st, a, ins):
        g = st.x.get('g')
        if g is None: raise_(m, st, 'func', 'call before the loop')
        if len(a) != 4: raise Unsupported('call with %d arguments' % len(a))
        if st.x.get('called'): raise_(m, st, 'func', 'chunk processed twice')
        b = g.b
        m.prove(st, eq(a[0], add(b['in'], mul(g.k, g.istr, 64), 64), 64), 'func', 'input of chunk k is in + k*istride')
        m.prove(st, eq(a[1], self.len_k(g), 64), 'func', 'length of chunk k is ilens[k]')
        m.prove(st, eq(a[2], add(b['out'], mul(g.k, g.ostr, 64), 64), 64), 'func', 'output of chunk k is out + k*ostride')
        m.prove(st, eq(a[3], add(b['olens'], mulc(g.k, 8, 64), 64), 64), 'func', 'capacity and length of chunk k are in olens[k]')
        r = var('result', 32)
        m.do_store(st, a[3], 8, var('olen_k', 64))
        st.x['called'] = 1
        return r

    def len_k(self, g):
        o = mulc(g.k, 8, 64)
        return cat([(8, byte0('ilens', add(o, j, 64))) for j in range(7, -1, -1)])

    def run(self):
        self.learn()
        m = self.machine(self.handler)
        num = zext(var('num', 40), 40, 64); istr = var('istride', 64); ostr = var('ostride', 64)
        heads = []
        m.cut = lambda mm, s, fr, lbl: self.loop.at(s, lbl)
        case = ['entry']
        m.on_fail = lambda e: self.fails.append((e.kind, e.msg, '%s %s' % (self.fname, case[0]), e.model is not None))
        st = State()
        R = self.regs(m, st, num)
        b = {n: r.base for n, r in R.items()}
        self.start(m, st, R, num, istr, ostr)
        def end(o):
            try:
                if o.kind == 'cut': heads.append(o.st); return
                if o.kind != 'ret': raise_(m, o.st, 'func', 'ends with %s' % o.kind)
                m.prove(o.st, eq(num, 0, 64), 'func', 'returns early only without chunks')
                m.prove(o.st, eq(o.val, 0, 32), 'func', 'no chunk: success')
            except Fail as e: m.on_fail(e)
            except Halt: pass
        m.explore(st, end)
        for h in heads:
            case[0] = 'loop entry'
            try:
                self.loop.check(m, h, h, G(0, num, istr, ostr, b), skip=self.acc)
                for s in self.acc:
                    m.prove(h, eq(inv.snapshot(h, h.frames[-1].lbl).get(s, 0), 0, 32), 'inv', 'no error before the first chunk')
                case[0] = 'chunk k'
                self.step(m, h, num, istr, ostr, b)
            except Fail as e: m.on_fail(e)
            except Halt: pass
        if not heads: raise Unsupported('loop of %s not reached' % self.fname)
        return self.fails, m.stats, m.obl_kinds, len(heads)

    def step(self, m, head, num, istr, ostr, b):
        k = zext(var('k', 40), 40, 64)
        Rv = var('R', 32)
        g = G(k, num, istr, ostr, b)
        st = self.loop.havoc(m, head, g)
        st.x = dict(st.x); st.x['g'] = g
        for s in self.acc:
            if inv.width_of(head, s, head.frames[-1].lbl) == 32: self.loop.put(m, st, s, Rv)
        post = self.loop.alt == 1
        st.assume(ult(k, num, 64) if post else ule(k, num, 64))
        for rn in ('rets', 'olens'): st.mem[rn] = Buf(st.tok, rn)
        lk = self.len_k(g)
        skip = eq(lk, mask(64), 64)
        def ghost(st):
            """(R after this chunk)"""
            c = st.x.get('called')
            if not c: return Rv
            r = var('result', 32)
            hard = mk_and(bnot(eq(r, 0, 32)), bnot(eq(r, NOSP, 32)))
            return ite(mk_and(eq(Rv, 0, 32), hard), r, Rv, 32)
        def body(st):
            """obligations about the processing of chunk k"""
            c = st.x.get('called')
            wr = {n: st.mem[n].log for n in ('rets', 'olens', 'in', 'out')}
            if not c:
                m.prove(st, skip, 'func', 'only chunks marked with SIZE_MAX are skipped')
                if any(wr.values()): raise_(m, st, 'func', 'a skipped chunk is written')
                return
            m.prove(st, bnot(skip), 'func', 'chunks marked with SIZE_MAX are not processed')
            for off, n, v in wr['rets']:
                m.prove(st, eq(off, mulc(k, 4, 64), 64) if n == 4 else 0, 'func', 'only rets[k] is written')
            m.prove(st, eq(m.buf_load(st, region(st, 'rets'), st.mem['rets'], mulc(k, 4, 64), 4), var('result', 32), 32), 'func', 'rets[k] is the result of chunk k')
            for off, n, v in wr['olens']:
                m.prove(st, eq(off, mulc(k, 8, 64), 64) if n == 8 else 0, 'func', 'only olens[k] is written')
            m.prove(st, eq(m.buf_load(st, region(st, 'olens'), st.mem['olens'], mulc(k, 8, 64), 8), var('olen_k', 64), 64), 'func', 'olens[k] is the length reported for chunk k')
        def end(o):
            st = o.st
            try:
                if o.kind == 'cut':
                    m.prove(st, ult(k, num, 64), 'func', 'a chunk beyond the count is processed')
                    body(st)
                    g2 = G(add(k, 1, 64), num, istr, ostr, b)
                    self.loop.check(m, head, st, g2, skip=self.acc)
                    now = inv.snapshot(st, st.frames[-1].lbl)
                    for s in self.acc:
                        if inv.width_of(head, s, head.frames[-1].lbl) == 32:
                            m.prove(st, eq(now[s], ghost(st), 32), 'func', 'the result keeps the first error other than no-space')
                elif o.kind == 'ret':
                    if post: body(st)
                    elif st.x.get('called'): raise_(m, st, 'func', 'leaves the loop in the middle')
                    m.prove(st, eq(add(k, 1 if post else 0, 64), num, 64), 'func', 'returns after all chunks')
                    m.prove(st, eq(o.val, ghost(st), 32), 'func', 'returns the first error other than no-space')
                else: raise_(m, st, 'func', 'ends with %s' % o.kind)
            except Fail as e: m.on_fail(e)
            except Halt: pass
        m.explore(st, end)

class Align:
    """the optimized entry points on unaligned buffers: exactly one call of the
    portable function with the same arguments, its result returned, no access"""
    def __init__(self, mod, fname, simple, lencheck):
        self.mod = mod; self.fname = fname; self.simple = simple; self.lencheck = lencheck; self.fails = []
    def run(self, ai, ao):
        m = Machine([self.mod])
        st = State()
        ilen = zext(var('ilen', 46), 46, 64); cap = var('cap', 64)
        base = lambda n, a: cat(((17, 0), (44, var('&' + n, 44, 1, 1 << 43)), (3, a)))
        ri = m.new_region(st, 'in', 0, 'buf', 1, readonly=True, base=base('in', ai))
        ro = m.new_region(st, 'out', 0, 'buf', 1, base=base('out', ao))
        rl = m.new_region(st, 'olen', 8, 'cells', 8)
        st.mem['olen'].c[0] = (8, cap)
        def h(mm, s, a, ins):
            if s.x.get('called'): raise_(mm, s, 'func', 'portable function called twice')
            for x, y, n in zip(a, (ri.base, ilen, ro.base, rl.base), ('input', 'length', 'output', 'capacity pointer')):
                mm.prove(s, eq(x, y, 64), 'func', '%s passed on unchanged' % n)
            mm.prove(s, eq(mm.load_at(s, rl, 0, 8), cap, 64), 'func', 'capacity unchanged at the call')
            s.x['called'] = 1
            mm.store_at(s, rl, 0, 8, var('olen2', 64))
            return var('result', 32)
        m.handlers[self.simple] = h
        case = '%s, input %d and output %d mod 8' % (self.fname, ai, ao)
        m.on_fail = lambda e: self.fails.append((e.kind, e.msg, case, e.model is not None))
        f = self.mod.func(self.fname)
        if f is None: raise Unsupported('function %s not found' % self.fname)
        m.push(st, f, [ri.base, ilen, ro.base, rl.base])
        def end(o):
            s = o.st
            try:
                if o.kind != 'ret': raise_(m, s, 'func', 'ends with %s' % o.kind)
                ol = m.load_at(s, rl, 0, 8)
                if s.x.get('live'): raise_(m, s, 'heap', 'memory is not released')
                if s.x.get('called'):
                    if self.lencheck: m.prove(s, eq(trunc(ilen, 3), 0, 3), 'func', 'accepts only whole 8-byte blocks')
                    m.prove(s, eq(o.val, var('result', 32), 32), 'func', 'returns the portable result')
                    m.prove(s, eq(ol, var('olen2', 64), 64), 'func', 'keeps the portable length')
                else:
                    if not self.lencheck: raise_(m, s, 'func', 'the portable function is not called')
                    m.prove(s, bnot(eq(trunc(ilen, 3), 0, 3)), 'func', 'the portable function is called for whole 8-byte blocks')
                    m.prove(s, mk_and(slt(o.val, 0, 32), eq(ol, 0, 64)), 'func', 'rejected length: error and length 0')
            except Fail as e: m.on_fail(e)
            except Halt: pass
        m.explore(st, end)
        return self.fails, m.stats, m.obl_kinds, None
