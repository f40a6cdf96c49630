"""Contract proof of the block handlers of the two streams (16 chunks per block;
the code's own constant, explored completely, see joined.py).

decompression  requires  sizes[j] in {0 (absent), CHUNK_SIZE (uncompressed), 1..COMPRESSIBLE_THRESHOLD}
               callee    decompress_chunked: any result, any rets/olens of the chunks not marked SIZE_MAX
               ensures   absent chunks: no access; uncompressed: copied verbatim; compressed: handed to
                         decompress_chunked once with its own input, length, position and capacity;
                         true <=> result 0 and every compressed chunk has result 0 and length CHUNK_SIZE;
                         no abort
compression    callee    compress_chunked: any result, any rets/olens
               ensures   result != 0 => offset == SIZE_MAX; otherwise sizes[j] == olens[j] if
                         rets[j] == 0 and olens[j] <= COMPRESSIBLE_THRESHOLD, CHUNK_SIZE otherwise,
                         get_chunk(j) points to the matching bytes; nothing leaks or is freed twice
"""
from exec import *
from term import *
import joined
from loop import region, raise_

CS = 65536; NC = 16; TH = CS - 16 - 8; M64 = mask(64)

class Handler:
    def __init__(self, mod, which):
        self.mod = mod; self.which = which; self.fails = []; self.case = ''

    def machine(self):
        m = Machine([self.mod])
        m.on_fail = lambda e: self.fails.append((e.kind, e.msg, self.case, e.model is not None))
        m.handlers['<memcpy>'] = self.copy
        m.handlers['<indirect>'] = self.indirect
        m.handlers['aligned_alloc'] = self.alloc
        m.handlers['posix_memalign'] = None
        m.handlers['_ZNSt9bad_allocC2Ev'] = lambda mm, st, a, ins: 0
        m.handlers['_ZNSt9bad_allocC1Ev'] = lambda mm, st, a, ins: 0
        return m

    def quick(self, m, st, name, args):
        """run a driver function on st; exactly one outcome"""
        f = self.mod.func(name)
        if f is None: raise Unsupported('function %s not found' % name)
        m.cut = None
        m.push(st, f, args)
        out = []
        m.explore(st, out.append)
        if len(out) != 1 or out[0].kind != 'ret': raise Unsupported('%s: %s' % (name, [o.kind for o in out]))
        return out[0].st, out[0].val

    # -------------------------------------------------------- environment
    def setup(self, m):
        st = State()
        mod = self.mod
        offs = {}
        for n in ('compress_chunked', 'decompress_chunked', 'compress', 'decompress', 'required', 'preferred'):
            st, v = self.quick(m, st, 'verif_off_' + n, [])
            offs[n] = v
        st, ssz = self.quick(m, st, 'verif_sizeof_stream', [])
        st, bsz = self.quick(m, st, 'verif_sizeof_block', [])
        ri = m.new_region(st, 'impl', 48, 'cells', 16, readonly=True)
        c = st.mem['impl'].c
        for n, o in offs.items(): c[o] = (8, var('impl.' + n, 64))
        self.offs = offs
        rs = m.new_region(st, 'stream', ssz, 'cells', 16, readonly=True)
        seen = []
        def init(mm, s, r, off, n):
            seen.append(off)
            return var('stream+%d' % off, 8)
        st.mem['stream'].init = init
        st, _ = self.quick(m, st, 'verif_impl', [rs.base])
        if len(seen) != 8 or seen != list(range(seen[0], seen[0] + 8)): raise Unsupported('_impl842 is not a reference')
        st.mem['stream'].c[seen[0]] = (8, ri.base)
        st, p = self.quick(m, st, 'verif_ptr', [rs.base])
        self.poff = sub(p, rs.base, 64)
        if type(self.poff) is not int: raise Unsupported('_ptr')
        self.total = zext(var('total', 46), 46, 64)
        self.off = zext(var('offset', 46), 46, 64)
        st.assume(ule(add(self.off, NC * CS, 64), self.total, 64))
        rp = m.new_region(st, 'data', self.total, 'buf', 1, readonly=self.which == 'comp')
        st.mem['stream'].c[self.poff] = (8, rp.base)
        self.D = add(rp.base, self.off, 64)
        self.stream = rs.base
        rb = m.new_region(st, 'block', bsz, 'cells', 16)
        self.block = rb.base
        return st

    # -------------------------------------------------------- callees by contract
    def alloc(self, m, st, a, ins):
        if self.which == 'comp':
            al = var('alloc_fails', 1)
            t = st.truth(al)
            if t is None: raise NeedFork(al)
            if t:
                return 0
        return BUILTIN['malloc'](m, st, [a[1]], ins)

    def copy(self, m, st, a, ins):
        d, s, n, strict = a
        try: r, o = m.resolve(st, d, 'copy'); q, u = m.resolve(st, s, 'copy')
        except Fail:
            if type(n) is int and n == 0: return d
            raise
        if r.name not in ('data', 'source') and q.name not in ('data', 'source'): return NOHANDLE
        if r.name != 'data' or q.name != 'source' or self.which != 'decomp': raise_(m, st, 'func', 'copies from %s to %s' % (q.name, r.name))
        a0 = sub(d, self.D, 64)
        m.prove(st, eq(a0, u, 64), 'func', 'uncompressed data is copied to the same place of the block')
        end = add(a0, n, 64)
        m.prove(st, mk_and(ule(end, NC * CS, 64), ule(a0, end, 64)), 'memory', 'copy inside the block')
        if type(a0) is int and type(n) is int:
            for j in range(a0 // CS, (a0 + n + CS - 1) // CS):
                m.prove(st, eq(self.sz[j], CS, 64), 'func', 'only chunks marked uncompressed are copied')
        else:
            p = zext(var('p', 20), 20, 64)
            x = self.sz[NC - 1]
            for j in range(NC - 2, -1, -1): x = ite(ult(p, (j + 1) * CS, 64), self.sz[j], x, 64)
            m.prove(st, mk_or(bnot(mk_and(ule(a0, p, 64), ult(p, end, 64))), eq(x, CS, 64)), 'func', 'only chunks marked uncompressed are copied')
        st.x['copies'] = st.x.get('copies', ()) + ((1, a0, n),)
        return d

    def indirect(self, m, st, a, ins):
        want = 'decompress_chunked' if self.which == 'decomp' else 'compress_chunked'
        if len(a) != 9: raise Unsupported('indirect call with %d arguments' % (len(a) - 1))
        fp, n, rets, inp, istr, ilens, out, ostr, olens = a
        m.prove(st, eq(fp, var('impl.' + want, 64), 64), 'func', '%s is called' % want)
        if type(n) is not int:
            k = st.known.get(n)
            if k is None: raise NeedConc(n, 64)
            n = k
        if n > 64: raise_(m, st, 'func', 'call with %d chunks' % n)
        if st.x.get('called'): raise Unsupported('more than one call')
        passed = []; good = 1; outpos = {}
        for e in range(n):
            E = '%s chunk' % want
            pi = add(inp, mulc(istr, e, 64), 64); po = add(out, mulc(ostr, e, 64), 64)
            il = m.do_load(st, add(ilens, 8 * e, 64), 8, 8); ol = m.do_load(st, add(olens, 8 * e, 64), 8, 8)
            if tainted(ol) or tainted(il): m.untainted(st, il); m.untainted(st, ol)
            skip = eq(il, M64, 64)
            pos = sub(po, self.D, 64) if self.which == 'decomp' else sub(pi, self.D, 64)
            if type(pos) is not int or pos % CS or pos // CS >= NC:
                m.prove(st, skip, 'func', E + ' at a chunk position of the block'); continue
            j = pos // CS
            if j in outpos: raise_(m, st, 'func', 'chunk passed twice')
            ns = lambda c: mk_or(skip, c)
            rj = var('ret_%d' % j, 32); lj = var('len_%d' % j, 64)
            if self.which == 'decomp':
                comp = self.comp[j]
                m.prove(st, eq(skip, bnot(comp), 1), 'func', 'exactly the compressed chunks are decompressed')
                m.prove(st, ns(eq(pi, add(self.buf, mulc(self.pad, j, 64), 64), 64)), 'func', 'input of a chunk is its place in the chunk buffer')
                m.prove(st, ns(eq(il, self.sz[j], 64)), 'func', 'length of a chunk is its size')
                m.prove(st, ns(eq(ol, CS, 64)), 'func', 'capacity of a chunk is one chunk')
            else:
                m.prove(st, bnot(skip), 'func', 'every chunk is compressed')
                m.prove(st, eq(il, CS, 64), 'func', 'length of a chunk is the chunk size')
                m.prove(st, ule(TH, ol, 64), 'func', 'capacity of a chunk reaches the threshold')
                r, o = m.resolve(st, po, 'output')
                if not r.name.startswith('heap'): raise_(m, st, 'memory', 'output is not an allocated buffer')
                m.prove(st, mk_and(ule(o, r.size, 64), ule(ol, sub(r.size, o, 64), 64)), 'memory', 'output of a chunk inside the buffer')
                if e: m.prove(st, ule(ol, ostr, 64), 'memory', 'outputs of chunks do not overlap')
                st.assume(mk_or(bnot(eq(rj, 0, 32)), mk_and(ule(1, lj, 64), ule(lj, ol, 64))))
            outpos[j] = po
            ra = add(rets, 4 * e, 64); la = add(olens, 8 * e, 64)
            m.do_store(st, ra, 4, rj if skip == 0 else ite(skip, m.do_load(st, ra, 4, 4), rj, 32) if type(skip) is T else m.do_load(st, ra, 4, 4), 4)
            m.do_store(st, la, 8, ite(skip, ol, lj, 64), 8)
        st.x['called'] = 1
        st.x['outpos'] = tuple(sorted(outpos.items()))
        return var('result', 32)

    # -------------------------------------------------------- decompression
    def decomp(self, buf, src):
        self.case = 'handle_block%s%s' % ('' if buf else ', no chunk buffer', '' if src else ', no source')
        m = self.machine()
        st = self.setup(m)
        st, _ = self.quick(m, st, 'verif_block_init', [self.block])
        self.sz = [var('size_%d' % j, 64) for j in range(NC)]
        for j in range(NC):
            st, p = self.quick(m, st, 'verif_block_size', [self.block, j])
            m.do_store(st, p, 8, self.sz[j])
        self.pad = zext(var('padding', 40), 40, 64)
        rs = m.new_region(st, 'source', NC * CS, 'buf', 1, readonly=True)
        for n, v in (('offset', self.off), ('padding', self.pad), ('source', rs.base if src else 0)):
            st, p = self.quick(m, st, 'verif_block_' + n, [self.block])
            m.do_store(st, p, 8, v)
        self.buf = 0
        if buf:
            st.assume(ule(1, self.pad, 64))
            st, self.buf = self.quick(m, st, 'verif_block_alloc', [self.block, 64, self.pad])
        # allowed sizes
        self.comp = []
        for s in self.sz:
            st.assume(mk_or(ule(s, TH, 64), eq(s, CS, 64)))
            if not buf: st.assume(mk_or(eq(s, 0, 64), eq(s, CS, 64)))
            if not src: st.assume(bnot(eq(s, CS, 64)))
            self.comp.append(mk_and(bnot(eq(s, 0, 64)), bnot(eq(s, CS, 64))))
        region(st, 'block').readonly = True
        m.push(st, self.fn(), [self.stream, self.block])
        outs = [0]
        def end(o):
            s = o.st
            try:
                if o.kind != 'ret': raise_(m, s, 'func', 'the block handler ends with %s %s' % (o.kind, o.val))
                outs[0] += 1
                v = o.val
                if type(v) is T and v.w != 1: v = bnot(eq(v, 0, v.w))
                good = 1
                for j in range(NC):
                    good = mk_and(good, mk_or(bnot(self.comp[j]), mk_and(eq(var('ret_%d' % j, 32), 0, 32), eq(var('len_%d' % j, 64), CS, 64))))
                called = s.x.get('called')
                if called: good = mk_and(good, eq(var('result', 32), 0, 32))
                for j in range(NC):
                    if not called or j not in dict(s.x['outpos']):
                        m.prove(s, implies(v, bnot(self.comp[j])), 'func', 'success: every compressed chunk was decompressed')
                    cov = 0
                    p = add(zext(var('p', 16), 16, 64), j * CS, 64)
                    for g, a0, n in s.x.get('copies', ()):
                        if type(a0) is int and type(n) is int:
                            if a0 <= j * CS and a0 + n >= (j + 1) * CS: cov = mk_or(cov, g)
                            elif a0 + n > j * CS and a0 < (j + 1) * CS: cov = mk_or(cov, mk_and(g, mk_and(ule(a0, p, 64), ult(p, a0 + n, 64))))
                        else: cov = mk_or(cov, mk_and(g, mk_and(ule(a0, p, 64), ult(p, add(a0, n, 64), 64))))
                    m.prove(s, implies(mk_and(v, eq(self.sz[j], CS, 64)), cov), 'func', 'success: every uncompressed chunk was copied')
                m.prove(s, implies(v, good), 'func', 'success only if every chunk succeeded with the full length')
                m.prove(s, implies(good, v), 'func', 'failure only if a chunk failed')
            except Fail as e: m.on_fail(e)
            except Halt: pass
        joined.explore(m, st, end, guarded=('copies',))
        if not outs[0] and not self.fails: raise Unsupported('no path to the end')
        return self.fails, m.stats, m.obl_kinds, None

    def fn(self):
        f = self.mod.func('verif_handle')
        if f is None: raise Unsupported('handle_block')
        return f

    # -------------------------------------------------------- compression
    def compress(self):
        self.case = 'handle_block'
        m = self.machine()
        st = self.setup(m)
        m.push(st, self.fn(), [self.stream, self.block, self.off])
        outs = [0]
        ends = []
        joined.explore(m, st, ends.append)
        for o in ends:
            s = o.st
            try:
                if o.kind == 'throw':
                    if s.truth(var('alloc_fails', 1)) != 1: raise_(m, s, 'func', 'an exception leaves the block handler')
                    if s.x.get('live'): raise_(m, s, 'heap', 'memory is not released after an exception')
                    continue
                if o.kind != 'ret': raise_(m, s, 'func', 'the block handler ends with %s %s' % (o.kind, o.val))
                outs[0] += 1
                self.finished(m, s)
            except Fail as e: m.on_fail(e)
            except Halt: pass
        if not outs[0] and not self.fails: raise Unsupported('no path to the end')
        return self.fails, m.stats, m.obl_kinds, None

    def finished(self, m, s):
        if not s.x.get('called'): raise_(m, s, 'func', 'nothing is compressed')
        R = var('result', 32)
        rb = region(s, 'block')
        def fld(s, n):
            s, p = self.quick(m, s, 'verif_block_' + n, [self.block])
            return s, m.do_load(s, p, 8)
        s, off = fld(s, 'offset')
        m.prove(s, implies(bnot(eq(R, 0, 32)), eq(off, M64, 64)), 'func', 'a failed compression marks the block as failed')
        m.prove(s, implies(eq(R, 0, 32), eq(off, self.off, 64)), 'func', 'offset of the block')
        if m.feasible(s, eq(R, 0, 32)):
            t = s.copy()
            t.model = None
            t.assume(eq(R, 0, 32))
            outpos = dict(t.x['outpos'])
            for j in range(NC):
                if j not in outpos: raise_(m, t, 'func', 'every chunk is compressed')
                rj = var('ret_%d' % j, 32); lj = var('len_%d' % j, 64)
                comp = mk_and(eq(rj, 0, 32), ule(lj, TH, 64))
                for c in (comp, bnot(comp)):
                    if not m.feasible(t, c): continue
                    u = t.copy(); u.model = None; u.assume(c)
                    u, p = self.quick(m, u, 'verif_block_size', [self.block, j])
                    v = m.do_load(u, p, 8)
                    m.prove(u, eq(v, lj if c is comp else CS, 64), 'func', 'size of a chunk: compressed size within the threshold, otherwise the chunk size')
                    u.assume(eq(v, lj if c is comp else CS, 64))
                    if c is comp: u.assume(mk_and(bnot(eq(lj, 0, 64)), bnot(eq(lj, CS, 64))))
                    self.accessor(m, u, j, outpos[j] if c is comp else add(self.D, j * CS, 64), c is comp)
        s = s.copy()
        s, _ = self.quick(m, s, 'verif_block_done', [self.block])
        if s.x.get('live'): raise_(m, s, 'heap', 'the chunk buffer is not released with the block')

    def accessor(self, m, u, j, want, comp):
        """get_chunk(j) on this block"""
        m.cut = None
        m.push(u, self.mod.func('verif_block_chunk'), [self.block, j])
        def end(o):
            try:
                if o.kind != 'ret': raise_(m, o.st, 'func', 'get_chunk ends with %s %s' % (o.kind, o.val))
                m.prove(o.st, eq(o.val, want, 64), 'func', 'get_chunk points to the %s bytes' % ('compressed' if comp else 'source'))
                if comp:
                    r, _ = m.resolve(o.st, o.val)
                    if r.name not in o.st.x.get('live', ()): raise_(m, o.st, 'func', 'compressed bytes are already released')
            except Fail as e: m.on_fail(e)
            except Halt: pass
        m.explore(u, end)
