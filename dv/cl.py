"""Contract proof of the OpenCL kernel entry: one work item decodes exactly the
chunk it is given, by one call of decompress_core (its own contract: target
'cl'), and reports its result and length at that chunk's index only.

  requires  numChunks <= N; every given array has N elements; entries of the
            shuffle map are < N; offsets, chunk size and stride multiples of 8
  ensures   id >= numChunks: nothing is written
            otherwise, c = map[id] (or id without a map): one call
            core(in + inOffset + c*stride, ilen[c], out + outOffset + c*size, capacity olen[c]);
            olen[c] == the length it set, result[c] == its result, nothing else written
"""
from exec import *
from term import *
import itertools
from loop import *

ARR = (('ilen', 8, True), ('olen', 8, False), ('map', 8, True), ('rets', 4, False))

class Kernel:
    def __init__(self, mod, core='decompress_core', entry='decompress'):
        self.mod = mod; self.core = core; self.entry = entry; self.fails = []

    def run(self, given):
        m = Machine([self.mod])
        st = State()
        N = zext(var('N', 40), 40, 64); num = zext(var('numChunks', 40), 40, 64); gid = zext(var('gid', 40), 40, 64)
        m8 = lambda n: cat(((20, 0), (41, var(n, 41)), (3, 0)))
        ioff, ooff, size, stride = m8('inOffset'), m8('outOffset'), m8('chunkSize'), m8('chunkStride')
        st.assume(ule(num, N, 64))
        rin = m.new_region(st, 'in', 0, 'buf', 8, readonly=True); rout = m.new_region(st, 'out', 0, 'buf', 8)
        R = {}
        for n, e, ro in ARR:
            R[n] = m.new_region(st, n, mulc(N, e, 64), 'buf', e, readonly=ro) if given[n] else None
        ptr = lambda n: R[n].base if R[n] else 0
        elem = lambda n, i, e: cat([(8, byte0(n, add(mulc(i, e, 64), j, 64))) for j in range(e - 1, -1, -1)])
        if given['map']:
            c = elem('map', gid, 8)
            st.assume(ult(c, N, 64))
        else: c = gid
        const = {'verif_chunk_size': size, 'verif_chunk_stride': stride, '_Z13get_global_idj': gid}
        for k, v in const.items(): m.handlers[k] = lambda mm, s, a, ins, v=v: v
        case = 'kernel with ' + (', '.join(n for n, _, _ in ARR if given[n]) or 'no arrays')
        def h(mm, s, a, ins):
            if s.x.get('called'): raise_(mm, s, 'func', 'chunk processed twice')
            mm.prove(s, ult(gid, num, 64), 'func', 'work items beyond the count do nothing')
            mm.prove(s, eq(a[0], add(add(rin.base, ioff, 64), mul(c, stride, 64), 64), 64), 'func', 'input of chunk c is in + inOffset + c*stride')
            mm.prove(s, eq(a[1], elem('ilen', c, 8) if given['ilen'] else mask(64), 64), 'func', 'length of chunk c is ilen[c]')
            mm.prove(s, eq(a[2], add(add(rout.base, ooff, 64), mul(c, size, 64), 64), 64), 'func', 'output of chunk c is out + outOffset + c*size')
            cap = mm.do_load(s, a[3], 8, 8, 'capacity')
            mm.prove(s, eq(cap, elem('olen', c, 8) if given['olen'] else mask(64), 64), 'func', 'capacity of chunk c is olen[c]')
            mm.do_store(s, a[3], 8, var('olen_c', 64))
            s.x['called'] = 1
            return var('result', 32)
        m.handlers[self.core] = h
        m.on_fail = lambda e: self.fails.append((e.kind, e.msg, case, e.model is not None))
        f = self.mod.func(self.entry)
        if f is None: raise Unsupported('kernel %s not found' % self.entry)
        if self.mod.func(self.core) is None: raise Unsupported('function %s not found' % self.core)
        m.push(st, f, [rin.base, ioff, ptr('ilen'), rout.base, ooff, ptr('olen'), num, ptr('map'), ptr('rets')])
        def end(o):
            s = o.st
            try:
                if o.kind != 'ret': raise_(m, s, 'func', 'ends with %s' % o.kind)
                if s.mem['out'].log or s.mem['in'].log: raise_(m, s, 'frame', 'the kernel entry writes a buffer itself')
                if not s.x.get('called'):
                    m.prove(s, ule(num, gid, 64), 'func', 'every chunk of the list is decoded')
                    for n, e, ro in ARR:
                        if R[n] and s.mem[n].log: raise_(m, s, 'func', 'an idle work item writes %s' % n)
                    return
                for n, e, v in (('olen', 8, 'olen_c'), ('rets', 4, 'result')):
                    if not R[n]: continue
                    for off, k, x in s.mem[n].log:
                        m.prove(s, eq(off, mulc(c, e, 64), 64) if k == e else 0, 'func', 'only %s[c] is written' % n)
                    m.prove(s, eq(m.buf_load(s, R[n], s.mem[n], mulc(c, e, 64), e), var(v, 8 * e), 8 * e), 'olen' if n == 'olen' else 'func', '%s[c] is what the chunk reported' % n)
            except Fail as e: m.on_fail(e)
            except Halt: pass
        m.explore(st, end)
        return self.fails, m.stats, m.obl_kinds, None

def cases():
    for t in itertools.product((True, False), repeat=4):
        yield dict(zip([a[0] for a in ARR], t))
