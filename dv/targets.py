"""Proof targets: each runs the obligations of one group of functions and
returns a result dictionary.  Nothing is cached between runs."""
import time, os, sys, json, hashlib
import solve, par, front, ir
from exec import Unsupported, Fail, Halt
import decoder
from term import *

class Result:
    def __init__(self, target):
        self.r = {'target': target, 'functions': [], 'kinds': {}, 'obligations': 0, 'syntactic': 0, 'cases': 0,
                  'paths': 0, 'queries': 0, 'solver_s': 0.0, 'cpu_s': 0.0, 'fails': [], 'unsupported': [], 'assumptions': [],
                  'lia': 0, 'contracts': []}
        self.t0 = time.time()
    def contract(self, *c): self.r['contracts'] += c
    def stats(self, ms, kinds, q):
        self.r['obligations'] += ms.get('obl', 0); self.r['syntactic'] += ms.get('syn', 0)
        self.r['paths'] += ms.get('paths', 0)
        for k, v in kinds.items(): self.r['kinds'][k] = self.r['kinds'].get(k, 0) + v
        self.r['queries'] += q.get('queries', 0); self.r['solver_s'] += q.get('time', 0); self.r['lia'] += q.get('lia', 0)
    def fails(self, fs):
        for f in fs: self.r['fails'].append(list(f))
    def unsup(self, m): self.r['unsupported'].append(m)
    def functions(self, *fs):
        for f in fs:
            if f not in self.r['functions']: self.r['functions'].append(f)
    def done(self):
        self.r['wall_s'] = round(time.time() - self.t0, 2)
        self.r['solver_s'] = round(self.r['solver_s'], 2)
        self.r['cpu_s'] = round(self.r['cpu_s'], 2)
        return self.r

def qdiff(q0): return {k: solve.stats[k] - q0.get(k, 0) for k in solve.stats}

def pool(res, fn, tasks, name):
    """fn(task) -> (fails, machine stats, kinds, extra)"""
    def work(t):
        q0 = dict(solve.stats)
        try:
            f, ms, kd, ex = fn(t)
            return f, ms, kd, qdiff(q0), ex, None
        except (Unsupported, NotImplementedError, solve.Unknown, ir.IRError) as e:
            return [], {}, {}, qdiff(q0), None, '%s: %s' % (type(e).__name__, e)
    extra = []
    first = None
    for task, r, dt, err in par.run(work, tasks, DEADLINE[0]):
        if first is not None and time.time() > first + PATIENCE:
            res.r['stopped'] = '%s: stopped %d s after the first failure' % (name, PATIENCE)
            break
        if err:
            if err == 'timeout':
                res.unsup('%s: time budget used up' % name)
                break
            res.unsup('%s %s: %s' % (name, task, err.strip().splitlines()[-1]))
            if os.environ.get('DV_DEBUG'): print(err, file=sys.stderr)
            continue
        f, ms, kd, q, ex, uns = r
        res.r['cpu_s'] += dt
        if uns:
            res.unsup('%s %s: %s' % (name, task, uns)); continue
        res.r['cases'] += 1
        res.stats(ms, kd, q); res.fails(f)
        if ms.get('stopped'): res.r['stopped'] = '%s: stopped after failures' % name
        if (f or ms.get('stopped')) and first is None: first = time.time()
        extra.append((task, ex))
    return extra

DEADLINE = [None]
PATIENCE = 60

def fnhash(mod, name):
    f = mod.funcs.get(name)
    return hashlib.sha256('\n'.join(f.src[1]).encode()).hexdigest()[:12] if f else None

def weight(t):
    op = t[1]
    return -(sum(1 for k, _ in decoder.S.TEMPLATES[op] if k == 'I') if op < 26 else 0)

def run_decoder(res, D, residues):
    try:
        D.learn()
        m0 = D.machine()
        heads = D.entry(m0)
    except Fail as e:
        res.fails([(e.kind, e.msg, 'entry', e.model is not None)] + D.fails)
        return
    res.stats(m0.stats, m0.obl_kinds, {})
    res.fails(D.fails)
    res.r['cases'] += 1
    if not heads:
        res.unsup('%s: no loop entry' % D.name); return
    res.r['invariants'] = {str(s): (t if t in ('const', None) else t.name) for s, t in D.tmpl.items()}
    # loop entry establishes the invariant at G = L = 0
    try:
        g0 = D.symghost(0, 0, 0); g0.byte = lambda off: byte0('in', off)
        head = D.merged(heads)
        for h in heads: D.check_head(m0, head, h, g0)
    except Fail as e:
        if len(heads) > 1 and e.kind == 'inv': res.unsup('loop entries: ' + e.msg)
        else: res.fails([(e.kind, e.msg, 'loop entry', e.model is not None)])
        return
    modular = D.has_reader(m0, head)
    nph = 64 if D.need64 else 8
    def step(t):
        D.fails = []; D.rdcalls = set()
        m = D.machine()
        if t[0] == 'rd':
            m.handlers[D.READER] = None
            D.reader_case(m, head, *t[1:])
        else: D.run_case(m, head, *t)
        return D.fails, m.stats, m.obl_kinds, D.rdcalls
    if modular:
        mark = (len(res.r['fails']), len(res.r['unsupported']))
        tasks = [(None, op, s, r) for r in residues for op, s in D.all_cases()]
        tasks.sort(key=weight)
        ex = pool(res, step, tasks, D.name)
        calls = set()
        for _, c in ex: calls |= c or set()
        ex = pool(res, step, [('rd', ph, n, r, o) for ph in range(8) for r, o, n in sorted(calls)], D.name)
        res.contract('bit reader %s: state at bit G -> next n bits and state at G+n, or a negative error at the end of input (n in %s)' % (D.READER, sorted({c[2] for c in calls})))
        if not res.r['fails'] and not res.r['unsupported']: return
        if all(f[0] in ('memory', 'enospc', 'errlen', 'bounds', 'olen', 'align') for f in res.r['fails']) and not res.r['unsupported']: return
        # maybe only the modular contract does not fit the code: decide with everything inlined
        first = res.r['fails'][mark[0]:], res.r['unsupported'][mark[1]:]
        res.r['fails'] = res.r['fails'][:mark[0]]; res.r['unsupported'] = res.r['unsupported'][:mark[1]]
        res.r['modular_failed'] = [first[0][:5], first[1][:5]]
    tasks = [(ph, op, s, r) for r in residues for ph in range(nph) for op, s in D.all_cases()]
    tasks.sort(key=weight)
    pool(res, step, tasks, D.name)

DEC_ASSUME = [
    'input and output buffers are separate objects of the stated sizes (below 2^46 bytes each); *olen is a separate readable and writable size_t',
    'crc32_be is replaced by its contract (proved under C10)',
    'fprintf/printf have no effect on the program state',
]

def swdec(tier):
    res = Result('sw842_decompress')
    m = front.module('src/serial/842_decompress.c')
    D = decoder.Decoder('sw842_decompress', [m], lambda mm: m.func('sw842_decompress'), capmax=decoder.M32)
    res.functions('sw842_decompress', 'next_bits', '__split_next_bits', 'do_data', 'do_index', '__do_index', 'do_op')
    res.contract('sw842_decompress: loop invariant over (bits consumed, bytes produced), step and exit contract against the format')
    res.r['assumptions'] += DEC_ASSUME
    run_decoder(res, D, range(8))
    return res.done()

def optdec(tier):
    res = Result('optsw842_decompress')
    m = front.module('src/serial_optimized/842_decompress.cpp')
    D = decoder.Decoder('optsw842_decompress', [m], lambda mm: m.func('optsw842_decompress'), short=False, wordlimit=True)
    D.aligned = True
    res.functions('optsw842_decompress', 'read_bits', 'read_word', 'get_index', 'do_data/do_index (templates)')
    res.contract('optsw842_decompress: loop invariant over (bits consumed, bytes produced, word buffer), step and exit contract against the format')
    res.r['assumptions'] += DEC_ASSUME
    run_decoder(res, D, [0])
    return res.done()

def cltarget(tier):
    res = Result('OpenCL decompression kernel')
    m = front.cl_module()
    D = decoder.Decoder('decompress_core', [m], lambda mm: m.func('decompress_core'), short=False, wordlimit=True, crc='unchecked')
    D.aligned = True; D.words = True
    res.functions('decompress_core', 'read_bits', 'get_index', 'do_op')
    res.contract('decompress_core: loop invariant over (bits consumed, bytes produced, word buffer, look-ahead words), step and exit contract against the format, the checksum being read but not compared')
    res.r['assumptions'] += ['input chunk and output chunk are separate objects (below 2^46 bytes); *olen is a separate readable and writable size_t',
        'the kernel is compiled by clang for this machine (address spaces dropped); the OpenCL compiler, its options other than -D and the host code that enqueues the kernel are not covered',
        'arrays passed to the kernel have as many elements as chunks, map entries are chunk numbers; without a length or capacity array the kernel has no limit to check']
    run_decoder(res, D, [0])
    import cl
    pool(res, lambda g: cl.Kernel(m).run(g), list(cl.cases()), 'kernel')
    res.functions('decompress (kernel entry)')
    res.contract('decompress: work item -> chunk c (shuffle map), one call of decompress_core with the buffers, length and capacity of chunk c, result and length stored at index c only')
    return res.done()

def crctarget(tier):
    import crc
    res = Result('crc32_be')
    srcs = ['src/serial/842_compress.c', 'src/serial/842_decompress.c', 'src/serial_optimized/842_compress.cpp', 'src/serial_optimized/842_decompress.cpp']
    mods = {s: front.module(s) for s in srcs}
    tasks = []
    learned = {}
    for s in srcs:
        c = crc.Crc(mods[s])
        if not c.entries: res.unsup('%s: no crc32_be' % s)
        for n in c.entries:
            res.functions('%s: %s' % (s, n))
            try: c.learn(n)
            except Fail as e:
                res.fails([(e.kind, e.msg, s, True)] + c.fails[:3]); continue
            learned[s, n] = c
            res.r['cases'] += 1
            tasks += [(s, n, a) for a in range(8)]
    def one(t):
        c = learned[t[0], t[1]]; c.fails = []; c.tabs = {}
        f, ms, kd, nh = c.run(t[1], t[2])
        return f, ms, kd, nh
    ex = pool(res, one, tasks, 'crc32_be')
    if not any(x for _, x in ex) and tasks: res.unsup('main loop never reached')
    res.contract('crc32_be: requires crc == 0; ensures result == bitwise CRC-32 (0x04C11DB7, msb first, init 0, no inversion) of buf[0..len); reads only buf[0..len)')
    res.r['assumptions'] += ['buffers below 2^46 bytes', 'little-endian target (the big-endian variant of the macros is not compiled here)']
    return res.done()

SOFT = ('src/serial/842_compress.c', 'src/serial/842_decompress.c', 'src/serial_optimized/842_compress.cpp', 'src/serial_optimized/842_decompress.cpp')

def where(mods, f):
    for s, m in mods.items():
        if f in m.funcs: return s
    raise Unsupported('function %s not found' % f)

def chunkedtarget(tier):
    import chunked
    res = Result('chunked entry points')
    mods = {s: front.module(s) for s in SOFT}
    tasks = [(where(mods, f), f, f[:-8]) for f in ('sw842_compress_chunked', 'sw842_decompress_chunked', 'optsw842_compress_chunked', 'optsw842_decompress_chunked')]
    pool(res, lambda t: chunked.Chunked(mods[t[0]], t[1], t[2]).run(), tasks, 'chunked')
    for t in tasks: res.functions('%s: %s' % (t[0], t[1]))
    res.contract('chunked loop invariant: index k, offsets k*stride mod 2^64, result == first error other than -ENOSPC of chunks < k; callee by contract (any result, writes only *olen)')
    res.r['assumptions'] += ['rets, ilens and olens are separate arrays of numchunks elements (below 2^40)']
    return res.done()

def aligntarget(tier):
    import chunked
    res = Result('unaligned fallback')
    ms = {s: front.module(s) for s in SOFT}
    mods = {f: ms[where(ms, f)] for f in ('optsw842_compress', 'optsw842_decompress')}
    tasks = [(f, i, o) for f in mods for i in range(8) for o in range(8) if i or o]
    pool(res, lambda t: chunked.Align(mods[t[0]], t[0], t[0][3:], t[0] == 'optsw842_compress').run(t[1], t[2]), tasks, 'align')
    res.functions('optsw842_compress', 'optsw842_decompress')
    res.contract('unaligned in or out: exactly one call of the portable function with the same arguments and untouched *olen, its result and length returned, no access to the buffers, nothing allocated')
    return res.done()

def encoder_steps(res, E, name):
    def run_pool(fn, tasks, rnd):
        mark = len(res.r['fails'])
        ex = pool(res, lambda i: fn(i), tasks, '%s loop, round %d' % (name, rnd))
        return res.r['fails'][mark:], [x for _, x in ex]
    try: f, ms, kd = E.prove_all(res, run_pool)
    except Fail as e:
        res.fails([(e.kind, e.msg, E.case or 'entry', e.model is not None)] + E.fails)
        return
    res.fails(f)
    res.stats(ms, kd, {})
    res.r['invariants'] = {str(s): (t if t in ('const', None) else t.name) for s, t in E.tmpl.items()}
    res.r['tables'] = {str(k): str(v) for k, v in E.roles_.items()}

ENC_ASSUME = [
    'input and output buffers are separate objects (below 2^46 bytes each); *olen is a separate readable and writable size_t',
    'malloc succeeds',
    'crc32_be is replaced by its contract (proved under C10)',
    'fprintf/printf have no effect on the program state',
]

def optenc(tier):
    import bitstream, encoder
    res = Result('optsw842_compress')
    mods = [front.module('src/serial_optimized/842_compress.cpp'), front.module('src/serial_optimized/bitstream.cpp')]
    for loose in (True, False):
        mark = len(res.r['fails']), len(res.r['unsupported'])
        B = bitstream.Bitstream(mods); B.loose = loose
        try:
            B.learn()
            m0 = B.base()
        except Fail as e:
            res.fails([(e.kind, e.msg, 'stream_open', e.model is not None)]); return res.done()
        res.stats(m0.stats, m0.obl_kinds, {}); res.fails(B.fails)
        def one(p):
            B.fails = []; st = {}; kd = {}
            for n in range(0, 65):
                m = B.write(p, n) if n else B.flush(p)
                for k, v in m.stats.items(): st[k] = st.get(k, 0) + v
                for k, v in m.obl_kinds.items(): kd[k] = kd.get(k, 0) + v
                if len(B.fails) > 20: break
            return B.fails, st, kd, None
        pool(res, one, list(range(64)), 'bit writer')
        if not loose or len(res.r['fails']) == mark[0]: break
        # the writer may rely on its callers masking the value
        res.r['fails'] = res.r['fails'][:mark[0]]
    res.functions(*['bitstream.cpp: ' + n for n in bitstream.NAMES])
    res.contract('bit writer: after writes of n1, n2, .. bits the buffer and object hold exactly those bits; a write throws iff a completed 64-bit word would exceed the capacity; flush pads with zeros to 64 bits; close releases the object; values may have bits above n: %s' % loose)
    E = encoder.Opt(mods, 'optsw842_compress')
    E.loose = loose
    encoder_steps(res, E, 'optsw842_compress')
    res.functions('optsw842_compress', 'process_next', 'find_index', 'get_template', 'add_template<0..25>', 'update_hashtables', 'hash', 'get_next_data', 'add_repeat_template', 'add_zeros_template', 'add_end_template')
    res.contract('optsw842_compress: loop invariant over (blocks consumed, pending repeats); emitted bits decode to the consumed blocks; index tables and ring buffers valid; exit contract (repeat, end, CRC, flush, -ENOSPC iff the writer fails, *olen, heap)')
    res.r['assumptions'] += ENC_ASSUME
    return res.done()

SW_ASSUME = [
    'uthash/utlist macros behave as documented (used through contracts over ghost tables, dv/stub): find/add/delete by key, append/delete/search/count, safe iteration; their memory stays inside the nodes they are given',
    'an index table entry that is filed twice under equal keys in one block is one node (keys are compared as values)',
]

def swenc(tier):
    import swenc as sw
    res = Result('sw842_compress')
    here = os.path.dirname(os.path.abspath(__file__))
    mods = [front.module('src/serial/842_compress.c', extra_inc=(here + '/stub',))]
    E = sw.Sw(mods, 'sw842_compress')
    encoder_steps(res, E, 'sw842_compress')
    if getattr(E, 'wcells', None):
        def one(t):
            A = sw.AddBits(E)
            m = A.run(*t)
            return A.fails, m.stats, m.obl_kinds, None
        pool(res, one, [(b, n) for b in range(8) for n in range(1, 65)], 'add_bits')
        res.r['bit writer'] = {str(k): t.name for k, t in E.wcells.items()}
    res.functions('sw842_compress', 'add_bits', '__split_add_bits', 'add_template', 'add_repeat_template', 'add_short_data_template', 'add_zeros_template', 'add_end_template', 'check_template', 'get_next_data', 'update_hashtables', 'process_next', 'destroy_hashtable (macro)')
    res.contract('add_bits(p, d, n), 1 <= n <= 64, d < 2^n: appends the n bits and advances p, or fails with -ENOSPC iff they do not fit; stores only from the current byte up to the capacity; changes no other field')
    res.contract('sw842_compress: loop invariant over (blocks consumed, pending repeats, bits emitted) and, per hash table, present(i) => key(i) == node array[i] and slot i holds data; emitted bits decode to the consumed blocks; exit contract (repeat, short data, end, CRC, padding, -ENOSPC, *olen); every node and element released')
    res.r['assumptions'] += ENC_ASSUME + SW_ASSUME
    return res.done()

STR_ASSUME = ['the chunked functions are called through their contract: any result, any rets and olens, writes only to those arrays and to the outputs of the chunks not marked SIZE_MAX',
    'the handler is decided for one block as a sequential function; the worker threads, queue and callbacks around it are not part of the contract (bounded cross-check only)',
    'private members are reached by including the source file itself behind "#define private public"']

def strdec(tier):
    import stream
    res = Result('DataDecompressionStream')
    m = front.stream_module('decomp')
    pool(res, lambda c: stream.Handler(m, 'decomp').decomp(*c), [(b, s) for b in (1, 0) for s in (1, 0)], 'handle_block')
    res.functions('DataDecompressionStream::handle_block', 'Block::get_chunk', 'Block::get_chunk_buffer', 'Block::allocate_buffer')
    res.contract('handle_block: absent chunks untouched, uncompressed chunks copied verbatim to their place, compressed chunks given to decompress_chunked once with their input, length, place and capacity; true iff the call and every compressed chunk succeeded with the full length; no abort')
    res.r['assumptions'] += STR_ASSUME + ['sizes of a block are 0, CHUNK_SIZE or at most COMPRESSIBLE_THRESHOLD; the destination has BLOCK_SIZE bytes at the offset, the source (if any) BLOCK_SIZE bytes']
    return res.done()

def strcomp(tier):
    import stream
    res = Result('DataCompressionStream')
    m = front.stream_module('comp')
    pool(res, lambda c: stream.Handler(m, 'comp').compress(), [()], 'handle_block')
    res.functions('DataCompressionStream::handle_block', 'Block::allocate_buffer', 'Block::release_buffer', 'Block::get_chunk', 'Block::~Block')
    res.contract('handle_block: failed call => offset SIZE_MAX; otherwise sizes[j] is the compressed size iff the chunk succeeded within the threshold, CHUNK_SIZE otherwise, get_chunk(j) points to the matching live bytes; the buffer is released with the block')
    res.r['assumptions'] += STR_ASSUME + ['a successful compression has a length of at least 1 and within the capacity']
    return res.done()

def hwtarget(tier):
    import hw
    res = Result('cryptodev backend')
    m = front.hw_module()
    limit = hw.Hw(m).limit()
    m0 = front.hw_module(('VERIF_NO_SESSINFO',))
    def one(c):
        if c[3]: return hw.Hw(m).run(*c[:3])
        h = hw.Hw(m0)
        h.note = ', no CIOCGSESSINFO'
        return h.run(*c[:3])
    pool(res, one, [c + (1,) for c in hw.cases(m, limit)] + [(f, n, 0, 0) for f in hw.ENTRY for n in (1, 2) if n == 1 or hw.ENTRY[f][0]], 'cryptodev')
    res.functions(*hw.ENTRY, 'c842_compress_chunked', 'c842_compress', 'is_pointer_aligned', 'get_thread_cryptodev_ctx', 'create_thread_ctx_key', 'c842_ctx_init', 'c842_ctx_deinit')
    res.contract('a request goes to the device iff count, totals, lengths and alignment fit it, with the caller\'s buffers, totals, lengths, capacities and result array; otherwise, and on any failure, an error; output lengths copied back, skipped chunks unchanged')
    res.r['assumptions'] += ['the header of the kernel module is not available: dv/stub/crypto/cryptodev.h stands in for it (fields and widths as the code uses them, at most %d chunks per request)' % limit,
        'device by contract: CIOCCRYPT fails, or sets the result and length of every chunk not marked UINT32_MAX and leaves the others alone; alignment masks are 2^k - 1, k <= 16; errno is positive after a failure',
        'rets, ilens, olens are separate arrays of numchunks elements; one thread (call_once and tss_* by their contracts)']
    return res.done()

def threadstarget(tier):
    import threads
    sys.setrecursionlimit(20000)
    res = Result('streams')
    mods = {k: front.thread_module(k) for k in ('comp', 'decomp')}
    S = {k: threads.Stream(m, f, k) for k, (m, f) in mods.items()}
    def one(c):
        k, what, args = c[0], c[1], c[2:]
        s = threads.Stream(*mods[k], k)
        if what == 'monitor': return threads.Monitor(s, *args).run()
        s.sites = sites[k]
        return getattr(s, what)(*args)
    sites = {'comp': {}, 'decomp': {}}
    lo = S['comp'].BS.bit_length() - 1
    W = [('comp', 'worker', True, 'any'), ('comp', 'worker', False, 'any'), ('decomp', 'worker', True), ('decomp', 'worker', False),
         ('comp', 'worker', True, 0xffffffff), ('comp', 'worker', False, 0xffffffff)]
    def gather(got):
        for t, ex in got:
            for cv, r in (ex or {}).items(): sites[t[0]].setdefault(cv, set()).update(r)
    # the epoch size as a symbolic power of two; what that cannot decide is
    # decided for each power of two the size type has room for
    sym = Result('streams')
    gather(pool(sym, one, W[:2], 'worker'))
    spread = sorted(range(lo, 64), key=lambda l: ((l - lo) % 11, l))
    if sym.r['fails'] or sym.r['unsupported'] or sym.r.get('stopped'):
        few = [l for l in spread if (l - lo) % 11 == 0]
        gather(pool(res, one, [('comp', 'worker', ld, l) for l in few for ld in (False, True)] + W[2:], 'worker'))
        if not res.r['fails'] and not res.r.get('stopped'):
            res.unsup('epoch size: not decided for every power of two, holds for 2**%s: %s' % (few, (sym.r['unsupported'] + sym.r['fails'] + [''])[0]))
    else:
        for k in ('obligations', 'syntactic', 'cases', 'paths', 'queries', 'solver_s', 'cpu_s', 'lia'): res.r[k] += sym.r[k]
        for k, v in sym.r['kinds'].items(): res.r['kinds'][k] = res.r['kinds'].get(k, 0) + v
        more = [] if tier == 'quick' else [('comp', 'worker', ld, l) for l in spread for ld in (False, True)]
        gather(pool(res, one, W[2:] + more, 'worker'))
    cases = [('comp', 'monitor', w) for w in ('barrier arrive', 'barrier interrupt', 'latch count_down', 'latch wait')]
    for k in ('comp', 'decomp'):
        cases += [(k, 'start'), (k, 'ready')] + [(k, 'finalize', c) for c in (0, 1)] + [(k, 'dtor', n) for n in range(17)] + [(k, 'ctor', n) for n in list(range(9)) + [16, 64]]
    cases += [('decomp', 'pushblock')] + [('comp', 'epoch', l) for l in [None] + list(range(lo, 64))]
    pool(res, one, cases, 'interface')
    for k, c in (('comp', 'Compression'), ('decomp', 'Decompression')):
        n = 'Data%sStream' % c
        res.functions(*[n + '::' + f for f in ('loop_%sress_thread' % k, 'start', 'finalize', 'wait_until_ready', '~' + n, n) + (('push_block',) if k == 'decomp' else ('set_offset_sync_epoch_multiple',))])
    res.functions('barrier::arrive_and_wait', 'barrier::interrupt', 'latch::count_down', 'latch::wait')
    res.contract('worker: shared fields only under the mutex; waits only for what has not happened yet; one operation per trigger; every block taken is handled (and emitted) once, after exactly the barriers of its epoch; a failure sets the error flag; arrives at the final barrier once, when nothing is left; only thread 0, after it and unless the stream quits, resets the state and calls the callback once with !error')
    res.contract('start, push_block, finalize, destructor: change exactly their fields under the mutex and wake every wait that reads them; quit flag before the barrier is interrupted; all threads joined; constructor: initial state complete before the first thread starts')
    res.contract('barrier, latch: monitors over arbitrary states within their invariant (all thread counts)')
    res.r['bounded'] = {'constructor': 'thread counts 0..8, 16, 64', 'destructor': 'thread counts 0..16'}
    res.r['assumptions'] += ['rely-guarantee: each thread is proved alone with everything the mutex guards arbitrary; the composition (all threads take part in each operation, equal arrivals, no wait without a waker) is argued on paper in DESIGN.md',
        'std::mutex, condition_variable, thread, atomic and queue by their contracts; mutexes and waits do not fail, and the scheduler is fair',
        'the stream is used from one thread at a time, one operation at a time, finalize once per operation with a callback, no push_block after finalize; epochs are powers of two of at least a block, set while no operation runs; at least one thread; inputs below 2^63 bytes',
        'callbacks and the implementation return normally (no exception leaves them); layout of std::function as in libstdc++']
    return res.done()

TARGETS = {'threads': threadstarget, 'hw': hwtarget, 'strdec': strdec, 'strcomp': strcomp, 'cl': cltarget, 'optenc': optenc, 'swenc': swenc, 'swdec': swdec, 'optdec': optdec, 'crc': crctarget, 'chunked': chunkedtarget, 'align': aligntarget}

if __name__ == '__main__':
    # targets.py OUT.json seconds tier target...
    out, secs, tier = sys.argv[1], float(sys.argv[2]), sys.argv[3]
    DEADLINE[0] = time.time() + secs
    rs = []
    for t in sys.argv[4:]:
        try: r = TARGETS[t](tier)
        except Fail as e:
            r = Result(t); r.fails([(e.kind, e.msg, t, e.model is not None)]); r = r.done()
        except (Unsupported, NotImplementedError, solve.Unknown, ir.IRError, front.FrontError) as e:
            r = Result(t); r.unsup('%s: %s' % (type(e).__name__, str(e)[:2000])); r = r.done()
        except Exception as e:
            import traceback
            if os.environ.get('DV_DEBUG'): traceback.print_exc()
            r = Result(t); r.unsup('verifier error: %s' % traceback.format_exc()[-2000:]); r = r.done()
        r['target'] = t if not r.get('target') else r['target']
        r['key'] = t
        rs.append(r)
        json.dump(rs, open(out, 'w'), indent=1)
