"""Contract proof of the kernel-crypto backend: the four entry points against a
contract of the device.

device     CIOCGSESSION: a session for CRYPTO_842 or an error; CIOCGSESSINFO: an
           alignment mask 2^k - 1 or an error; CIOCCRYPT: an error, or rets[j] and
           chunkdlens[j] of every chunk j not marked UINT32_MAX are set, the others
           left alone; CIOCFSESSION, open, fcntl, close, tss_*: success or an error
ensures    a request is submitted only if stride*count and every length fit 32 bits
           (UINT32_MAX marks a skipped chunk), the count is within the device's
           limit and both buffers are aligned; it then carries the caller's
           buffers, totals, lengths, capacities, count, operation, result array;
           otherwise, and if anything fails, an error is returned;
           afterwards olens[j] is the device's length of every chunk processed, and
           unchanged for every chunk skipped
cases      chunk count 0..limit and above; all alignment masks; first call in the
           thread (context created) and a later one
"""
from exec import *
from term import *
import joined
from loop import region, raise_

M32 = mask(32); M64 = mask(64)
ENTRY = {'hw842_compress': (False, 'COP_ENCRYPT'), 'hw842_decompress': (False, 'COP_DECRYPT'),
         'hw842_compress_chunked': (True, 'COP_ENCRYPT'), 'hw842_decompress_chunked': (True, 'COP_DECRYPT')}

def cases(mod, limit):
    for f, (ch, _) in ENTRY.items():
        for mk in range(17): yield f, 1, mk
        if ch:
            for n in list(range(0, limit + 1)) + ['more']:
                if n != 1: yield f, n, 12

class Hw:
    note = ''
    def __init__(self, mod):
        self.mod = mod; self.fails = []; self.case = ''

    def const(self, m, name):
        st = State()
        f = self.mod.func('verif_' + name)
        out = []
        m.push(st, f, [])
        m.explore(st, out.append)
        return out[0].val

    def limit(self): return self.const(Machine([self.mod]), 'CRYPTODEV_COMP_MAX_CHUNKS')

    def machine(self):
        m = Machine([self.mod])
        m.on_fail = lambda e: self.fails.append((e.kind, e.msg, self.case, e.model is not None))
        self.off = {}
        for s, fs in (('session_op', 'compr ses'), ('session_info_op', 'ses alignmask flags'), ('crypt_op', 'ses op flags len dlen src dst numchunks chunklens chunkdlens chunkrets')):
            for f in fs.split(): self.off[s, f] = self.const(m, 'off_%s_%s' % (s, f))
        self.K = {n: self.const(m, n) for n in ('CIOCGSESSION', 'CIOCFSESSION', 'CIOCCRYPT', 'CIOCGSESSINFO', 'CRYPTO_842', 'COP_ENCRYPT', 'COP_DECRYPT', 'CRYPTODEV_COMP_MAX_CHUNKS')}
        h = m.handlers
        h['open'] = h['open64'] = self.open
        h['fcntl'] = h['fcntl64'] = lambda mm, st, a, ins: self.may_fail(st, 'fcntl')
        h['close'] = self.close
        h['ioctl'] = self.ioctl
        h['__errno_location'] = lambda mm, st, a, ins: region(st, 'errno').base
        h['strerror'] = lambda mm, st, a, ins: 0
        h['call_once'] = h['pthread_once'] = self.once
        h['tss_create'] = h['pthread_key_create'] = self.create
        h['tss_set'] = h['pthread_setspecific'] = self.tset
        h['tss_get'] = h['pthread_getspecific'] = self.tget
        h['malloc'] = self.malloc
        return m

    # ------------------------------------------------------- environment by contract
    def flag(self, st, name):
        """an outcome of the environment, a new one at every use"""
        n = 'n_' + name
        k = st.x.get(n, 0)
        c = var('%s_fails_%d' % (name, k), 1)
        t = st.truth(c)
        if t is None: raise NeedFork(c)
        st.x[n] = k + 1
        if t: st.x['failed'] = 1
        return t
    def errno(self, st):
        k = st.x.get('nerr', 0); st.x['nerr'] = k + 1
        self.m.store_at(st, region(st, 'errno'), 0, 4, zext(var('errno_%d' % k, 12, 1), 12, 32))
    def may_fail(self, st, name):
        if self.flag(st, name):
            self.errno(st)
            return M32
        return 0
    def malloc(self, m, st, a, ins):
        if self.flag(st, 'malloc'): return 0
        return BUILTIN['malloc'](m, st, a, ins)
    def open(self, m, st, a, ins):
        if self.flag(st, 'open'):
            self.errno(st)
            return M32
        if st.x.get('fd'): raise_(m, st, 'func', 'device opened twice')
        st.x['fd'] = 1
        return self.FD
    def isfd(self, m, st, v):
        m.prove(st, eq(v, self.FD, 32), 'func', 'the descriptor of the context is used')
        if not st.x.get('fd'): raise_(m, st, 'func', 'the device is not open')
    def close(self, m, st, a, ins):
        self.isfd(m, st, a[0])
        r = self.may_fail(st, 'close')
        st.x['fd'] = 0; st.x['session'] = 0
        return r
    def once(self, m, st, a, ins):
        if st.x.get('once'): return 0
        fn = None
        for r in m.globregs.values():
            if r.base is a[1]: fn = r.tag[1]
        f = fn and self.mod.func(fn)
        if f is None: raise Unsupported('call_once of an unknown function')
        st.x['once'] = 1
        m.push(st, f, [], None, ins.a[2], ins.a[3])
        return CALLED
    def create(self, m, st, a, ins):
        if self.flag(st, 'tss_create'): return 1
        st.x['key'] = 1
        m.do_store(st, a[0], 4, var('key', 32))
        return 0
    def haskey(self, m, st, v):
        if not st.x.get('key'): raise_(m, st, 'func', 'thread-specific storage is used without a key')
        m.prove(st, eq(v, var('key', 32), 32), 'func', 'the key of the context is used')
    def tset(self, m, st, a, ins):
        self.haskey(m, st, a[0])
        if self.flag(st, 'tss_set'): return 1
        st.x['tss'] = a[1]
        return 0
    def tget(self, m, st, a, ins):
        self.haskey(m, st, a[0])
        return st.x.get('tss', 0)

    def fld(self, m, st, p, s, f, n):
        return m.do_load(st, add(p, self.off[s, f], 64), n, n)
    def ioctl(self, m, st, a, ins):
        fd, req, p = a[:3]
        K = self.K
        self.isfd(m, st, fd)
        if type(req) is not int: raise Unsupported('ioctl request')
        if req == K['CIOCGSESSION']:
            m.prove(st, eq(self.fld(m, st, p, 'session_op', 'compr', 4), K['CRYPTO_842'], 32), 'func', 'the session is for 842')
            if self.may_fail(st, 'GSESSION'): return M32
            if st.x.get('session'): raise_(m, st, 'func', 'two sessions')
            st.x['session'] = 1
            m.do_store(st, add(p, self.off['session_op', 'ses'], 64), 4, var('session', 32))
            return 0
        if not st.x.get('session'): raise_(m, st, 'func', 'no session')
        if req == K['CIOCGSESSINFO'] and req:
            m.prove(st, eq(self.fld(m, st, p, 'session_info_op', 'ses', 4), var('session', 32), 32), 'func', 'session asked about')
            if self.may_fail(st, 'GSESSINFO'): return M32
            m.do_store(st, add(p, self.off['session_info_op', 'alignmask'], 64), 2, self.amask)
            m.do_store(st, add(p, self.off['session_info_op', 'flags'], 64), 4, var('siop_flags', 32))
            return 0
        if req == K['CIOCFSESSION']:
            m.prove(st, eq(m.do_load(st, p, 4, 4), var('session', 32), 32), 'func', 'session released')
            r = self.may_fail(st, 'FSESSION')
            st.x['session'] = 0
            return r
        if req == K['CIOCCRYPT']: return self.crypt(m, st, p)
        raise Unsupported('ioctl request %#x' % req)

    def skip(self, j): return eq(self.il[j], M64, 64)
    def fit(self, j):
        """lengths of chunk j fit the interface"""
        return mk_and(mk_or(self.skip(j), ule(self.il[j], M32 - 1, 64)), mk_or(self.skip(j), ule(self.ol[j], M32, 64)))
    def fits(self, strict=False):
        """(condition, reason) of a request the interface can carry (the capacity
        of a skipped chunk is not used: it may be refused or not)"""
        n = self.num
        r = [(ule(n, self.K['CRYPTODEV_COMP_MAX_CHUNKS'], 64), 'chunk count within the limit of the device')]
        if type(n) is int:
            if n:
                r.append((ule(self.istr, M32 // n, 64), 'input stride times count fits 32 bits'))
                r.append((ule(self.ostr, M32 // n, 64), 'output stride times count fits 32 bits'))
            for j in range(n): r.append((mk_and(self.fit(j), ule(self.ol[j], M32, 64)) if strict else self.fit(j), 'lengths of every chunk fit 32 bits'))
        k = self.k
        if k:
            r.append((eq(trunc(self.inp, k), 0, k), 'input aligned'))
            r.append((eq(trunc(self.outp, k), 0, k), 'output aligned'))
        return r

    def crypt(self, m, st, p):
        F = lambda f, n: self.fld(m, st, p, 'crypt_op', f, n)
        if not self.main:
            if self.may_fail(st, 'CRYPT0'): return M32
            return 0
        if st.x.get('sent'): raise_(m, st, 'func', 'request submitted twice')
        P = lambda c, msg: m.prove(st, c, 'func', msg)
        for c, why in self.fits(): P(c, 'submitted only with ' + why)
        n = self.num
        if type(n) is not int: raise Halt('infeasible')
        P(eq(F('ses', 4), var('session', 32), 32), 'session of the request')
        P(eq(F('op', 2), self.K[self.op], 16), 'operation of the request')
        P(eq(F('flags', 2), 0, 16), 'flags of the request')
        P(eq(F('numchunks', 4), n, 32), 'chunk count of the request')
        P(eq(F('len', 4), trunc(mulc(self.istr, n, 64), 32), 32), 'input length of the request')
        P(eq(F('dlen', 4), trunc(mulc(self.ostr, n, 64), 32), 32), 'output length of the request')
        P(eq(F('src', 8), self.inp, 64), 'input buffer of the request')
        P(eq(F('dst', 8), self.outp, 64), 'output buffer of the request')
        rets = F('chunkrets', 8); li = F('chunklens', 8); lo = F('chunkdlens', 8)
        if self.chunked: P(eq(rets, region(st, 'rets').base, 64), 'result array of the request')
        for j in range(n):
            v = m.do_load(st, add(li, 4 * j, 64), 4, 4)
            P(eq(v, ite(self.skip(j), M32, trunc(self.il[j], 32), 32), 32), 'length of a chunk in the request (UINT32_MAX: skipped)')
            v = m.do_load(st, add(lo, 4 * j, 64), 4, 4)
            P(mk_or(self.skip(j), eq(v, trunc(self.ol[j], 32), 32)), 'capacity of a chunk in the request')
        bad = self.flag(st, 'CRYPT')
        if bad: self.errno(st)
        for j in range(n):
            for ptr, name in ((rets, 'ret'), (lo, 'dlen')):
                q = add(ptr, 4 * j, 64)
                old = m.do_load(st, q, 4, 4)
                m.do_store(st, q, 4, fresh('device', 32) if bad else ite(self.skip(j), old, var('%s_%d' % (name, j), 32), 32), 4)
        st.x['sent'] = 1
        return M32 if bad else 0

    # ------------------------------------------------------- a call
    def globals(self, m, st):
        """the module's variables as memory"""
        m._globs = {}
        for name in list(self.mod.gsrc):
            t, init, cst = self.mod.glob(name)
            if cst or init is None: continue
            r = m.new_region(st, '@' + name, self.mod.size(t), 'cells', 16)
            st.mem[r.name].init = lambda mm, s, rr, off, n: 0
            internal = ' internal ' in ' ' + self.mod.gsrc[name] or ' private ' in ' ' + self.mod.gsrc[name]
            m._globs[(self.mod.name if internal else '', name)] = r

    def run(self, fname, num, k):
        self.case = '%s, %s chunks, alignment %d%s' % (fname, num, 1 << k, self.note)
        self.chunked, self.op = ENTRY[fname]
        m = self.m = self.machine()
        self.k = k; self.amask = (1 << k) - 1
        self.FD = zext(var('fd', 31), 31, 32)
        st = State()
        self.globals(m, st)
        base = lambda n: cat(((17, 0), (30, var('&' + n, 30, 1)), (17, var('low.' + n, 17))))
        self.inp = base('in'); self.outp = base('out')
        m.new_region(st, 'errno', 4, 'cells', 4)
        f = self.mod.func(fname)
        if f is None: raise Unsupported('function %s not found' % fname)
        self.main = True
        if num == 'more':
            self.num = zext(var('num', 40), 40, 64)
            st.assume(bnot(ule(self.num, self.K['CRYPTODEV_COMP_MAX_CHUNKS'], 64)))
            n = 64
        else: self.num = n = num
        if not self.chunked:
            self.il = [zext(var('ilen', 63), 63, 64)]; self.ol = [var('olen', 64)]
            self.istr = self.il[0]; self.ostr = self.ol[0]
        else:
            self.il = [var('ilen_%d' % j, 64) for j in range(n)]; self.ol = [var('olen_%d' % j, 64) for j in range(n)]
            self.istr = var('istride', 64); self.ostr = var('ostride', 64)
            r = m.new_region(st, 'ilens', 8 * n, 'cells', 8, readonly=True)
            for j in range(n): st.mem['ilens'].c[8 * j] = (8, self.il[j])
            r = m.new_region(st, 'rets', 4 * n, 'cells', 4)
            for j in range(n): st.mem['rets'].c[4 * j] = (4, var('ret0_%d' % j, 32))
        m.new_region(st, 'olens', 8 * n, 'cells', 8)
        for j in range(n): st.mem['olens'].c[8 * j] = (8, self.ol[j])
        B = lambda s, n: region(s, n).base
        if self.chunked: args = [self.num, B(st, 'rets'), self.inp, self.istr, B(st, 'ilens'), self.outp, self.ostr, B(st, 'olens')]
        else: args = [self.inp, self.il[0], self.outp, B(st, 'olens')]
        # a later call of the same thread starts where a successful first call ends
        starts = [st.copy()]
        self.main = False
        w = st
        g = self.mod.func('hw842_compress_chunked')
        m.push(w, g, [0, 0, 0, 0, 0, 0, 0, 0])
        outs = []; kept = False
        joined.explore(m, w, outs.append)
        for o in outs:
            if o.kind != 'ret': 
                try: raise_(m, o.st, 'func', 'ends with %s' % o.kind)
                except Fail as e: m.on_fail(e)
                continue
            if o.st.x.get('tss') is not None: kept = True
            elif o.st.x.get('key'): continue       # as before the first call
            starts.append(o.st)
        if not kept:
            if self.fails: return self.fails, m.stats, m.obl_kinds, None
            raise Unsupported('no context is kept')
        self.main = True
        for s0 in starts:
            s = s0.copy()
            s.x['failed'] = 1 if s.x.get('once') and not s.x.get('key') else 0   # without a key every call fails
            m.push(s, f, args)
            joined.explore(m, s, lambda o: self.end(m, o))
        return self.fails, m.stats, m.obl_kinds, None

    def end(self, m, o):
        s = o.st
        try:
            if o.kind != 'ret': raise_(m, s, 'func', 'ends with %s' % o.kind)
            rv = o.val
            if not s.x.get('sent'):
                if s.x.get('failed'):
                    m.prove(s, bnot(eq(rv, 0, 32)), 'func', 'failure of the device or the system: error')
                else:
                    ok = 1
                    for c, _ in self.fits(True): ok = mk_and(ok, c)
                    if self.num == 0: m.prove(s, mk_or(eq(rv, 0, 32), bnot(ok)), 'func', 'no chunks: no error')
                    else:
                        m.prove(s, bnot(ok), 'func', 'rejected only if the request does not fit the device')
                        m.prove(s, bnot(eq(rv, 0, 32)), 'func', 'a request that does not fit: error')
                return
            if s.x.get('failed'):
                m.prove(s, bnot(eq(rv, 0, 32)), 'func', 'failed request: error')
                return
            want = 0 if self.chunked else var('ret_0', 32)
            m.prove(s, eq(rv, want, 32), 'func', 'result of a request the device accepted')
            for j in range(self.num):
                v = m.load_at(s, region(s, 'olens'), 8 * j, 8)
                m.prove(s, eq(v, ite(self.skip(j), self.ol[j], zext(var('dlen_%d' % j, 32), 32, 64), 64), 64), 'func', 'output length of a chunk after the request')
                if self.chunked:
                    v = m.load_at(s, region(s, 'rets'), 4 * j, 4)
                    m.prove(s, eq(v, ite(self.skip(j), var('ret0_%d' % j, 32), var('ret_%d' % j, 32), 32), 32), 'func', 'result of a chunk after the request')
        except Fail as e: m.on_fail(e)
        except Halt: pass
