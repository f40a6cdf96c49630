"""Contract proof of an 842 decoder entry point (sw, optsw, OpenCL).

Contract (ghosts G = bits consumed, L = bytes produced; spec842 = format):
  requires  in[0..ilen), out[0..*olen) separate objects, *olen readable
  loop      invariant at the head of the per-template loop: every variable
            equals its template over (G, L); out[0..L) = spec output so far;
            G <= 8*ilen, L <= capacity; decreases 8*ilen - G
  step      the template at bit G is valid, its fields lie inside the input,
            its output fits, and exactly out[L..L+k) receives its bytes
  ensures   ret == 0  -> END template with matching CRC, *olen == L
            ret != 0  -> *olen == 0, stream is invalid at G or does not fit,
                         -ENOSPC exactly in the latter case
"""
import random, time, sys
from exec import *
from term import *
import inv, spec842 as S, solve

ENOSPC, EINVAL, EOVERFLOW = 28, 22, 75
M32 = (1 << 32) - 1

class Ghost:
    """gb = floor(G/8), gp = G%8, wq = floor(G/64) (or None), wp = G%64, L, cap, ilen
    plus byte accessor for the input; works for numbers and terms"""
    pass

def conc_ghost(G, L, cap, ilen, data, inb, outb):
    g = Ghost()
    g.gb = G // 8; g.gp = G % 8; g.wq = G // 64; g.wp = G % 64
    g.L = L; g.cap = cap; g.ilen = ilen; g.inb = inb; g.outb = outb
    g.byte = lambda off: data[off] if off < len(data) else 0
    return g

def word_at(g, q):
    """big-endian word at byte offset 8q of the input"""
    return cat([(8, g.byte(add(mulc(q, 8, 64), k, 64))) for k in range(8)])

def t_left(g, w):
    if w != 64: return None
    if g.wp == 0: return 0
    return shlc(word_at(g, g.wq), g.wp, 64)

def t_right(g, w):
    if w != 64: return None
    if g.wp == 0: return 0
    return zext(trunc(word_at(g, g.wq), 64 - g.wp), 64 - g.wp, 64)

def t_word(g, w):
    if w != 64 or g.wp == 0: return None
    return word_at(g, g.wq)

def t_look(k):
    """the word k words after the buffered one, 0 past the end of the input"""
    def fn(g, w):
        if w != 64: return None
        q = add(g.wq, (1 if g.wp else 0) + k, 64)
        return ite(ult(mulc(q, 8, 64), g.ilen, 64), word_at(g, q), 0, 64)
    return fn

def _c(w, t):       # to width
    return trunc(t, w) if w < 64 else t

def candidates(ent):
    """ent: value at the first visit (for 'unchanged')"""
    def P(name, fn, need64=False):
        t = inv.Template(name, fn)
        return t
    W = lambda fn: (lambda g, w: None if w not in (8, 16, 32, 64) else _c(w, fn(g)))
    Pt = lambda fn: (lambda g, w: fn(g) if w == 64 else None)
    c = [
        P('in+G/8', Pt(lambda g: add(g.inb, g.gb, 64))),
        P('out+L', Pt(lambda g: add(g.outb, g.L, 64))),
        P('L', W(lambda g: g.L)),
        P('cap-L', W(lambda g: sub(g.cap, g.L, 64))),
        P('ilen-G/8', W(lambda g: sub(g.ilen, g.gb, 64))),
        P('G/8', W(lambda g: g.gb)),
        P('G%8', W(lambda g: g.gp)),
        P('8-G%8', W(lambda g: sub(8, g.gp, 64))),
        P('G', W(lambda g: add(mulc(g.gb, 8, 64), g.gp, 64))),
        P('8ilen-G', W(lambda g: sub(mulc(g.ilen, 8, 64), add(mulc(g.gb, 8, 64), g.gp, 64), 64))),
        P('L/8', W(lambda g: lshrc(g.L, 3, 64))),
        P('out+L-8', Pt(lambda g: add(g.outb, sub(g.L, 8, 64), 64))),
        P('L!=0', lambda g, w: bnot(eq(g.L, 0, 64)) if w == 1 else (zext(bnot(eq(g.L, 0, 64)), 1, w) if w in (8, 32, 64) else None)),
        P('L==0', lambda g, w: eq(g.L, 0, 64) if w == 1 else (zext(eq(g.L, 0, 64), 1, w) if w in (8, 32, 64) else None)),
        # word-buffered readers
        P('w:in+8ceil(G/64)', Pt(lambda g: add(g.inb, mulc(add(g.wq, 1 if g.wp else 0, 64), 8, 64), 64))),
        P('w:ceil(G/64)', W(lambda g: add(g.wq, 1 if g.wp else 0, 64))),
        P('w:8ceil(G/64)', W(lambda g: mulc(add(g.wq, 1 if g.wp else 0, 64), 8, 64))),
        P('w:ilen-8ceil(G/64)', W(lambda g: sub(g.ilen, mulc(add(g.wq, 1 if g.wp else 0, 64), 8, 64), 64))),
        P('w:ilen/8-ceil(G/64)', W(lambda g: sub(lshrc(g.ilen, 3, 64), add(g.wq, 1 if g.wp else 0, 64), 64))),
        P('w:in+8floor(G/64)', Pt(lambda g: add(g.inb, mulc(g.wq, 8, 64), 64))),
        P('w:floor(G/64)', W(lambda g: g.wq)),
        P('w:left(G%64)', W(lambda g: (64 - g.wp) % 64)),
        P('w:G%64', W(lambda g: g.wp)),
        P('w:64-G%64', W(lambda g: 64 - g.wp)),
        P('w:bufleft', t_left),
        P('w:bufright', t_right),
    ] + [P('w:next%d' % k, t_look(k)) for k in range(8)]
    return c

class Arg:
    pass

class Decoder:
    """one decoder entry point"""
    def __init__(self, name, modules, find, short=True, wordlimit=False, crc=True, capmax=None, mkargs=None, okval=0, enospc=None, errs=None):
        self.name = name; self.modules = modules; self.find = find
        self.short = short; self.wordlimit = wordlimit; self.crc = crc; self.capmax = capmax
        self.mkargs = mkargs
        self.fails = []          # (kind, message, case)
        self.cases = 0; self.obl = {}; self.solved = {}
        self.paths = 0
        self.setup = None
        self.ret_to_err = None
        self.rdcalls = set()

    def machine(self):
        m = Machine(self.modules)
        import re
        m.hpat.append((re.compile(r'.*crc32_be.*'), self.h_crc))
        if self.setup: self.setup(m)
        return m

    # ---- contract of crc32_be (proved separately under C10)
    def h_crc(self, m, st, a, ins):
        crc, p, n = a[0], a[1], a[2]
        if st.x.get('trace') is not None:
            return 0 if st.x['trace'] is None else st.x['crcval']
        r, off = m.resolve(st, p, 'crc32_be argument')
        w = 64
        m.prove(st, eq(crc, 0, 32), 'func', 'checksum starts from 0')
        m.prove(st, eq(off, 0, 64) if r.name == 'out' else 0, 'func', 'checksum covers the output from its first byte')
        g = st.x['g']
        m.prove(st, eq(n, g.L, 64), 'func', 'checksum covers exactly the bytes produced')
        return S_crc(g.L)

    # ---- concrete traces
    def mkstate(self, m, data, cap, align=8, ilen=None):
        st = State()
        rin = m.new_region(st, 'in', len(data) if ilen is None else ilen, 'buf', align, readonly=True)
        rout = m.new_region(st, 'out', cap, 'buf', align)
        rol = m.new_region(st, 'olen', 8, 'cells', 8)
        st.mem['olen'].c[0] = (8, cap)
        if data is not None:
            st.mem['in'].preset = ((0, {i: b for i, b in enumerate(data)}),)
        return st, rin, rout, rol

    def start(self, m, st, rin, rout, rol):
        f = self.find(m)
        if f is None: raise Unsupported('function %s not found' % self.name)
        if self.mkargs: self.mkargs(self, m, st, f, rin, rout, rol)
        else: m.push(st, f, [rin.base, rin.size, rout.base, rol.base])

    def concrete(self, e, cap, visit):
        m = self.machine()
        data = e.data()
        st, rin, rout, rol = self.mkstate(m, data, cap)
        st.x['trace'] = 1
        st.x['crcval'] = S.crc32be_fast(e.out)
        m.check_align = False
        m.visit = visit
        res = []
        self.start(m, st, rin, rout, rol)
        m.explore(st, lambda o: res.append(o))
        return m, res

    def learn(self, header=None):
        R = random.Random(842)
        encs = []
        for n in (7, 23, 40, 61):
            while True:
                e = S.random_stream(R, n, short=self.short and n > 7)
                if len(e.out) < 14000: break
            encs.append(e)
        vs = []
        for e in encs:
            v = inv.Visits()
            m, res = self.concrete(e, len(e.out) + 24, v)
            o = res[0]
            if len(res) != 1 or o.kind != 'ret' or o.val != 0:
                raise Fail('func', '%s rejects a well-formed stream of %d templates (result %s)' % (self.name, len(e.ops), o.val if o.kind == 'ret' else o.kind))
            vs.append(v)
        ks = inv.pick_header(vs, [len(e.ops) for e in encs])
        if not ks: raise Unsupported('no per-template loop found in ' + self.name)
        self.header = ks[0]
        # collect values at the header
        data = {}
        self.first = None
        nv = 0
        for e in encs:
            i = [0]
            cap = len(e.out) + 24
            dat = e.data()
            def visit(st, fr, lbl):
                if inv.key_of(st, lbl) != self.header: return
                op, G, L = e.ops[i[0]]
                rin, rout = [st_r for st_r in (self._r['in'], self._r['out'])]
                g = conc_ghost(G, L, cap, len(dat), dat, rin.base, rout.base)
                g.first = i[0] == 0
                for s, v in inv.snapshot(st, lbl).items():
                    data.setdefault(s, []).append((g, v))
                data.setdefault('w', {})
                for s in inv.snapshot(st, lbl):
                    if s not in data['w']: data['w'][s] = inv.width_of(st, s, lbl)
                i[0] += 1
            # regions of this trace are needed for the pointer templates
            m = self.machine()
            st, rin, rout, rol = self.mkstate(m, dat, cap)
            self._r = {'in': rin, 'out': rout}
            st.x['trace'] = 1; st.x['crcval'] = S.crc32be_fast(e.out)
            m.check_align = False
            m.visit = visit
            self.start(m, st, rin, rout, rol)
            m.explore(st, lambda o: None)
            nv += i[0]
        ws = data.pop('w')
        self.tmpl = {}
        cands = candidates(None)
        for s, vals in data.items():
            if s[0] == 'mem' and len(vals) < nv:
                # not present at every visit (written during the first iteration): havoc
                self.tmpl[s] = None
                continue
            # unchanged within every trace?
            groups = []
            const = True
            cur = None
            for g, v in vals:
                if g.first: cur = v
                elif not (cur is v or inv.same(cur, v)): const = False; break
            if const:
                self.tmpl[s] = 'const'
                continue
            t = inv.match(s, ws[s], vals, cands)
            self.tmpl[s] = t
        self.need64 = any(t not in (None, 'const') and t.name.startswith('w:') for t in self.tmpl.values())
        return self.tmpl

    # ---- symbolic entry
    def entry(self, m):
        self.ilen = cat([(43, var('iwords', 43)), (3, 0)]) if self.words else var('ilen', 46, 0, (1 << 46) - 1)
        self.cap = var('cap', 46, 0, (1 << 46) - 1)
        st, rin, rout, rol = self.mkstate(m, None, zext(self.cap, 46, 64), 8, zext(self.ilen, 46, 64)) if self.aligned else self.mkstate(m, None, zext(self.cap, 46, 64), 1, zext(self.ilen, 46, 64))
        self.rin, self.rout, self.rol = rin, rout, rol
        heads = []
        def cut(mm, s, fr, lbl):
            return inv.key_of(s, lbl) == self.header
        m.cut = cut
        g = self.symghost(0, 0, 0)
        st.x['g'] = g
        self.guards(m, st, 0)
        self.start(m, st, rin, rout, rol)
        def end(o):
            if o.kind == 'cut': heads.append(o.st)
            else: self.at_entry_end(m, o)
        m.on_fail = lambda e: self.record(e, 'entry')
        st0 = st.copy()
        m.explore(st, end)
        self.st0 = st0
        return heads

    def merged(self, heads):
        """one head for several ways into the loop: knows only what held before they parted"""
        if len(heads) == 1: return heads[0]
        h = heads[0].copy(); z = self.st0.copy()
        h.pc, h.pcset, h.known, h.facts, h.proved, h.model = z.pc, z.pcset, z.known, z.facts, z.proved, z.model
        e0 = inv.snapshot(heads[0], heads[0].frames[-1].lbl)
        for x in heads[1:]:
            for k, v in inv.snapshot(x, x.frames[-1].lbl).items():
                if self.tmpl.get(k, 'const') == 'const' and k in e0 and not (v is e0[k] or v == e0[k]): self.tmpl[k] = None
        for i, fr in enumerate(h.frames):
            # SSA: what some way in does not define cannot be used after the loop head
            fr.env = {k: v for k, v in fr.env.items() if all(len(x.frames) == len(h.frames) and k in x.frames[i].env for x in heads)}
            # a value that depends on the way in is only kept if nothing in the loop reads it
            ph = {p.d for p in inv.phis(fr, fr.lbl)} if i == len(h.frames) - 1 else ()
            for k, v in list(fr.env.items()):
                if k not in ph and any(x.frames[i].env[k] is not v and x.frames[i].env[k] != v for x in heads): del fr.env[k]
        if any(type(c) is Buf and c.log for x in heads for c in x.mem.values()): raise Unsupported('loop entries differ in memory')
        return h

    aligned = False
    words = False           # the input is a whole number of 64-bit words

    def symghost(self, base, ph, L):
        """base: term (byte or word index), ph phase"""
        g = Ghost()
        if self.need64:
            g.wq = base; g.wp = ph
            g.gb = add(mulc(base, 8, 64), ph // 8, 64); g.gp = ph % 8
        else:
            g.wq = None; g.wp = None
            g.gb = base; g.gp = ph
        g.L = L
        g.cap = zext(self.cap, 46, 64); g.ilen = zext(self.ilen, 46, 64)
        g.inb = self.rin.base; g.outb = self.rout.base
        g.byte = None
        return g

    def guards(self, m, st, L):
        def guard(mm, s, r, mem, off, n):
            # reads only of what was produced before this step (later bytes come from the log)
            mm.prove(s, ule(add(off, n, 64), L, 64), 'memory', 'reads only output bytes already produced')
        st.mem['out'].guard = guard
        st.mem['out'].low = L

    def at_entry_end(self, m, o):
        st = o.st
        if o.kind != 'ret':
            self.fail(m, st, 'func', 'ends with %s' % o.kind); return
        lim = 64 if self.wordlimit else 40
        v = o.val
        try:
            m.prove(st, bnot(eq(v, 0, 32)), 'func', 'success without decoding')
            m.prove(st, ult(mulc(zext(self.ilen, 46, 64), 8, 64), lim, 64), 'func', 'rejects before decoding only what is too short')
            self.chk_olen0(m, st)
        except Fail as e: self.record(e, 'entry')

    def chk_olen0(self, m, st):
        m.prove(st, eq(m.load_at(st, self.rol, 0, 8), 0, 64), 'errlen', 'reported length is 0 on error')

    def record(self, e, case):
        if len(self.fails) > 40: return
        self.fails.append((e.kind, e.msg, case, e.model is not None))

    def fail(self, m, st, kind, msg):
        f = Fail(kind, msg); f.st = st
        raise f

    # ---- one step
    def step_state(self, m, head, g, L):
        st = head.copy()
        st.pcset = dict(st.pcset)
        st.model = None
        st.fuel = 0
        st.x = dict(st.x); st.x['g'] = g
        fr = st.frames[-1]
        ent = inv.snapshot(head, fr.lbl)
        for s in list(ent):
            t = self.tmpl.get(s, 'const')
            if t == 'const': continue
            w = inv.width_of(st, s, fr.lbl)
            v = inv.havoc(ent[s], w) if t is None else t.fn(g, w)
            self.put(m, st, s, v)
        for s, t in self.tmpl.items():
            if t is None and s not in ent and s[0] == 'mem' and s[1] in st.mem:
                self.put(m, st, s, inv.havoc(None, 8 * s[3]))
        return st

    def put(self, m, st, s, v):
        if s[0] == 'phi': st.frames[-1].env[s[1]] = v
        else:
            c = m.contents(st, st.regs_by_name(s[1]) if False else self.reg(st, s[1]), True)
            c.c[s[2]] = (s[3], v)

    def reg(self, st, name):
        for r in st.regs.values():
            if r.name == name: return r

    def check_head(self, m, head, st, g2):
        """templates hold at the back edge / entry"""
        fr = st.frames[-1]
        now = inv.snapshot(st, fr.lbl)
        ent = inv.snapshot(head, head.frames[-1].lbl)
        for s, t in list(self.tmpl.items()):
            if t is None and s in now and s in ent and tainted(now[s]) and not tainted(ent[s]): m.state_fail(st, now[s])
            if t is None or s not in ent: continue
            if s not in now:
                # cell split differently: read it
                v = m.load_at(st, self.reg(st, s[1]), s[2], s[3]) if s[0] == 'mem' else None
            else: v = now[s]
            w = inv.width_of(head, s, fr.lbl)
            x = ent[s] if t == 'const' else t.fn(g2, w)
            m.prove(st, eq(v, x, w), 'inv', 'invariant %s == %s' % (s[1] if s[0] == 'phi' else '%s+%d' % s[1:3], 'its value at loop entry' if t == 'const' else t.name))
        for s, v in now.items():
            if s in self.tmpl or s not in ent: continue
            if v is not ent[s] and v != ent[s]:
                w = inv.width_of(st, s, fr.lbl)
                m.prove(st, eq(v, ent[s], w), 'inv', 'invariant %s unchanged' % (s,))
        for fa, fb in zip(head.frames, st.frames):
            if fa.lbl != fb.lbl or fa.ip != fb.ip or fa.f is not fb.f:
                self.fail(m, st, 'inv', 'call stack differs at the back edge')
            ph = {i.d for i in inv.phis(fb, fb.lbl)} if fb is st.frames[-1] else ()
            for k, v in fa.env.items():
                if k in ph: continue
                u = fb.env.get(k)
                if u is not v and u != v:
                    self.fail(m, st, 'inv', 'value %s changes in the loop' % k)

    def run_case(self, m, head, ph, op, sub_, res=0):
        """one template case at one bit phase"""
        if self.need64:
            q = var('q', 43, 0, (1 << 43) - 1); base = zext(q, 43, 64)
        else:
            q = var('q', 46, 0, (1 << 46) - 1); base = zext(q, 46, 64)
        if self.short:
            M = var('M', 43, 0, (1 << 43) - 1)
            s3 = var('s', 3) if res is None else res
            L = zext(cat(((43, M), (3, s3))), 46, 64)
        else:
            M = var('M', 43, 0, (1 << 43) - 1)
            L = zext(cat(((43, M), (3, 0))), 46, 64)
        abstract = ph is None
        g = self.abs_ghost('0', L) if abstract else self.symghost(base, ph, L)
        if abstract: ph = 0
        # bits of the input from the anchor on
        bits = [(1, var('b%d' % i, 1)) for i in range(ph)] if ph else []
        pre = [(ph, var('lead%d' % ph, ph))] if ph else []
        body = [(5, op)]
        fl = self.case_fields(op, sub_)
        fvals = []
        for i, (w, v) in enumerate(fl):
            if v is None: v = var('f%d_%d' % (i, w), w)
            body.append((w, v)); fvals.append(v)
        nb = 5 + sum(w for w, _ in fl)
        tot = ph + nb
        pad = -tot % 8
        if self.need64: pad = -tot % 64
        if pad: body.append((pad, var('tail%d' % pad, pad)))
        word = cat(pre + body)
        nbytes = (tot + pad) // 8
        pres = {}
        tw = tot + pad
        for k in range(nbytes):
            pres[k] = ext(word, tw - 8 * k - 1, tw - 8 * k - 8)
        anchor = canon(mulc(base, 8, 64), 64) if self.need64 else base
        def byte(off):
            d = sub(off, anchor, 64)
            if type(d) is int and d in pres: return pres[d]
            return byte0('in', off)
        g.byte = byte
        if abstract: g.byte = lambda off: byte0('in', off)
        st = self.step_state(m, head, g, L)
        if abstract:
            st.x['rd'] = (g, 0, cat(body[:-1] if pad else body), nb)
            m.handlers[self.READER] = self.h_reader
        mb = st.mem['in'] = st.mem['in'].clone(st.tok)
        if not abstract: mb.preset = ((anchor, pres),)
        st.mem['out'] = st.mem['out'].clone(st.tok)
        self.guards(m, st, L)
        # ghost invariants
        st.assume(ule(L, g.cap, 64))
        if self.wordlimit:
            lim = lshrc(g.ilen, 3, 64)
            used = add(base, 1 if ph else 0, 64) if self.need64 else None
            if used is None:
                lim = mulc(lim, 8, 64); used = add(base, 1 if ph else 0, 64)
            st.assume(ule(used, lim, 64))
            lu = lambda n: (add(base, (ph + n + 63) // 64, 64), lim) if self.need64 else (add(base, (ph + n + 7) // 8, 64), lim)
        elif abstract:
            g8 = st.x['G'] = zext(var('G', 49, 0, (1 << 49) - 8), 49, 64); i8 = mulc(g.ilen, 8, 64)
            st.assume(ule(g8, i8, 64))
            lu = lambda n: (add(g8, n, 64), i8)
        else:
            st.assume(ule(add(g.gb, 1 if g.gp else 0, 64), g.ilen, 64))
            lu = lambda n: (add(g.gb, (g.gp + n + 7) // 8, 64), g.ilen)
        # spec of this step
        a, b = lu(nb)
        inok = ule(a, b, 64)
        spec = self.spec_step(st, g, op, fvals)
        m.cut = lambda mm, s, fr, lbl: inv.key_of(s, lbl) == self.header
        case = 'template %#x%s %s%s' % (op, '' if sub_ is None else '/%s' % sub_, '' if abstract else ' at bit phase %d' % ph, '' if not res else ', output phase %d' % res)
        nbt = nb
        def end(o):
            try:
                self.check_end(m, head, o, g, op, fvals, inok, spec, ph, nbt, base)
            except Fail as e:
                self.record(e, case)
            except Halt:
                pass
        m.on_fail = lambda e: self.record(e, case)
        m.explore(st, end)
        self.cases += 1

    # ---- modular proof: the bit reader is replaced by its contract
    READER = 'next_bits'
    GNAMES = {'in+G/8', 'ilen-G/8', 'G/8', 'G%8', '8-G%8', 'G', '8ilen-G'}

    def reader_cells(self):
        return [(s, t) for s, t in self.tmpl.items() if s[0] == 'mem' and t not in (None, 'const') and t.name in self.GNAMES]

    def has_reader(self, m, head):
        f = self.modules[0].func(self.READER)
        if f is None or self.need64 or len(f.params) != 3: return False
        if any(s[0] == 'phi' and t not in (None, 'const') and t.name in self.GNAMES for s, t in self.tmpl.items()): return False
        cs = self.reader_cells()
        return bool(cs) and len({s[1] for s, _ in cs}) == 1

    def abs_ghost(self, tag, L):
        q = var('q' + tag, 46, 0, (1 << 46) - 1); p = var('p' + tag, 3)
        return self.symghost(zext(q, 46, 64), zext(p, 3, 64), L)

    def h_reader(self, m, st, a, ins):
        """contract of the bit reader (proved in reader_case):
        requires  reader state == templates at bit G, 1 <= n <= 64
        ensures   G+n <= 8*ilen: returns 0, *d = the n bits at G, state at G+n
                  otherwise: returns a negative error other than no-space"""
        if st.x.get('trace') is not None: return NOHANDLE
        n = a[2]
        if type(n) is not int: raise NeedConc(n, 8)
        g, cur, stream, tot = st.x['rd']
        if not 1 <= n <= 64: self.fail(m, st, 'func', 'bit reader asked for %d bits' % n)
        r, off = m.resolve(st, a[0], 'bit reader state')
        self.rdcalls.add((r.name, off, n))
        cs = self.reader_cells()
        for s, t in cs:
            v = m.load_at(st, r, s[2], s[3]) if r.name == s[1] else self.fail(m, st, 'inv', 'bit reader state moved')
            m.prove(st, eq(v, t.fn(g, 8 * s[3]), 8 * s[3]), 'inv', 'bit reader state %s' % t.name)
        end = add(st.x['G'], cur + n, 64)
        c = ule(end, mulc(g.ilen, 8, 64), 64)
        t = c if type(c) is int else st.truth(c)
        if t is None: raise NeedFork(c)
        if not t:
            st.model = None
            e = fresh('rerr', 32)
            st.assume(slt(e, 0, 32)); st.assume(bnot(eq(e, (1 << 32) - ENOSPC, 32)))
            for s, _ in cs: m.store_at(st, r, s[2], s[3], fresh('rd', 8 * s[3]))
            m.do_store(st, a[1], 8, fresh('rdv', 64))
            return e
        st.model = None
        k = st.x['rdn'] = st.x.get('rdn', 0) + 1
        g2 = self.abs_ghost(str(k), g.L)
        g2.byte = g.byte
        # bit position of g2 is st.x['G'] + cursor; the relation to its byte and bit parts is not needed here
        bits = []
        if cur < tot:
            k2 = min(n, tot - cur)
            bits.append((k2, ext(stream, tot - cur - 1, tot - cur - k2)))
        if cur + n > tot: bits.append((cur + n - max(cur, tot), fresh('over', cur + n - max(cur, tot))))
        st.x['rd'] = (g2, cur + n, stream, tot)
        for s, t in cs: m.store_at(st, r, s[2], s[3], t.fn(g2, 8 * s[3]))
        m.do_store(st, a[1], 8, zext(cat(bits), n, 64))
        return 0

    def reader_case(self, m, head, ph, n, rname, roff):
        """the bit reader's body satisfies its contract at bit phase ph for n bits"""
        case = 'bit reader, %d bits at bit phase %d' % (n, ph)
        q = var('q', 46, 0, (1 << 46) - 1); base = zext(q, 46, 64)
        L = zext(var('L', 46, 0, (1 << 46) - 1), 46, 64)
        g = self.symghost(base, ph, L)
        F = var('F%d' % n, n)
        tot = ph + n; pad = -tot % 8
        word = cat(([(ph, var('lead%d' % ph, ph))] if ph else []) + [(n, F)] + ([(pad, var('tail%d' % pad, pad))] if pad else []))
        tw = tot + pad
        pres = {k: ext(word, tw - 8 * k - 1, tw - 8 * k - 8) for k in range(tw // 8)}
        g.byte = lambda off: byte0('in', off)
        st = self.step_state(m, head, g, L)
        mb = st.mem['in'] = st.mem['in'].clone(st.tok)
        mb.preset = ((base, pres),)
        st.assume(ule(add(g.gb, 1 if g.gp else 0, 64), g.ilen, 64))
        del m.handlers[self.READER]
        dst = m.new_region(st, 'dst', 8, 'cells', 8)
        before = {rn: dict(c.c) for rn, c in st.mem.items() if type(c) is Cells}
        st.frames = []
        m.cut = None
        m.push(st, self.modules[0].func(self.READER), [add(self.reg(st, rname).base, roff, 64), dst.base, n])
        inok = ule(add(base, tw // 8, 64), g.ilen, 64)
        cs = self.reader_cells()
        own = {(s[1], s[2]) for s, _ in cs}
        def end(o):
            try: one(o.st, o)
            except Fail as e: self.record(e, case)
            except Halt: pass
        def one(st, o):
            if o.kind != 'ret': self.fail(m, st, 'func', 'bit reader ends with %s' % o.kind)
            z = eq(o.val, 0, 32)
            t = z if type(z) is int else st.truth(z)
            if t is None:
                for tt in (z, bnot(z)):
                    s2 = st.copy(); s2.assume(tt); s2.model = None
                    if m.feasible(s2, 1) : one(s2, o)
                return
            for rn, c in st.mem.items():
                if type(c) is Buf and c.log: self.fail(m, st, 'frame', 'bit reader writes %s' % rn)
                if rn in before and rn != 'dst':
                    for off, x in before[rn].items():
                        if (rn, off) not in own and c.c.get(off) != x: self.fail(m, st, 'frame', 'bit reader changes %s+%d' % (rn, off))
            if t:
                m.prove(st, inok, 'func', 'bits lie inside the input')
                m.prove(st, eq(m.load_at(st, dst, 0, 8), zext(F, n, 64), 64), 'func', 'bits read are the next bits of the input')
                g2 = self.symghost(add(base, (ph + n) // 8, 64), (ph + n) % 8, L)
                g2.byte = g.byte
                for s, tt in cs:
                    m.prove(st, eq(m.load_at(st, self.reg(st, s[1]), s[2], s[3]), tt.fn(g2, 8 * s[3]), 8 * s[3]), 'inv', 'bit reader advances %s' % tt.name)
            else:
                m.prove(st, bnot(inok), 'func', 'bit reader fails only at the end of the input')
                m.prove(st, slt(o.val, 0, 32), 'func', 'bit reader error is negative')
                m.prove(st, bnot(eq(o.val, (1 << 32) - ENOSPC, 32)), 'enospc', 'bit reader error is not no-space')
        m.on_fail = lambda e: self.record(e, case)
        m.explore(st, end)
        self.cases += 1

    def case_fields(self, op, sub_):
        if op < 26: return [(w, None) for w in S.fields(op)]
        if op == S.OP_REPEAT: return [(6, sub_)]
        if op == S.OP_END: return [(32, None)] if self.crc else []
        if op == S.OP_SHORT and self.short: return [(3, sub_)] + [(8, None)] * sub_
        return []

    def spec_step(self, st, g, op, fv):
        """list of (kind, ...) describing the step"""
        return None

    def all_cases(self):
        cs = []
        for op in range(32):
            if op == S.OP_REPEAT: cs += [(op, n) for n in range(64)]
            elif op == S.OP_SHORT and self.short: cs += [(op, n) for n in range(8)]
            else: cs.append((op, None))
        return cs

    def idx_resolve(self, m, st, i, n, Lc, deep=True):
        """spec's ring-buffer resolution of field term i: (offset term, ok term)"""
        F = S.FIFO[n]
        total = shlc(lshrc(Lc, 3, 64), 3, 64)
        off = mulc(zext(i, S.IBITS[n], 64), n, 64) if type(i) is T else i * n
        c1 = ult(F, total, 64)
        lg = F.bit_length() - 1
        section = shlc(lshrc(total, lg, 64), lg, 64)
        pos = sub(total, section, 64)
        c2 = ult(off, pos, 64)          # within the current section
        def decide(c):
            if type(c) is int: return c
            t = st.truth(c)
            if t is not None: return t
            if not deep: return None
            if m.valid(st, c): return 1
            if m.valid(st, bnot(c)): return 0
            return None
        t1 = decide(c1)
        if t1 == 0: o = off
        else:
            t2 = decide(c2)
            near = add(off, section, 64); far = add(off, sub(section, F, 64), 64)
            o2 = near if t2 == 1 else far if t2 == 0 else ite(c2, near, far, 64)
            o = o2 if t1 == 1 else ite(c1, o2, off, 64)
        return o, ule(add(o, n, 64), total, 64)

    def spec_read(self, m, st, L, off, n, done):
        d = sub(off, L, 64)
        if type(d) is T and m.valid(st, ule(add(off, n, 64), L, 64)):
            d = None
        elif type(d) is T:
            for e in range(-7, 64):
                if m.valid(st, eq(d, e & mask(64), 64)):
                    d = e; break
            else: self.fail(m, st, 'func', 'copy source overlaps the template in an undetermined way')
        bs = []
        for j in range(n):
            if d is not None and j + sgn(d & mask(64), 64) >= 0: bs.append(done[sgn(d & mask(64), 64) + j])
            else: bs.append(byte0('out', add(off, j, 64)))
        return cat([(8, b) for b in reversed(bs)])

    def check_end(self, m, head, o, g, op, fv, inok, spec, ph, nb, base):
        st = o.st
        L = g.L; cap = g.cap
        if o.kind in ('abort', 'throw', 'trap'):
            self.fail(m, st, 'func', 'ends with %s' % o.kind)
        # validity of the template apart from input length, and its output
        ok = 1; pieces = []; k = 0
        if op < 26:
            for (kd, n), f in zip(S.TEMPLATES[op], fv):
                if kd == 'D': pieces.append((k, n, f))
                else:
                    off, c = self.idx_resolve(m, st, f, n, add(L, k, 64), o.kind == 'cut')
                    ok = mk_and(ok, c)
                    pieces.append((k, n, ('copy', off)))
                k += n
        elif op == S.OP_REPEAT:
            ok = ule(8, L, 64)
            k = 8 * (fv[0] + 1)
            for j in range(fv[0] + 1): pieces.append((8 * j, 8, ('copy', sub(L, 8, 64))))
        elif op == S.OP_ZEROS:
            k = 8; pieces = [(0, 8, 0)]
        elif op == S.OP_SHORT and self.short:
            if fv[0] == 0: ok = 0
            k = fv[0]
            pieces = [(j, 1, f) for j, f in enumerate(fv[1:])]
        elif op == S.OP_END:
            if self.crc is True: ok = eq(fv[0], S_crc(L), 32)
            if self.capmax is not None: fits_impl = ule(L, self.capmax, 64)
        else: ok = 0
        fits = ule(add(L, k, 64), cap, 64)
        if op == S.OP_END and self.capmax is not None: fits = fits_impl
        if o.kind == 'cut':
            m.prove(st, inok, 'func', 'continues only if the template lies inside the input')
            m.prove(st, ok, 'func', 'continues only after a valid template')
            if op == S.OP_END: self.fail(m, st, 'func', 'continues after the end template')
            m.prove(st, fits, 'bounds', 'continues only if the output fits')
            mem = st.mem['out']
            done = {}
            for d, n, v in pieces:
                got = m.buf_load(st, self.rout, mem, add(L, d, 64), n)
                if type(v) is tuple:
                    want = self.spec_read(m, st, L, v[1], n, done)
                else:
                    want = bswap(v, 8 * n) if n > 1 else v
                for j in range(n): done[d + j] = ext(want, 8 * j + 7, 8 * j) if n > 1 else want
                m.prove(st, eq(got, want, 8 * n), 'func', 'output bytes %d..%d of the template' % (d, d + n - 1))
            for woff, wn, v in mem.log:
                m.prove(st, ule(L, woff, 64), 'func', 'earlier output is not changed')
            np_ = ph + nb
            if 'rd' in st.x:
                gr, cur = st.x['rd'][:2]
                if cur != nb: self.fail(m, st, 'func', 'consumes %d bits instead of %d' % (cur, nb))
                g2 = self.symghost(gr.gb, gr.gp, add(L, k, 64))
            elif self.need64:
                g2 = self.symghost(add(base, np_ // 64, 64), np_ % 64, add(L, k, 64))
            else:
                g2 = self.symghost(add(base, np_ // 8, 64), np_ % 8, add(L, k, 64))
            g2.byte = g.byte
            self.check_head(m, head, st, g2)
            return
        v = o.val
        if type(inok) is T and st.truth(inok) == 0: inok = 0
        z = eq(v, 0, 32)
        t = z if type(z) is int else st.truth(z)
        if t is None:
            if m.valid(st, z): t = 1
            elif m.valid(st, bnot(z)): t = 0
            else:
                for tt in (z, bnot(z)):
                    s2 = st.copy(); s2.assume(tt); s2.model = None
                    self.check_end(m, head, Outcome('ret', s2, v), g, op, fv, inok, spec, ph, nb, base)
                return
        if t == 1:
            if op != S.OP_END: self.fail(m, st, 'func', 'success before the end template')
            m.prove(st, inok, 'func', 'success only if the checksum lies inside the input')
            m.prove(st, ok, 'func', 'success only with matching checksum')
            m.prove(st, fits, 'func', 'success only if the output fits')
            m.prove(st, eq(m.load_at(st, self.rol, 0, 8), L, 64), 'olen', 'reported length is the output length')
            for woff, wn, vv in st.mem['out'].log: self.fail(m, st, 'func', 'output changed after the end template')
            return
        m.prove(st, slt(v, 0, 32), 'func', 'errors are negative')
        self.chk_olen0(m, st)
        good = mk_and(inok, ok)
        m.prove(st, bnot(mk_and(good, fits)), 'func', 'rejects only invalid or too large streams')
        ns = eq(v, (1 << 32) - ENOSPC, 32)
        m.prove(st, mk_or(bnot(mk_and(good, bnot(fits))), ns), 'enospc', 'no-space error when the output does not fit')
        m.prove(st, mk_or(bnot(ns), bnot(fits)), 'enospc', 'no-space error only when the output does not fit')

def S_crc(L):
    return uf('crc', 32, L)
