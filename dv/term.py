"""Bit-vector terms with normalisation.

A value of width w is either a Python int in [0, 2^w) or a T.  Terms are
hash-consed, so syntactic equality is identity.  Two normal forms matter:

  lin   c + sum(coef_i * atom_i)   (mod 2^w)     - addresses, lengths, counters
  cat   concatenation of pieces, msb first       - bit fields and bytes

Everything else is an opaque operator node handed to the SMT solver.
"""

class T:
    __slots__ = ('op', 'w', 'a', 'id', '_rng', '_lin', '_pc', 'z')
    def __repr__(self):
        return show(self)
    # identity hash/eq (hash-consing)

_tab = {}
_n = [0]

def mk(op, w, a):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op; t.w = w; t.a = a
        _n[0] += 1
        t.id = _n[0]
        t._rng = None; t._lin = None; t._pc = None; t.z = None
        _tab[k] = t
    return t

_fresh = [0]
_vmax = {}      # var -> (lo, hi) declared range, asserted in every query

def var(name, w, lo=0, hi=None):
    t = mk('var', w, (name,))
    if hi is not None or lo:
        _vmax[t] = (lo, hi if hi is not None else (1 << w) - 1)
    return t

def fresh(name, w, lo=0, hi=None):
    _fresh[0] += 1
    return var('%s!%d' % (name, _fresh[0]), w, lo, hi)

def mask(w):
    return (1 << w) - 1

# values that depend on what nobody wrote: uninitialised memory, unset variables,
# ring slots before their first use
UNWRITTEN = ('uninit!', 'undef!', 'unwritten_')
_tnt = {}

def tainted(t):
    if type(t) is tuple: return any(tainted(x) for x in t)
    if type(t) is not T: return False
    r = _tnt.get(t.id)
    if r is not None: return r
    todo = [t]
    while todo:
        x = todo[-1]
        if x.id in _tnt: todo.pop(); continue
        r = False; wait = False
        st = [x.a]
        while st:
            y = st.pop()
            if type(y) is tuple: st += y
            elif type(y) is str: r = r or y.startswith(UNWRITTEN)
            elif type(y) is T:
                k = _tnt.get(y.id)
                if k is None:
                    if not wait: n0 = len(todo)
                    wait = True; todo.append(y)
                elif k: r = True
        if r or not wait:
            _tnt[x.id] = r
            if wait: del todo[n0:]
            todo.pop()
    return _tnt[t.id]

# ---------------------------------------------------------------- ranges

def rng(t, w=None):
    if type(t) is int:
        return (t, t)
    r = t._rng
    if r is None:
        r = t._rng = _range(t)
    return r

def _range(t):
    op = t.op
    full = (0, (1 << t.w) - 1)
    if op == 'var':
        return _vmax.get(t, full)
    if op == 'cat':
        lo = hi = 0
        for pw, p in t.a:
            a, b = rng(p)
            lo = (lo << pw) | a
            hi = (hi << pw) | b
        return (lo, hi)
    if op == 'lin':
        c, ts = t.a
        lo = hi = c
        half = 1 << (t.w - 1)
        for x, k in ts:
            a, b = rng(x)
            if k >= half:
                k -= 1 << t.w
                lo += k * b; hi += k * a
            else:
                lo += k * a; hi += k * b
        if lo >= 0 and hi < (1 << t.w):
            return (lo, hi)
        if c >= half:      # maybe small negative constant
            d = 1 << t.w
            lo -= d; hi -= d
            if lo >= 0 and hi < (1 << t.w):
                return (lo, hi)
        return full
    if op == 'ite':
        a = rng(t.a[1]); b = rng(t.a[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if op == 'ext':
        b, hi_, lo_ = t.a
        r = rng(b)
        if r[1] < (1 << (hi_ + 1)):
            return (r[0] >> lo_, r[1] >> lo_)
        return full
    if op == 'and':
        return (0, min(rng(t.a[0])[1], rng(t.a[1])[1]))
    if op == 'udiv' and type(t.a[1]) is int and t.a[1]:
        r = rng(t.a[0])
        return (r[0] // t.a[1], r[1] // t.a[1])
    if op == 'urem' and type(t.a[1]) is int and t.a[1]:
        return (0, min(t.a[1] - 1, rng(t.a[0])[1]))
    if op in ('min', ):
        return full
    return full

# ---------------------------------------------------------------- pieces

def pieces(t, w):
    """List of (width, value) msb first covering w bits."""
    if type(t) is int:
        return ((w, t),)
    if t.op == 'cat':
        return t.a
    if t.op == 'lin':
        p = t._pc
        if p is None:
            p = t._pc = _lin_pieces(t)
        return p
    return ((w, t),)

def _strip(t):
    """(base value, significant width) of a zero-extended term"""
    if t.op == 'cat' and t.a[0][1].__class__ is int and t.a[0][1] == 0:
        if len(t.a) == 2:
            return t.a[1][1], t.a[1][0]
    return t, t.w

def _lin_pieces(t):
    c, ts = t.a
    w = t.w
    segs = []
    for x, k in ts:
        if k & (k - 1):
            return ((w, t),)
        s = k.bit_length() - 1
        for pw, p in reversed(pieces(x, w)):
            if type(p) is int:
                if p:
                    return ((w, t),)
                s += pw
                continue
            bl = rng(p)[1].bit_length()
            if s + pw > w:
                p = ext(p, w - s - 1, 0); pw = w - s
                if pw <= 0: break
                bl = min(bl, pw)
            segs.append((s, bl, p, pw))
            s += pw
            if s >= w: break
    segs.sort(key=lambda z: z[0])
    out = []
    pos = 0
    for s, bl, p, pw in segs:
        if s < pos:
            return ((w, t),)
        if s > pos:
            out.append((s - pos, (c >> pos) & mask(s - pos)))
        if (c >> s) & mask(bl):
            return ((w, t),)
        out.append((bl, ext(p, bl - 1, 0) if bl < pw else p))
        pos = s + bl
        if pos > w:
            return ((w, t),)
    if pos < w:
        out.append((w - pos, (c >> pos) & mask(w - pos)))
    out.reverse()
    return tuple(out)

def cat(ps):
    """Concatenate (width,value) pieces, msb first."""
    out = []
    for pw, p in ps:
        if pw == 0:
            continue
        if type(p) is not int and p.op in ('cat', 'lin'):
            q = pieces(p, pw)
            if len(q) > 1 or q[0][1] is not p:
                for z in q:
                    _push(out, z)
                continue
        _push(out, (pw, p))
    if not out:
        raise ValueError('empty cat')
    if len(out) == 1:
        return out[0][1]
    w = sum(x[0] for x in out)
    # an all-constant result was merged into one piece already
    if len(out) >= 2:
        t = mk('cat', w, tuple(out))
        return t

def _push(out, z):
    pw, p = z
    if out:
        lw, l = out[-1]
        if type(p) is int:
            if type(l) is int:
                out[-1] = (lw + pw, (l << pw) | p)
                return
        elif type(l) is not int:
            lb, lhi, llo = l.a if l.op == 'ext' else (l, l.w - 1, 0)
            pb, phi, plo = p.a if p.op == 'ext' else (p, p.w - 1, 0)
            if lb is pb and llo == phi + 1:
                out[-1] = (lw + pw, ext(lb, lhi, plo))
                return
            if l.op == 'ite' and p.op == 'ite' and l.a[0] is p.a[0]:
                out[-1] = (lw + pw, ite(l.a[0], cat([(lw, l.a[1]), (pw, p.a[1])]),
                                        cat([(lw, l.a[2]), (pw, p.a[2])]), lw + pw))
                return
    out.append(z)

def ext(t, hi, lo):
    if type(t) is int:
        return (t >> lo) & mask(hi - lo + 1)
    w = t.w
    if lo == 0 and hi == w - 1:
        return t
    nw = hi - lo + 1
    op = t.op
    if op == 'lin':
        q = pieces(t, w)
        if len(q) == 1 and q[0][1] is t:
            return _ext_lin(t, hi, lo)
        return _slice(q, w, hi, lo)
    if op == 'cat':
        return _slice(t.a, w, hi, lo)
    if op == 'ext':
        b, h, l = t.a
        return ext(b, l + hi, l + lo)
    if op == 'ite':
        a, b = t.a[1], t.a[2]
        if type(a) is int or type(b) is int:
            return ite(t.a[0], ext(a, hi, lo), ext(b, hi, lo), nw)
    if op in ('xor', 'and', 'or') :
        a, b = t.a
        if type(b) is int:
            return {'xor': bxor, 'and': band, 'or': bor}[op](ext(a, hi, lo), ext(b, hi, lo), nw)
    if op == 'sext':
        b = t.a[0]
        if hi < b.w:
            return ext(b, hi, lo)
    r = rng(t)
    if r[1] < (1 << lo):
        return 0
    bl = r[1].bit_length()
    if bl <= hi:
        return cat(((hi + 1 - bl, 0), (bl - lo, mk('ext', bl - lo, (t, bl - 1, lo)))))
    return mk('ext', nw, (t, hi, lo))

def _tz(x, co):
    tz = (co & -co).bit_length() - 1
    if x.op == 'cat':
        for pw, p in reversed(x.a):
            if p.__class__ is int:
                if p == 0:
                    tz += pw
                    continue
                tz += (p & -p).bit_length() - 1
            break
    return tz

def _ext_lin(t, hi, lo):
    c, ts = t.a
    w = t.w
    nw = hi - lo + 1
    k = w                       # all atoms contribute multiples of 2^k
    kc = w                      # all coefficients are multiples of 2^kc
    for x, co in ts:
        k = min(k, _tz(x, co))
        kc = min(kc, (co & -co).bit_length() - 1)
    if k > hi:
        return (c >> lo) & mask(nw)
    if lo > 0 and kc >= lo:
        # t = 2^lo * X + (c mod 2^lo) mod 2^w, hence bits hi..lo of t are the low bits of X
        X = lin(w, sgn(c, w) >> lo, [(x, sgn(co, w) >> lo) for x, co in ts])
        return ext(X, nw - 1, 0)
    if 0 < k and lo < k and c & mask(k):
        # the k low bits are constant and adding them cannot carry
        up = lin(w, c & ~mask(k), ts)
        return cat(((hi - k + 1, ext(up, hi, k)), (k - lo, (c & mask(k)) >> lo)))
    if lo > 0 and k >= lo and c & mask(lo):
        return ext(lin(w, c & ~mask(lo), ts), hi, lo)
    r = rng(t)
    if r[1] < (1 << lo):
        return 0
    bl = r[1].bit_length()
    if bl <= hi:
        return cat(((hi + 1 - bl, 0), (bl - lo, mk('ext', bl - lo, (t, bl - 1, lo)))))
    return mk('ext', nw, (t, hi, lo))

def _slice(ps, w, hi, lo):
    out = []
    pos = w
    for pw, p in ps:
        top = pos - 1
        bot = pos - pw
        pos = bot
        if bot > hi:
            continue
        if top < lo:
            break
        h = (hi if hi < top else top) - bot
        l = (lo if lo > bot else bot) - bot
        out.append((h - l + 1, ext(p, h, l)))
    return cat(out)

def zext(t, w, w2):
    if type(t) is int:
        return t
    if w == w2: return t
    return cat(((w2 - w, 0), (w, t)))

def sext(t, w, w2):
    if type(t) is int:
        return t | (mask(w2) ^ mask(w)) if t >> (w - 1) else t
    if w == w2: return t
    if rng(t)[1] < (1 << (w - 1)):
        return zext(t, w, w2)
    if t.op == 'ite':
        return ite(t.a[0], sext(t.a[1], w, w2), sext(t.a[2], w, w2), w2)
    return mk('sext', w2, (t,))

def trunc(t, w2):
    return ext(t, w2 - 1, 0)

# ---------------------------------------------------------------- linear

def lin_of(t, w):
    """(const, ((atom,coef),...))"""
    if type(t) is int:
        return (t, ())
    if t.op == 'lin':
        return t.a
    l = t._lin
    if l is None:
        if t.op == 'cat':
            c = 0
            d = {}
            pos = w
            for pw, p in t.a:
                pos -= pw
                if type(p) is int:
                    c += p << pos
                elif p.op == 'ext' and p.a[2] == 0 and p.a[0].op == 'lin' and p.a[0].w == w and rng(p.a[0])[1] <= mask(pw):
                    c2, t2 = p.a[0].a
                    c += c2 << pos
                    for z, k2 in t2:
                        d[z] = d.get(z, 0) + (k2 << pos)
                else:
                    z = p if pw == w else mk('cat', w, ((w - pw, 0), (pw, p)))
                    d[z] = d.get(z, 0) + (1 << pos)
            if len(d) == 1 and c == 0 and d.get(t) == 1:
                l = (0, ((t, 1),))
            else:
                l = (c & mask(w), tuple(sorted(((x, k & mask(w)) for x, k in d.items() if k & mask(w)), key=lambda y: y[0].id)))
        else:
            l = (0, ((t, 1),))
        t._lin = l
    return l

def lin(w, c, ts):
    m = mask(w)
    c &= m
    ts = tuple((x, k & m) for x, k in ts if k & m)
    for x, k in ts:
        if x.op == 'cat' and len(x.a) == 2 and not k & 1:
            (j, z), (pw, p) = x.a
            if z == 0 and type(p) is T and p.op == 'ext' and p.a[2] == 0 and p.a[0].w == w and k & ((1 << j) - 1) == 0:
                # k * (y mod 2^(w-j)) == k * y (mod 2^w) for 2^j | k
                c2, t2 = lin_of(p.a[0], w)
                d = {}
                for u, q in ts:
                    if u is not x: d[u] = d.get(u, 0) + q
                for u, q in t2: d[u] = d.get(u, 0) + q * k
                return lin(w, c + c2 * k, sorted(d.items(), key=lambda y: y[0].id))
    if not ts:
        return c
    if len(ts) == 1 and c == 0 and ts[0][1] == 1:
        return ts[0][0]
    if len(ts) > 1:
        ts = tuple(sorted(ts, key=lambda y: y[0].id))
    t = mk('lin', w, (c, ts))
    return t

def canon(t, w):
    """canonical form for use as key: lin over atoms"""
    if type(t) is int: return t
    c, ts = lin_of(t, w)
    return lin(w, c, ts)

def add(a, b, w):
    if type(a) is int and type(b) is int:
        return (a + b) & mask(w)
    if type(b) is int and b == 0: return a
    if type(a) is int and a == 0: return b
    ca, ta = lin_of(a, w)
    cb, tb = lin_of(b, w)
    if not tb:
        return lin(w, ca + cb, ta)
    if not ta:
        return lin(w, ca + cb, tb)
    d = dict(ta)
    for x, k in tb:
        d[x] = d.get(x, 0) + k
    return lin(w, ca + cb, d.items())

def mulc(a, k, w):
    if type(a) is int:
        return (a * k) & mask(w)
    c, ts = lin_of(a, w)
    return lin(w, c * k, [(x, q * k) for x, q in ts])

def neg(a, w):
    return mulc(a, mask(w), w)

def sub(a, b, w):
    if type(a) is int and type(b) is int:
        return (a - b) & mask(w)
    if a is b:
        return 0
    return add(a, neg(b, w), w)

def mul(a, b, w):
    if type(b) is int: return mulc(a, b, w)
    if type(a) is int: return mulc(b, a, w)
    if a.op == 'ite' and type(a.a[1]) is int and type(a.a[2]) is int:
        return ite(a.a[0], mulc(b, a.a[1], w), mulc(b, a.a[2], w), w)
    if b.op == 'ite' and type(b.a[1]) is int and type(b.a[2]) is int:
        return ite(b.a[0], mulc(a, b.a[1], w), mulc(a, b.a[2], w), w)
    for x, y in ((a, b), (b, a)):
        if x.op == 'cat' and x.a[-1][1] == 0:
            j = x.a[-1][0]
            return mulc(mul(lshrc(x, j, w), y, w), 1 << j, w)
    if a.op == 'lin' or b.op == 'lin':
        # distribute over sums (mod 2^w)
        ca, ta = lin_of(a, w); cb, tb = lin_of(b, w)
        if len(ta) * len(tb) <= 16:
            r = ca * cb & mask(w)
            for x, k in ta: r = add(r, mulc(x, k * cb, w), w)
            for y, q in tb: r = add(r, mulc(y, q * ca, w), w)
            for x, k in ta:
                for y, q in tb:
                    r = add(r, mulc(mk('mul', w, (x, y) if x.id <= y.id else (y, x)), k * q, w), w)
            return r
    if a.id > b.id: a, b = b, a
    return mk('mul', w, (a, b))

# ---------------------------------------------------------------- bitwise

def shlc(t, k, w):
    if k >= w: return 0
    if type(t) is int: return (t << k) & mask(w)
    if k == 0: return t
    if t.op == 'lin':
        q = pieces(t, w)
        if len(q) == 1 and q[0][1] is t:
            return mulc(t, 1 << k, w)
    return cat(((w - k, ext(t, w - k - 1, 0)), (k, 0)))

def lshrc(t, k, w):
    if k >= w: return 0
    if type(t) is int: return t >> k
    if k == 0: return t
    return cat(((k, 0), (w - k, ext(t, w - 1, k))))

def _bitop(name, fn, a, b, w):
    pa = pieces(a, w); pb = pieces(b, w)
    if len(pa) == 1 and len(pb) == 1:
        return None
    # split at common boundaries
    out = []
    ia = ib = 0
    la = list(pa); lb = list(pb)
    wa, va = la[0]; wb, vb = lb[0]
    while True:
        n = wa if wa < wb else wb
        xa = va if n == wa else ext(va, wa - 1, wa - n) if type(va) is not int else va >> (wa - n)
        xb = vb if n == wb else ext(vb, wb - 1, wb - n) if type(vb) is not int else vb >> (wb - n)
        out.append((n, fn(xa, xb, n)))
        if n == wa:
            ia += 1
            if ia < len(la): wa, va = la[ia]
            else: wa = 0
        else:
            va = (va & mask(wa - n)) if type(va) is int else ext(va, wa - n - 1, 0)
            wa -= n
        if n == wb:
            ib += 1
            if ib < len(lb): wb, vb = lb[ib]
            else: wb = 0
        else:
            vb = (vb & mask(wb - n)) if type(vb) is int else ext(vb, wb - n - 1, 0)
            wb -= n
        if not wa:
            break
    return cat(out)

def _maskruns(m, w):
    """decompose constant mask into (width, bit) runs msb first"""
    out = []
    pos = w
    while pos:
        b = (m >> (pos - 1)) & 1
        n = 1
        while n < pos and ((m >> (pos - 1 - n)) & 1) == b:
            n += 1
        out.append((n, b))
        pos -= n
    return out

def band(a, b, w):
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if type(a) is int: return a & b
        if b == 0: return 0
        if b == mask(w): return a
        if w == 1: return a if b else 0
        if a.op == 'ite' and type(a.a[1]) is int and type(a.a[2]) is int:
            return ite(a.a[0], a.a[1] & b, a.a[2] & b, w)
        runs = _maskruns(b, w)
        if len(runs) <= 8:
            out = []
            pos = w
            for n, bit in runs:
                pos -= n
                out.append((n, ext(a, pos + n - 1, pos) if bit else 0))
            return cat(out)
        return mk('and', w, (a, b))
    if a is b: return a
    if w == 1:
        return mk_and(a, b)
    r = _bitop('and', band, a, b, w)
    if r is not None: return r
    if a.op == 'sext' and a.a[0].w == 1:
        return ite(a.a[0], b, 0, w)
    if b.op == 'sext' and b.a[0].w == 1:
        return ite(b.a[0], a, 0, w)
    if a.op == 'ite' and a.a[1] == mask(w) and a.a[2] == 0 and type(a.a[1]) is int and type(a.a[2]) is int:
        return ite(a.a[0], b, 0, w)
    if b.op == 'ite' and type(b.a[1]) is int and type(b.a[2]) is int and b.a[1] == mask(w) and b.a[2] == 0:
        return ite(b.a[0], a, 0, w)
    if a.id > b.id: a, b = b, a
    return mk('and', w, (a, b))

def bor(a, b, w):
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if type(a) is int: return a | b
        if b == 0: return a
        if b == mask(w): return b
    if a is b: return a
    if w == 1:
        if type(b) is int: return 1 if b else a
        return mk_or(a, b)
    if type(b) is int:
        runs = _maskruns(b, w)
        if len(runs) <= 8:
            out = []; pos = w
            for n, bit in runs:
                pos -= n
                out.append((n, mask(n) if bit else ext(a, pos + n - 1, pos)))
            return cat(out)
        return mk('or', w, (a, b))
    r = _bitop('or', bor, a, b, w)
    if r is not None: return r
    if a.id > b.id: a, b = b, a
    return mk('or', w, (a, b))

def bxor(a, b, w):
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if type(a) is int: return a ^ b
        if b == 0: return a
        if w == 1: return bnot(a)
    elif a is b: return 0
    if type(b) is int:
        if a.op == 'xor' and type(a.a[1]) is int:
            return bxor(a.a[0], a.a[1] ^ b, w)
        if a.op == 'ite' and type(a.a[1]) is int and type(a.a[2]) is int:
            return ite(a.a[0], a.a[1] ^ b, a.a[2] ^ b, w)
    if type(a) is not int:
        r = _bitop('xor', bxor, a, b, w)
        if r is not None: return r
    if type(b) is not int and a.id > b.id: a, b = b, a
    return mk('xor', w, (a, b))

def udiv(a, b, w):
    if type(a) is int and type(b) is int and b: return a // b
    if type(b) is int and b and b & (b - 1) == 0:
        return lshrc(a, b.bit_length() - 1, w)
    return mk('udiv', w, (a, b))

def urem(a, b, w):
    if type(a) is int and type(b) is int and b: return a % b
    if type(b) is int and b and b & (b - 1) == 0:
        return band(a, b - 1, w)
    if type(b) is int and b and rng(a)[1] < b: return a
    return mk('urem', w, (a, b))

def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v

def sdiv(a, b, w):
    if type(a) is int and type(b) is int and b:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    h = 1 << (w - 1)
    if type(b) is int and 0 < b < h and rng(a)[1] < h:
        return udiv(a, b, w)
    return mk('sdiv', w, (a, b))

def srem(a, b, w):
    if type(a) is int and type(b) is int and b:
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & mask(w)
    h = 1 << (w - 1)
    if type(b) is int and 0 < b < h and rng(a)[1] < h:
        return urem(a, b, w)
    return mk('srem', w, (a, b))

def shl(a, b, w):
    if type(b) is int: return shlc(a, b, w)
    if type(a) is int and a == 0: return 0
    return mk('shl', w, (a, b))

def lshr(a, b, w):
    if type(b) is int: return lshrc(a, b, w)
    if type(a) is int and a == 0: return 0
    return mk('lshr', w, (a, b))

def ashr(a, b, w):
    if type(b) is int:
        if type(a) is int:
            return (sgn(a, w) >> min(b, w - 1)) & mask(w)
        if rng(a)[1] < (1 << (w - 1)):
            return lshrc(a, b, w)
        if b == 0: return a
        if b < w:
            return sext(ext(a, w - 1, b), w - b, w)
    return mk('ashr', w, (a, b))

def bswap(t, w):
    if type(t) is int:
        return int.from_bytes(t.to_bytes(w // 8, 'little'), 'big')
    return cat([(8, ext(t, 8 * i + 7, 8 * i)) for i in range(w // 8)])

# ---------------------------------------------------------------- booleans

def bnot(a):
    if type(a) is int: return a ^ 1
    if a.op == 'not': return a.a[0]
    return mk('not', 1, (a,))

def mk_and(a, b):
    if type(a) is int: return b if a else 0
    if type(b) is int: return a if b else 0
    if a is b: return a
    if bnot(a) is b: return 0
    if a.id > b.id: a, b = b, a
    return mk('and', 1, (a, b))

def mk_or(a, b):
    if type(a) is int: return 1 if a else b
    if type(b) is int: return 1 if b else a
    if a is b: return a
    if bnot(a) is b: return 1
    if a.id > b.id: a, b = b, a
    return mk('or', 1, (a, b))

def conj(xs):
    r = 1
    for x in xs: r = mk_and(r, x)
    return r

def disj(xs):
    r = 0
    for x in xs: r = mk_or(r, x)
    return r

def implies(a, b):
    return mk_or(bnot(a), b)

def ite(c, a, b, w):
    if type(c) is int: return a if c else b
    if a is b: return a
    if type(a) is int and type(b) is int and a == b: return a
    if w == 1:
        if type(a) is int:
            return mk_or(c, b) if a else mk_and(bnot(c), b)
        if type(b) is int:
            return mk_or(bnot(c), a) if b else mk_and(c, a)
    if c.op == 'not':
        return ite(c.a[0], b, a, w)
    if type(a) is not int and a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if type(b) is not int and b.op == 'ite' and b.a[0] is c: b = b.a[2]
    return mk('ite', w, (c, a, b))

def eq(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a == b else 0
    if a is b: return 1
    if w == 1:
        if type(a) is int: return b if a else bnot(b)
        if type(b) is int: return a if b else bnot(a)
    ra, rb = rng(a), rng(b)
    if ra[1] < rb[0] or rb[1] < ra[0]: return 0
    if type(b) is int: a, b = b, a
    if type(a) is int and b.op == 'ite':
        x, y = b.a[1], b.a[2]
        if type(x) is int or type(y) is int:
            return ite(b.a[0], eq(a, x, w), eq(a, y, w), 1)
    d = sub(a, b, w)
    if type(d) is int:
        return 1 if d == 0 else 0
    c, ts = d.a if d.op == 'lin' else (0, ((d, 1),))
    # gcd test on powers of two
    k = w
    for x, co in ts:
        tz = (co & -co).bit_length() - 1
        if tz < k: k = tz
    if k and c & mask(k): return 0
    if type(a) is int or type(b) is int or len(pieces(a, w)) > 1 or len(pieces(b, w)) > 1:
        pa, pb = pieces(a, w), pieces(b, w)
        if len(pa) > 1 or len(pb) > 1:
            return _eq_pieces(pa, pb, w)
    # normalise sign/order
    x, y = (a, b)
    if type(x) is not int and type(y) is not int and x.id > y.id: x, y = y, x
    return mk('eq', 1, (x, y))

def _eq_pieces(pa, pb, w):
    la = list(pa); lb = list(pb)
    cuts = set(); p = 0
    for n, _ in la:
        p += n; cuts.add(p)
    p = 0
    for n, _ in lb:
        p += n; cuts.add(p)
    ta = mk('cat', w, pa) if len(pa) > 1 else pa[0][1]
    tb = mk('cat', w, pb) if len(pb) > 1 else pb[0][1]
    # common cuts only
    ca = set(); p = 0
    for n, _ in la: p += n; ca.add(p)
    cb = set(); p = 0
    for n, _ in lb: p += n; cb.add(p)
    # where one side is constant we may cut anywhere
    r = 1
    prev = 0
    for c in sorted(cuts):
        hi = w - 1 - prev; lo = w - c
        xa = _slice(pa, w, hi, lo) if len(pa) > 1 else ext(ta, hi, lo)
        xb = _slice(pb, w, hi, lo) if len(pb) > 1 else ext(tb, hi, lo)
        n = hi - lo + 1
        prev = c
        if type(xa) is int and type(xb) is int:
            if xa != xb: return 0
            continue
        if xa is xb: continue
        if n == 1:
            e = eq(xa, xb, 1)
        else:
            if type(xb) is int: xa, xb = xb, xa
            if type(xa) is int and xb.op in ('cat',):
                e = _eq_pieces(pieces(xa, n), pieces(xb, n), n)
            else:
                if type(xa) is not int and type(xb) is not int and xa.id > xb.id: xa, xb = xb, xa
                ra, rb = rng(xa), rng(xb)
                if ra[1] < rb[0] or rb[1] < ra[0]: return 0
                e = mk('eq', 1, (xa, xb))
        r = mk_and(r, e)
        if type(r) is int and r == 0: return 0
    return r

def ult(a, b, w):
    if type(a) is int and type(b) is int: return 1 if a < b else 0
    if a is b: return 0
    ra, rb = rng(a), rng(b)
    if ra[1] < rb[0]: return 1
    if ra[0] >= rb[1]: return 0
    # cancel common parts when neither side wraps
    full = mask(w)
    if type(a) is not int and type(b) is not int and ra[1] < full and rb[1] < full:
        ca, ta = lin_of(a, w); cb, tb = lin_of(b, w)
        if ta == tb and ta:
            half = 1 << (w - 1)
            if all(k < half for _, k in ta) and ca < half and cb < half and _nowrap(ca, ta, w) and _nowrap(cb, tb, w):
                return 1 if ca < cb else 0
    if type(b) is int and b == 1:
        return eq(a, 0, w)
    if type(a) is int and a == 0:
        return bnot(eq(b, 0, w))
    return mk('ult', 1, (a, b))

def _nowrap(c, ts, w):
    hi = c
    for x, k in ts: hi += k * rng(x)[1]
    return hi < (1 << w)

def ule(a, b, w):
    return bnot(ult(b, a, w))

def slt(a, b, w):
    if type(a) is int and type(b) is int: return 1 if sgn(a, w) < sgn(b, w) else 0
    if a is b: return 0
    h = 1 << (w - 1)
    if type(b) is int and b == 0 and type(a) is not int and a.op == 'ite':
        return ite(a.a[0], slt(a.a[1], b, w), slt(a.a[2], b, w), 1)
    ra, rb = rng(a), rng(b)
    if ra[1] < h and rb[1] < h:
        return ult(a, b, w)
    return mk('slt', 1, (a, b))

def sle(a, b, w):
    return bnot(slt(b, a, w))

def umax(a, b, w): return ite(ult(a, b, w), b, a, w)
def umin(a, b, w): return ite(ult(b, a, w), b, a, w)

# ---------------------------------------------------------------- misc atoms

def byte0(region, off):
    """initial content of a region at byte offset off (64-bit term)"""
    return mk('byte', 8, (region, canon(off, 64)))

def sel(array, idx, w):
    """initial element idx of a symbolic array"""
    return mk('sel', w, (array, canon(idx, 64)))

def uf(name, w, *args):
    return mk('uf', w, (name,) + args)

def show(t, d=0):
    if type(t) is int: return hex(t) if t > 9 else str(t)
    if d > 6: return '...'
    op = t.op
    if op == 'var': return t.a[0]
    if op == 'cat': return '{' + ','.join('%s:%d' % (show(p, d + 1), w) for w, p in t.a) + '}'
    if op == 'lin':
        c, ts = t.a
        s = []
        if c: s.append(str(sgn(c, t.w)))
        for x, k in ts:
            k = sgn(k, t.w)
            s.append(show(x, d + 1) if k == 1 else '%d*%s' % (k, show(x, d + 1)))
        return '(' + ' + '.join(s) + ')'
    if op == 'ext': return '%s[%d:%d]' % (show(t.a[0], d + 1), t.a[1], t.a[2])
    return '%s(%s)' % (op, ', '.join(show(x, d + 1) if type(x) in (int, T) else str(x) for x in t.a))
