"""The 842 format, written from its description (src/common/842.h comment and
the 842 standard): the oracle of every functional obligation, and a concrete
reference coder used to sample traces and to replay violations."""

TEMPLATES = [
    'D8', 'D4 D2 I2', 'D4 I2 D2', 'D4 I2 I2', 'D4 I4',
    'D2 I2 D4', 'D2 I2 D2 I2', 'D2 I2 I2 D2', 'D2 I2 I2 I2', 'D2 I2 I4',
    'I2 D2 D4', 'I2 D4 I2', 'I2 D2 I2 D2', 'I2 D2 I2 I2', 'I2 D2 I4',
    'I2 I2 D4', 'I2 I2 D2 I2', 'I2 I2 I2 D2', 'I2 I2 I2 I2', 'I2 I2 I4',
    'I4 D4', 'I4 D2 I2', 'I4 I2 D2', 'I4 I2 I2', 'I4 I4', 'I8']
TEMPLATES = [[(x[0], int(x[1])) for x in t.split()] for t in TEMPLATES]
OP_REPEAT, OP_ZEROS, OP_SHORT, OP_END = 0x1b, 0x1c, 0x1d, 0x1e
IBITS = {2: 8, 4: 9, 8: 8}
FIFO = {2: 512, 4: 2048, 8: 2048}

def fields(op):
    """[(bits)] of the fields after the 5-bit op"""
    if op < len(TEMPLATES):
        return [8 * n if k == 'D' else IBITS[n] for k, n in TEMPLATES[op]]
    if op == OP_REPEAT: return [6]
    if op == OP_ZEROS: return []
    if op == OP_END: return [32]
    return None

def crc32be(data, crc=0):
    for b in data:
        crc ^= b << 24
        for _ in range(8):
            crc = ((crc << 1) ^ 0x04C11DB7) & 0xffffffff if crc & 0x80000000 else crc << 1
    return crc

_T = []
for _i in range(256):
    _T.append(crc32be(bytes([_i])))
def crc32be_fast(data, c=0):
    for b in data:
        c = ((c << 8) & 0xffffffff) ^ _T[(c >> 24) ^ b]
    return c

def resolve(i, n, out_len):
    """ring-buffer index -> absolute offset, or None for a forward reference"""
    F = FIFO[n]
    total = out_len & ~7
    off = i * n
    if total > F:
        section = total // F * F
        pos = total - section
        if off >= pos: section -= F
        off += section
    return off if off + n <= total else None

class Bad(Exception):
    pass
class NoSpace(Exception):
    pass

def decode(data, cap=None, short=True, crc=True, nbits=None, ops=None, stop=None):
    """reference decoder. returns output; raises Bad / NoSpace"""
    total = 8 * len(data) if nbits is None else nbits
    val = int.from_bytes(data, 'big')
    vl = 8 * len(data)
    pos = 0
    def bits(n):
        nonlocal pos
        if pos + n > total: raise Bad('truncated')
        r = (val >> (vl - pos - n)) & ((1 << n) - 1)
        pos += n
        return r
    if len(data) > 4096:            # windowed reads for big inputs
        def bits(n):
            nonlocal pos
            if pos + n > total: raise Bad('truncated')
            a = pos >> 3; b = (pos + n + 7) >> 3
            r = (int.from_bytes(data[a:b], 'big') >> (8 * b - pos - n)) & ((1 << n) - 1)
            pos += n
            return r
    out = bytearray()
    nospace = False
    def room(k):
        if cap is not None and len(out) + k > cap: raise NoSpace()
    while True:
        op = bits(5)
        if ops is not None: ops.append((op, pos - 5, len(out)))
        if op < 26:
            piece = bytearray()
            for k, n in TEMPLATES[op]:
                if k == 'D': piece += bits(8 * n).to_bytes(n, 'big')
                else:
                    i = bits(IBITS[n])
                    o = resolve(i, n, len(out) + len(piece))
                    if o is None: raise Bad('forward reference')
                    piece += (out + piece)[o:o + n] if o + n > len(out) else out[o:o + n]
            room(8)
            out += piece
        elif op == OP_REPEAT:
            k = bits(6) + 1
            if len(out) < 8: raise Bad('nothing to repeat')
            room(8 * k)
            out += out[-8:] * k
        elif op == OP_ZEROS:
            room(8)
            out += bytes(8)
        elif op == OP_SHORT and short:
            k = bits(3)
            if k == 0: raise Bad('empty short data')
            piece = bytes(bits(8) for _ in range(k))
            room(k)
            out += piece
        elif op == OP_END:
            c = bits(32)
            if crc and c != crc32be_fast(out): raise Bad('crc')
            return bytes(out), pos
        else:
            raise Bad('undefined template')

class Enc:
    """writes chosen templates; keeps the output so far"""
    def __init__(self):
        self.b = []; self.n = 0; self.out = bytearray(); self.ops = []
    def put(self, v, n):
        self.b.append((v, n)); self.n += n
    def op(self, op, fs=()):
        self.ops.append((op, self.n, len(self.out)))
        self.put(op, 5)
        if op < 26:
            for (k, n), f in zip(TEMPLATES[op], fs):
                self.put(f, 8 * n if k == 'D' else IBITS[n])
                if k == 'D': self.out += f.to_bytes(n, 'big')
                else:
                    o = resolve(f, n, len(self.out))
                    if o is None: self.out += bytes(n)
                    else: self.out += self.out[o:o + n]
        elif op == OP_REPEAT:
            self.put(fs[0], 6)
            self.out += self.out[-8:] * (fs[0] + 1)
        elif op == OP_ZEROS: self.out += bytes(8)
        elif op == OP_SHORT:
            self.put(len(fs), 3)
            for f in fs: self.put(f, 8)
            self.out += bytes(fs)
        elif op == OP_END:
            self.put(fs[0] if fs else crc32be_fast(self.out), 32)
    def data(self, pad=True):
        v = 0
        for x, n in self.b: v = (v << n) | x
        n = self.n
        p = -n % (64 if pad else 8)
        return (v << p).to_bytes((n + p) // 8, 'big')

def random_stream(R, nops, short=False, end=True, ringy=False, weird=0.0):
    """random well-formed stream (list of templates with valid fields)"""
    e = Enc()
    for _ in range(nops):
        r = R.random()
        if r < 0.12 and len(e.out) >= 8:
            e.op(OP_REPEAT, [R.choice([0, 1, 2, 5, 62, 63]) if R.random() < .5 else R.randrange(64)])
        elif r < 0.17: e.op(OP_ZEROS)
        elif r < 0.25 and short:
            e.op(OP_SHORT, [R.randrange(256) for _ in range(R.randrange(1, 8))])
        else:
            for _try in range(50):
                op = R.randrange(26)
                fs = []
                ln = len(e.out)
                ok = True
                for k, n in TEMPLATES[op]:
                    if k == 'D': fs.append(R.choice([R.getrandbits(8 * n), 0, R.getrandbits(8) << (8 * n - 8)]))
                    else:
                        for _t in range(12):
                            i = R.getrandbits(IBITS[n])
                            if ln < FIFO[n]: i = R.randrange(max(1, (ln & ~7) // n + (R.random() < .02)))  & ((1 << IBITS[n]) - 1)
                            if resolve(i, n, ln) is not None: break
                        else: ok = False
                        fs.append(i)
                    ln += n
                if ok: break
            else:
                op = 0; fs = [R.getrandbits(64)]
            e.op(op, fs)
    if end: e.op(OP_END)
    return e
