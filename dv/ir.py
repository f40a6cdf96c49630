"""Textual LLVM-18 IR parser (the subset clang emits for this code base).

The IR is produced from /repo's sources on every run by clang with all
optimisation passes disabled, followed by SROA and CFG simplification only,
so a Func below is the code that is compiled, not a model of it.
"""
import re, struct

class IRError(Exception):
    pass

# ------------------------------------------------------------------ types
# ('i',w) ('ptr',) ('void',) ('arr',n,t) ('st',(types),packed) ('vec',n,t)
# ('float',) ('double',) ('label',) ('meta',) ('opaque',) ('fn',)

PTR = ('ptr',)
VOID = ('void',)
_int = {}
def I(w):
    t = _int.get(w)
    if t is None:
        t = _int[w] = ('i', w)
    return t

class Glob:
    __slots__ = ('name', 'mod')
    def __init__(self, name, mod): self.name = name; self.mod = mod
    def __repr__(self): return '@' + self.name

class CE:
    """constant expression, evaluated by the executor"""
    __slots__ = ('op', 'args')
    def __init__(self, op, args): self.op = op; self.args = args

class Undef:
    __slots__ = ()
    def __repr__(self): return 'undef'
UNDEF = Undef()

class Asm:
    __slots__ = ('text', 'constraints')
    def __init__(self, t, c): self.text = t; self.constraints = c

class Agg:
    __slots__ = ('items',)
    def __init__(self, items): self.items = items

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<meta>![-a-zA-Z$._0-9]*)
 |(?P<attr>\#\d+)
 |(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9a-fA-F]+|-?\d+)
 |(?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 |(?P<p><\{|\}>|\.\.\.|[()\[\]{}<>,=*:;|])
)''', re.X)

def tokens(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise IRError('token: ' + s[i:i + 60])
        k = m.lastgroup
        v = m.group(k)
        if k == 'p' and v == ';':
            break
        out.append((k, v))
        i = m.end()
    return out

PATTR = set('''noundef zeroext signext nonnull noalias nocapture readonly readnone writeonly
 immarg returned nofree dead_on_unwind writable nest inreg swiftself noreturn inrange mustprogress local_unnamed_addr'''.split())
FATTR = set('nuw nsw exact inbounds fast nnan ninf nsz arcp contract afn reassoc volatile disjoint nneg samesign'.split())
LINK = set('''private internal linkonce linkonce_odr weak weak_odr external common appending available_externally
 dso_local dso_preemptable hidden protected default unnamed_addr local_unnamed_addr thread_local constant global
 fastcc ccc coldcc spir_func spir_kernel extern_weak tail musttail notail addrspace'''.split())

class P:
    def __init__(self, mod, toks):
        self.m = mod; self.t = toks; self.i = 0
    def peek(self, d=0):
        j = self.i + d
        return self.t[j][1] if j < len(self.t) else None
    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None
    def next(self):
        if self.i >= len(self.t): raise IRError('eol')
        v = self.t[self.i][1]
        self.i += 1
        return v
    def acc(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False
    def exp(self, v):
        if not self.acc(v):
            raise IRError('expected %r got %r in %r' % (v, self.t[self.i:self.i + 6], self.t[:12]))

    def type(self):
        v = self.next()
        if v[0] == 'i' and v[1:].isdigit():
            t = I(int(v[1:]))
        elif v == 'ptr':
            t = PTR
            if self.acc('addrspace'):
                self.exp('('); self.next(); self.exp(')')
        elif v == 'void': t = VOID
        elif v in ('float', 'double', 'half', 'x86_fp80', 'fp128'): t = (v,)
        elif v == 'label': t = ('label',)
        elif v == 'metadata': t = ('meta',)
        elif v == 'token': t = ('token',)
        elif v == 'opaque': t = ('opaque',)
        elif v == '[':
            n = int(self.next()); self.exp('x'); e = self.type(); self.exp(']')
            t = ('arr', n, e)
        elif v == '<':
            n = int(self.next()); self.exp('x'); e = self.type(); self.exp('>')
            t = ('vec', n, e)
        elif v in ('{', '<{'):
            end = '}' if v == '{' else '}>'
            ts = []
            if not self.acc(end):
                while True:
                    ts.append(self.type())
                    if self.acc(end): break
                    self.exp(',')
            t = ('st', tuple(ts), v == '<{')
        elif v[0] == '%':
            t = ('named', v[1:].strip('"'))
        else:
            raise IRError('type %r' % v)
        # function type
        if self.peek() == '(' and self._isfn():
            d = 0
            while True:
                x = self.next()
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
            t = ('fn', t)
        return t

    def _isfn(self):
        # a '(' directly after a type within a call's type position: vararg signature
        d = 0
        j = self.i
        while j < len(self.t):
            x = self.t[j][1]
            if x == '(': d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    nx = self.t[j + 1] if j + 1 < len(self.t) else (None, None)
                    return nx[0] == 'id' or nx[1] == 'asm'
            j += 1
        return False

    def skip_attrs(self):
        while self.i < len(self.t):
            k, v = self.t[self.i]
            if k == 'attr' or v in PATTR:
                self.i += 1
            elif v in ('align',) :
                self.i += 1
                if self.acc('('):
                    self.next(); self.exp(')')
                else: self.next()
            elif v in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'range', 'captures', 'memory', 'preallocated', 'initializes', 'nofpclass', 'allocsize', 'alignstack'):
                self.i += 1
                d = 0
                while True:
                    x = self.next()
                    if x == '(': d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0: break
            else:
                break

    def const(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'id':
            if v[0] == '%': return v[1:].strip('"')
            return Glob(v[1:].strip('"'), self.m)
        if k == 'num':
            ty = self.m.res(ty)
            if ty[0] == 'i':
                return int(v) & ((1 << ty[1]) - 1)
            if ty[0] in ('float', 'double'):
                return CE('float', (v,))
            return int(v)
        if k == 'str':
            return Agg(_cstr(v))
        if v in ('null', 'zeroinitializer', 'none'):
            ty = self.m.res(ty)
            if ty[0] in ('i', 'ptr'): return 0
            return CE('zero', (ty,))
        if v == 'true': return 1
        if v == 'false': return 0
        if v in ('undef', 'poison'): return UNDEF
        if v in ('[', '{', '<', '<{'):
            end = {'[': ']', '{': '}', '<': '>', '<{': '}>'}[v]
            if v == '<' and self.peek() == '{':
                self.i += 1; end = '}>'
            items = []
            if not self.acc(end):
                while True:
                    t = self.type()
                    items.append(self.const(t))
                    if self.acc(end): break
                    self.exp(',')
            return Agg(items)
        if v == 'getelementptr':
            while self.peek() in FATTR or self.peek() == 'inrange': self.i += 1
            self.exp('(')
            t = self.type(); self.exp(',')
            ops = []
            while True:
                self.acc('inrange')
                ot = self.type(); ops.append((ot, self.const(ot)))
                if self.acc(')'): break
                self.exp(',')
            return CE('gep', (t, ops[0][1], ops[1:]))
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.exp('(')
            t = self.type(); c = self.const(t); self.exp('to'); t2 = self.type(); self.exp(')')
            return CE('cast', (v, t, c, t2))
        if v in ('sub', 'add', 'mul', 'shl', 'and', 'or', 'xor'):
            while self.peek() in FATTR: self.i += 1
            self.exp('(')
            t = self.type(); a = self.const(t); self.exp(','); t2 = self.type(); b = self.const(t2); self.exp(')')
            return CE('bin', (v, t, a, b))
        if v == 'icmp':
            pr = self.next(); self.exp('('); t = self.type(); a = self.const(t); self.exp(','); t2 = self.type(); b = self.const(t2); self.exp(')')
            return CE('icmp', (pr, t, a, b))
        if v in ('dso_local_equivalent', 'no_cfi'):
            return self.const(ty)
        raise IRError('const %r' % v)

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.const(t)

def _cstr(v):
    s = v[v.index('"') + 1:-1]
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return out

class Func:
    __slots__ = ('name', 'mod', 'ret', 'params', 'blocks', 'entry', 'src', 'parsed', 'internal', 'order', 'isdecl')

class Inst:
    __slots__ = ('op', 'd', 'a', 'ty', 'line')
    def __init__(self, op, d, a, ty=None): self.op = op; self.d = d; self.a = a; self.ty = ty
    def __repr__(self): return '%s = %s %s' % (self.d, self.op, self.a)

CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'fptoui', 'uitofp', 'sitofp', 'fptosi', 'fpext', 'fptrunc'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}

class Module:
    def __init__(self, text, name=''):
        self.name = name
        self.types = {}
        self.gsrc = {}
        self.globs = {}
        self.funcs = {}
        self.aliases = {}
        self._rcache = {}
        self._lay = {}
        self.parse(text)

    def res(self, t):
        if t[0] == 'named':
            r = self._rcache.get(t[1])
            if r is None:
                src = self.types.get(t[1])
                if src is None: raise IRError('unknown type ' + t[1])
                r = self._rcache[t[1]] = P(self, tokens(src)).type()
                if r[0] == 'named': r = self.res(r)
            return r
        return t

    # size in bytes (alloc size), alignment
    def lay(self, t):
        l = self._lay.get(t)
        if l is None:
            l = self._lay[t] = self._layout(t)
        return l
    def _layout(self, t):
        t = self.res(t)
        k = t[0]
        if k == 'i':
            n = max(1, (t[1] + 7) // 8)
            p = 1
            while p < n: p *= 2
            return (p, min(p, 16), None)
        if k == 'ptr': return (8, 8, None)
        if k == 'float': return (4, 4, None)
        if k == 'double': return (8, 8, None)
        if k == 'arr':
            s, a, _ = self.lay(t[2])
            return (s * t[1], a, None)
        if k == 'vec':
            s, a, _ = self.lay(t[2])
            n = s * t[1]
            p = 1
            while p < n: p *= 2
            return (p, p, None)
        if k == 'st':
            off = 0; al = 1; offs = []
            for e in t[1]:
                s, a, _ = self.lay(e)
                if t[2]: a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al, tuple(offs))
        if k == 'x86_fp80': return (16, 16, None)
        raise IRError('layout %r' % (t,))
    def size(self, t): return self.lay(t)[0]
    def align(self, t): return self.lay(t)[1]
    def width(self, t):
        t = self.res(t)
        if t[0] == 'i': return t[1]
        if t[0] == 'ptr': return 64
        if t[0] == 'vec': return t[1] * self.width(t[2])
        if t[0] == 'float': return 32
        if t[0] == 'double': return 64
        return 8 * self.size(t)

    def parse(self, text):
        lines = text.split('\n')
        n = len(lines)
        i = 0
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                f = Func()
                f.mod = self
                f.src = (l, lines[i + 1:j])
                f.parsed = False
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                f.name = m.group(1).strip('"')
                f.internal = ' internal ' in l.split('@')[0] + ' '
                f.isdecl = False
                self.funcs[f.name] = f
                i = j + 1
                continue
            if l.startswith('@'):
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
                nm = m.group(1).strip('"')
                if ' alias ' in ' ' + m.group(2).split('@')[0]:
                    self.aliases[nm] = m.group(2).rsplit('@', 1)[1].strip('"')
                else:
                    self.gsrc[nm] = m.group(2)
            elif l.startswith('%'):
                m = re.match(r'%("[^"]*"|[-a-zA-Z$._0-9]+) = type (.*)$', l)
                if m: self.types[m.group(1).strip('"')] = m.group(2)
            i += 1

    def glob(self, name):
        """(type, initialiser or None, is_constant)"""
        g = self.globs.get(name)
        if g is None:
            src = self.gsrc[name]
            p = P(self, tokens(src.replace(' addrspace(1)', '').replace(' addrspace(2)', '')))
            cst = False
            ext = False
            while p.peek() in LINK:
                w = p.next()
                if w == 'constant': cst = True
                if w in ('external', 'extern_weak'): ext = True
                if w in ('constant', 'global'): break
                if w == 'thread_local' and p.acc('('):
                    p.next(); p.exp(')')
            t = p.type()
            init = None
            if not ext and p.peek() not in (None, ','):
                init = p.const(t)
            g = self.globs[name] = (t, init, cst)
        return g

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            a = self.aliases.get(name)
            if a: return self.func(a)
            return None
        if not f.parsed:
            self._parse_func(f)
        return f

    def signature(self, name):
        f = self.funcs.get(name)
        if f is None: return None
        self._parse_sig(f)
        return f

    def _parse_sig(self, f):
        l = f.src[0]
        p = P(self, tokens(l))
        p.exp('define')
        while True:
            v = p.peek()
            if v in LINK or v in PATTR:
                p.i += 1
                if v == 'addrspace':
                    p.exp('('); p.next(); p.exp(')')
            elif v in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                p.skip_attrs()
            else: break
        f.ret = p.type()
        p.next()
        p.exp('(')
        f.params = []
        n = 0
        if not p.acc(')'):
            while True:
                if p.acc('...'):
                    p.exp(')'); break
                t = p.type(); p.skip_attrs()
                if p.kind() == 'id':
                    nm = p.next()[1:].strip('"')
                else:
                    nm = str(n)
                n += 1
                f.params.append((t, nm))
                if p.acc(')'): break
                p.exp(',')

    def _parse_func(self, f):
        self._parse_sig(f)
        f.blocks = {}
        f.order = []
        cur = None
        body = f.src[1]
        i = 0
        first = True
        while i < len(body):
            l = body[i]
            i += 1
            s = l.strip()
            if not s or s[0] == ';': continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if m and not l.startswith(' '):
                cur = m.group(1).strip('"')
                f.blocks[cur] = []
                f.order.append(cur)
                if first: f.entry = cur
                first = False
                continue
            if cur is None:
                cur = str(len(f.params)); f.blocks[cur] = []; f.entry = cur; f.order.append(cur); first = False
            if re.match(r'^(%\S+ = )?switch ', s) and s.endswith('['):
                while not body[i].strip().startswith(']'):
                    s += ' ' + body[i].strip(); i += 1
                s += ' ]'; i += 1
            elif 'invoke ' in s and not ' unwind ' in s:
                s += ' ' + body[i].strip(); i += 1
            elif re.match(r'^%\S+ = landingpad', s):
                while i < len(body) and re.match(r'^\s+(cleanup|catch |filter )', body[i]):
                    s += ' ' + body[i].strip(); i += 1
            # strip metadata attachments
            s = re.sub(r', !(tbaa|srcloc|llvm|nosanitize|prof|range|noundef|align|nonnull|dereferenceable|tbaa\.struct|invariant\.load|noalias|alias\.scope|kernel_arg\w*|heapallocsite)[.\w]* !\d+', '', s)
            try:
                f.blocks[cur].append(self._inst(s))
            except IRError as e:
                raise IRError('%s in %s: %s' % (e, f.name, s[:200]))
        f.parsed = True

    def _inst(self, s):
        p = P(self, tokens(s))
        d = None
        if p.kind() == 'id' and p.peek(1) == '=':
            d = p.next()[1:].strip('"'); p.next()
        while p.peek() in ('tail', 'musttail', 'notail'): p.next()
        op = p.next()
        if op in BIN:
            fl = 0
            while p.peek() in FATTR:
                if p.next() == 'nsw': fl = 1
            t = p.type(); a = p.const(t); p.exp(','); b = p.const(t)
            return Inst(op, d, (self.width(t), a, b, fl), t)
        if op == 'load':
            while p.peek() in FATTR or p.peek() == 'atomic': p.next()
            t = p.type(); p.exp(','); pt = p.type(); a = p.const(pt)
            al = 1
            while p.i < len(p.t):
                if p.next() == 'align': al = int(p.next())
            return Inst('load', d, (a, al), t)
        if op == 'store':
            while p.peek() in FATTR or p.peek() == 'atomic': p.next()
            t = p.type(); v = p.const(t); p.exp(','); pt = p.type(); a = p.const(pt)
            al = 1
            while p.i < len(p.t):
                if p.next() == 'align': al = int(p.next())
            return Inst('store', None, (v, a, al), t)
        if op == 'getelementptr':
            while p.peek() in FATTR: p.next()
            t = p.type(); p.exp(',')
            pt, base = p.tv()
            idx = []
            while p.acc(','):
                idx.append(p.tv())
            return Inst('gep', d, self._gep(t, base, idx), PTR)
        if op == 'icmp':
            while p.peek() in FATTR: p.next()
            pr = p.next(); t = p.type(); a = p.const(t); p.exp(','); b = p.const(t)
            return Inst('icmp', d, (pr, self.width(t), a, b), t)
        if op == 'br':
            if p.acc('label'):
                return Inst('jmp', None, p.next()[1:].strip('"'))
            t = p.type(); c = p.const(t); p.exp(','); p.exp('label'); x = p.next()[1:].strip('"'); p.exp(','); p.exp('label'); y = p.next()[1:].strip('"')
            return Inst('br', None, (c, x, y))
        if op == 'switch':
            t = p.type(); v = p.const(t); p.exp(','); p.exp('label'); df = p.next()[1:].strip('"'); p.exp('[')
            cs = []
            while not p.acc(']'):
                ct = p.type(); c = p.const(ct); p.exp(','); p.exp('label'); cs.append((c, p.next()[1:].strip('"')))
            return Inst('switch', None, (v, self.width(t), df, cs))
        if op == 'phi':
            while p.peek() in FATTR: p.next()
            t = p.type()
            inc = {}
            while True:
                p.exp('['); v = p.const(t); p.exp(','); b = p.next()[1:].strip('"'); p.exp(']')
                inc[b] = v
                if not p.acc(','): break
            return Inst('phi', d, inc, t)
        if op == 'select':
            while p.peek() in FATTR: p.next()
            t = p.type(); c = p.const(t); p.exp(',')
            ta, a = p.tv(); p.exp(','); tb, b = p.tv()
            return Inst('select', d, (c, a, b), ta)
        if op in CAST:
            while p.peek() in FATTR: p.next()
            t = p.type(); v = p.const(t); p.exp('to'); t2 = p.type()
            return Inst('cast', d, (op, self.width(t) if t[0] != 'void' else 0, v, self.width(t2), t), t2)
        if op == 'freeze':
            t = p.type(); v = p.const(t)
            return Inst('copy', d, v, t)
        if op in ('call', 'invoke'):
            return self._call(p, op, d)
        if op == 'ret':
            if p.peek() == 'void': return Inst('ret', None, None)
            t = p.type(); v = p.const(t)
            return Inst('ret', None, v, t)
        if op == 'unreachable': return Inst('unreachable', None, None)
        if op == 'alloca':
            t = p.type()
            n = 1
            al = self.align(t)
            while p.acc(','):
                if p.acc('align'): al = int(p.next())
                elif p.acc('addrspace'):
                    p.exp('('); p.next(); p.exp(')')
                else:
                    nt = p.type(); n = p.const(nt)
            return Inst('alloca', d, (self.size(t), n, al), t)
        if op == 'extractvalue':
            t, v = p.tv()
            ix = []
            while p.acc(','): ix.append(int(p.next()))
            return Inst('extractvalue', d, (v, ix), t)
        if op == 'insertvalue':
            t, v = p.tv(); p.exp(','); t2, e = p.tv()
            ix = []
            while p.acc(','): ix.append(int(p.next()))
            return Inst('insertvalue', d, (v, e, ix), t)
        if op == 'landingpad':
            t = p.type()
            cl = False; cs = []
            while p.i < len(p.t):
                if p.acc('cleanup'): cl = True
                elif p.acc('catch'):
                    ct, c = p.tv(); cs.append(c)
                elif p.acc('filter'):
                    p.tv(); cs.append(None)
                else: p.next()
            return Inst('landingpad', d, (cl, cs), t)
        if op == 'resume':
            t, v = p.tv()
            return Inst('resume', None, v)
        if op in ('extractelement',):
            t, v = p.tv(); p.exp(','); t2, i = p.tv()
            return Inst('extractelement', d, (self.res(t), v, i), t[2])
        if op == 'insertelement':
            t, v = p.tv(); p.exp(','); t2, e = p.tv(); p.exp(','); t3, i = p.tv()
            return Inst('insertelement', d, (self.res(t), v, e, i), t)
        if op == 'shufflevector':
            t, v = p.tv(); p.exp(','); t2, v2 = p.tv(); p.exp(','); t3, mk = p.tv()
            return Inst('shufflevector', d, (t, v, v2, mk, t3), t)
        if op in ('atomicrmw', 'cmpxchg', 'fence', 'va_arg', 'fcmp', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
            return Inst('unsupported', d, op)
        raise IRError('instruction %s' % op)

    def _gep(self, t, base, idx):
        """(base, const offset, [(value, width, scale)])"""
        off = 0
        var = []
        it, v = idx[0]
        sz = self.size(t)
        if type(v) is int:
            w = self.width(it)
            off += (v - (1 << w) if v >> (w - 1) else v) * sz
        else:
            var.append((v, self.width(it), sz))
        for it, v in idx[1:]:
            t = self.res(t)
            if t[0] == 'st':
                off += self.lay(t)[2][v]
                t = t[1][v]
            else:
                sz = self.size(t[2])
                if type(v) is int:
                    w = self.width(it)
                    off += (v - (1 << w) if v >> (w - 1) else v) * sz
                else:
                    var.append((v, self.width(it), sz))
                t = t[2]
        return (base, off, tuple(var))

    def _call(self, p, op, d):
        while p.peek() in LINK or p.peek() in PATTR or p.peek() in FATTR:
            p.next()
            if p.t[p.i - 1][1] == 'addrspace':
                p.exp('('); p.next(); p.exp(')')
        p.skip_attrs()
        while p.peek() in LINK or p.peek() in PATTR: p.next()
        t = p.type()
        if t[0] == 'fn': t = t[1]
        if p.acc('asm'):
            while p.kind() == 'word': p.next()
            txt = p.next(); p.exp(','); con = p.next()
            callee = Asm(txt.strip('"'), con.strip('"'))
        else:
            callee = p.const(PTR)
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                at = p.type()
                if at[0] == 'meta':
                    d2 = 0
                    while not (d2 == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        if x in '([{': d2 += 1
                        if x in ')]}': d2 -= 1
                    args.append((at, None))
                else:
                    p.skip_attrs()
                    args.append((at, p.const(at)))
                if p.acc(')'): break
                p.exp(',')
        nd = ud = None
        if op == 'invoke':
            while p.next() != 'to': pass
            p.exp('label'); nd = p.next()[1:].strip('"'); p.exp('unwind'); p.exp('label'); ud = p.next()[1:].strip('"')
        return Inst('call', d, (callee, args, nd, ud), t)
