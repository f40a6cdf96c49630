"""Exact exploration of code whose loops have a constant number of iterations:
all states that meet at a loop header in the same iteration are merged into one
(values become choices over the path conditions), so the number of paths does
not grow with the iterations.  No invariant is needed and nothing is lost: the
merged state stands for exactly the states it was made from."""
from exec import *
from term import *

def succs(blk):
    i = blk[-1]
    if i.op == 'jmp': return [i.a]
    if i.op == 'br': return [x for x in i.a[1:] if x is not None]
    if i.op == 'switch': return [i.a[2]] + [y for _, y in i.a[3]]
    if i.op in ('invoke', 'call'): return [x for x in i.a[2:4] if x is not None]
    return []

_heads = {}
def headers(f):
    r = _heads.get(id(f))
    if r is not None: return r
    hs = set(); state = {}
    st = [(f.entry, iter(succs(f.blocks[f.entry])))]
    state[f.entry] = 1
    while st:
        l, it = st[-1]
        for n in it:
            if state.get(n) == 1: hs.add(n)
            elif n not in state:
                state[n] = 1
                st.append((n, iter(succs(f.blocks[n]))))
                break
        else:
            state[l] = 2; st.pop()
    _heads[id(f)] = hs
    return hs

class NoMerge(Exception): pass

def width_name(fr, name):
    for b in fr.f.blocks.values():
        for i in b:
            if i.d == name:
                if i.op == 'icmp': return 1
                if i.op == 'gep': return 64
                if i.ty is None: raise NoMerge()
                return fr.f.mod.width(i.ty)
    for t, n in fr.f.params:
        if n == name: return fr.f.mod.width(t)
    raise NoMerge()

def same(vs):
    return all(v is vs[0] or (type(v) is type(vs[0]) and v == vs[0]) for v in vs[1:])

def choice(conds, vs, w):
    if same(vs): return vs[0]
    if any(type(v) is tuple for v in vs): raise NoMerge()
    r = vs[-1]
    for c, v in zip(reversed(conds[:-1]), reversed(vs[:-1])): r = ite(c, v, r, w)
    return r

def key(st):
    fr = st.frames[-1]
    ph = []
    for i in fr.blk:
        if i.op != 'phi': break
        v = fr.env.get(i.d)
        if type(v) is int: ph.append((i.d, v))
    return (tuple((f.f.name, f.lbl, f.ip) for f in st.frames), frozenset(ph), tuple(sorted(st.mem)),
            st.x.get('live'), tuple(sorted(r for r, m in st.mem.items() if m.freed)))

def merge(m, sts, guarded=()):
    if len(sts) == 1: return sts
    try: return [merge1(m, sts, guarded)]
    except NoMerge: return sts

def merge1(m, sts, guarded):
    pre = 0
    while all(len(s.pc) > pre for s in sts) and all(s.pc[pre] is sts[0].pc[pre] for s in sts): pre += 1
    conds = []
    for s in sts:
        c = 1
        for x in s.pc[pre:]: c = mk_and(c, x)
        conds.append(c)
    o = sts[0].copy()
    o.pc = []; o.pcset = {}; o.known = {}; o.facts = {}; o.proved = set(); o.model = None
    for c in sts[0].pc[:pre]: o.assume(c)
    d = 0
    for c in conds: d = mk_or(d, c)
    if not m.valid(o, d): o.assume(d)
    for k, fr in enumerate(o.frames):
        frs = [s.frames[k] for s in sts]
        if any(f.allocas != fr.allocas or f.dest != fr.dest for f in frs): raise NoMerge()
        env = {}
        for n in fr.env:
            vs = [f.env.get(n, None) for f in frs]
            if any(v is None for v in vs): continue
            if same(vs): env[n] = vs[0]; continue
            ws = [v.w for v in vs if type(v) is T]
            env[n] = choice(conds, vs, ws[0] if ws else width_name(fr, n))
        fr.env = env
    for s in sts[1:]:
        if set(s.regs) != set(o.regs) or any(s.regs[k].size is not r.size and s.regs[k].size != r.size for k, r in o.regs.items()): raise NoMerge()
    for rn in list(o.mem):
        ms = [s.mem[rn] for s in sts]
        if all(x is ms[0] for x in ms[1:]): continue
        if type(ms[0]) is Buf:
            if any(x.log != ms[0].log for x in ms[1:]): raise NoMerge()
            continue
        if any(x.arrays for x in ms): raise NoMerge()
        c = ms[0].clone(o.tok)
        keys = set()
        for x in ms: keys |= set(x.c)
        c.c = {}
        for off in sorted(keys):
            ns = {x.c[off][0] for x in ms if off in x.c}
            if len(ns) != 1: raise NoMerge()
            n = ns.pop()
            vs = []
            for s, x in zip(sts, ms):
                if off in x.c: vs.append(x.c[off][1])
                else: vs.append(m.cells_bytes(s, None, x, off, n) if x.init is not None else fresh('uninit', 8 * n))
            c.c[off] = (n, choice(conds, vs, 8 * n))
        last = -1
        for off in sorted(c.c):
            if off < last: raise NoMerge()
            last = off + c.c[off][0]
        o.mem[rn] = c
    x = {}
    for n in set().union(*[s.x for s in sts]):
        vs = [s.x.get(n) for s in sts]
        if n in guarded:
            out = [e for e in vs[0] or () if all(e in (v or ()) for v in vs)]
            past = list(out)
            for c, v in zip(conds, vs):
                for e in v or ():
                    if e not in past: out.append((mk_and(c, e[0]),) + tuple(e[1:]))
            seen = []
            for e in out:          # events of the common past are in every state
                for q in seen:
                    if q[1][1:] == e[1:]:
                        q[0] = mk_or(q[0], e[0]); break
                else: seen.append([e[0], e])
            x[n] = tuple((g,) + tuple(e[1:]) for g, e in seen)
        elif same(vs): x[n] = vs[0]
        elif n in ('_m', 'exc'): continue                # solver cache; exception already caught
        elif all(type(v) is int or v is None for v in vs): x[n] = max(v or 0 for v in vs)   # name counters
        else: raise NoMerge()
    o.x = x
    o.fuel = max(s.fuel for s in sts)
    return o

def explore(m, st0, on_end, guarded=(), rounds=400, width=64):
    m.cut = lambda mm, s, fr, lbl: lbl in headers(fr.f)
    work = [st0]
    n = 0
    while work:
        n += 1
        if n > rounds or len(work) > width: raise Unsupported('states do not merge')
        cuts = []
        def end(o):
            if o.kind == 'cut': cuts.append(o.st)
            else: on_end(o)
        for s in work: m.explore(s, end)
        groups = {}
        for s in cuts: groups.setdefault(key(s), []).append(s)
        work = []
        for g in groups.values(): work += merge(m, g, guarded)
