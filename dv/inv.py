"""Loop invariants by templates.

A loop is cut at one block.  Which block, and which template describes each
variable there, is read off concrete traces of the same executor; nothing of
that is trusted: the templates are checked at loop entry and re-proved at
every back edge, and variables without a template are havocked."""
from exec import *
from term import *

def key_of(st, lbl):
    return tuple((f.f.name) for f in st.frames) + (lbl,)

class Visits:
    """counts block visits in one trace"""
    def __init__(self):
        self.n = {}; self.first = {}; self.t = 0
    def __call__(self, st, fr, lbl):
        k = key_of(st, lbl)
        self.n[k] = self.n.get(k, 0) + 1
        if k not in self.first:
            self.first[k] = self.t
        self.t += 1

def pick_header(traces, counts):
    """blocks visited exactly counts[i] times in every trace i, earliest first"""
    ks = [k for k in traces[0].n if all(t.n.get(k) == c for t, c in zip(traces, counts))]
    ks.sort(key=lambda k: traces[0].first[k])
    return ks

def phis(fr, lbl):
    return [i for i in fr.f.blocks[lbl] if i.op == 'phi']

def snapshot(st, lbl):
    """{slot: value} of everything that may vary: phis at the cut block and memory cells"""
    fr = st.frames[-1]
    d = {}
    for i in phis(fr, lbl):
        v = fr.env[i.d]
        d[('phi', i.d)] = v
    for rn, m in st.mem.items():
        if type(m) is Cells:
            for off, (n, v) in m.c.items():
                d[('mem', rn, off, n)] = v
    return d

def width_of(st, slot, lbl):
    if slot[0] == 'mem': return 8 * slot[3]
    fr = st.frames[-1]
    for i in phis(fr, lbl):
        if i.d == slot[1]: return fr.f.mod.width(i.ty)

class Template:
    __slots__ = ('name', 'fn', 'w')
    def __init__(self, name, fn): self.name = name; self.fn = fn

def match(slot, w, vals, cands):
    """vals: [(ghosts, value)] -> first template that reproduces all of them"""
    for t in cands:
        ok = True
        for g, v in vals:
            try: x = t.fn(g, w)
            except Exception: x = None
            if x is None or not same(x, v):
                ok = False; break
        if ok: return t
    return None

def same(x, v):
    if type(x) is T and type(v) is T:
        return x is v or canon(x, x.w) is canon(v, v.w) or sub(x, v, x.w) == 0
    return type(x) is type(v) and x == v

def havoc(ent, w):
    """arbitrary value of a loop-carried slot; tainted if nobody wrote it before the loop"""
    return fresh('uninit' if ent is None or tainted(ent) else 'havoc', w)
