"""One loop of a function: header found in concrete traces, template per
variable, arbitrary-iteration state, and the obligations at a back edge."""
from exec import *
from term import *
import inv

class Loop:
    def __init__(self, name):
        self.name = name
        self.header = None; self.tmpl = {}; self.post = False

    def learn(self, runs, cands, counts, pick=None):
        """runs: functions visit -> None that execute a fresh concrete run calling
        visit at block entries; counts[i]: acceptable visit counts (tuple, same
        order in all runs); ghosts[i](j): ghost object of visit j"""
        vs = []
        for run, _ in runs:
            v = inv.Visits()
            run(v)
            vs.append(v)
        for alt in range(len(counts[0])):
            ks = inv.pick_header(vs, [c[alt] for c in counts])
            if pick: ks = [k for k in ks if pick(k)]
            if ks: break
        else: raise Unsupported('no loop found in ' + self.name)
        self.header = ks[0]; self.alt = alt
        data = {}; ws = {}
        nv = 0
        for ri, (run, ghost) in enumerate(runs):
            j = [0]
            def visit(st, fr, lbl):
                if inv.key_of(st, lbl) != self.header: return
                g = ghost(j[0])
                for s, v in inv.snapshot(st, lbl).items():
                    data.setdefault(s, []).append((ri, j[0], g, v))
                    if s not in ws: ws[s] = inv.width_of(st, s, lbl)
                j[0] += 1
            run(visit)
            nv += j[0]
        self.tmpl = {}
        for s, rows in data.items():
            if len(rows) < nv:
                self.tmpl[s] = None; continue
            const = True; cur = None
            for ri, j, g, v in rows:
                if j == 0: cur = v
                elif not (cur is v or inv.same(cur, v)): const = False; break
            if const: self.tmpl[s] = 'const'; continue
            self.tmpl[s] = inv.match(s, ws[s], [(g, v) for _, _, g, v in rows], cands)
        return self

    def at(self, st, lbl): return inv.key_of(st, lbl) == self.header

    def describe(self):
        return {str(s): (t if t in ('const', None) else t.name) for s, t in self.tmpl.items()}

    def havoc(self, m, head, g):
        st = head.copy()
        st.model = None; st.fuel = 0
        fr = st.frames[-1]
        ent = inv.snapshot(head, fr.lbl)
        for s in list(ent):
            t = self.tmpl.get(s, 'const')
            if t == 'const': continue
            w = inv.width_of(head, s, fr.lbl)
            self.put(m, st, s, inv.havoc(ent[s], w) if t is None else t.fn(g, w))
        for s, t in self.tmpl.items():
            if t is None and s not in ent and s[0] == 'mem' and s[1] in st.mem:
                self.put(m, st, s, inv.havoc(None, 8 * s[3]))
        return st

    def put(self, m, st, s, v):
        if s[0] == 'phi': st.frames[-1].env[s[1]] = v
        else: m.contents(st, region(st, s[1]), True).c[s[2]] = (s[3], v)

    def check(self, m, head, st, g2, skip=()):
        fr = st.frames[-1]
        now = inv.snapshot(st, fr.lbl)
        ent = inv.snapshot(head, head.frames[-1].lbl)
        for s, t in list(self.tmpl.items()):
            if t is None or s not in ent or s in skip: continue
            if s not in now:
                if s[0] != 'mem' or s[1] not in st.mem: continue
                v = m.load_at(st, region(st, s[1]), s[2], s[3])
            else: v = now[s]
            w = inv.width_of(head, s, fr.lbl)
            x = ent[s] if t == 'const' else t.fn(g2, w)
            m.prove(st, eq(v, x, w), 'inv', 'loop invariant of %s: %s == %s' % (self.name, s[1] if s[0] == 'phi' else '%s+%d' % s[1:3], 'its value at loop entry' if t == 'const' else t.name))
        for s, v in now.items():
            if s in self.tmpl or s not in ent or s in skip: continue
            if v is not ent[s] and v != ent[s]:
                w = inv.width_of(st, s, fr.lbl)
                m.prove(st, eq(v, ent[s], w), 'inv', 'loop invariant of %s: %s unchanged' % (self.name, s))
        for fa, fb in zip(head.frames, st.frames):
            if fa.lbl != fb.lbl or fa.ip != fb.ip or fa.f is not fb.f:
                raise_(m, st, 'inv', 'call stack differs at the back edge')
            ph = {i.d for i in inv.phis(fb, fb.lbl)} if fb is st.frames[-1] else ()
            for k, v in fa.env.items():
                if k in ph: continue
                u = fb.env.get(k)
                if u is not v and u != v:
                    raise_(m, st, 'inv', 'value %s changes in the loop' % k)

def region(st, name):
    for r in st.regs.values():
        if r.name == name: return r

def raise_(m, st, kind, msg):
    if m.light:
        if toomany(kind, msg): raise Halt('infeasible')
        if st.pc and (check([c for c in st.pc if light(c)])[0] == 'unsat' or check(st.pc)[0] == 'unsat'):
            raise Halt('infeasible')
        failed_once(kind, msg)
    f = Fail(kind, msg); f.st = st
    raise f

T_ = inv.Template
def W(fn): return lambda g, w: None if w not in (8, 16, 32, 64) else (trunc(fn(g), w) if w < 64 else fn(g))
def P(fn): return lambda g, w: fn(g) if w == 64 else None
