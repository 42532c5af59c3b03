"""C06 views and edits (spec/Views.tla)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from script import scenario
SCHEMA = dict(new='n*', full='s src w', sub='s src w r*', line='s src w dim r* j', drop='s', get='src ix*', put='src ix* x', back='src', putback='src x',
              array='src', copy='s t', dim='src d')
TYPES = ('int', 'double', 'tracked')
K1 = ['array', 'small', 'static', 'raw1']
K2 = ['a2d', 'raw2d', 'a2c', 'raw2c', 's2d']
# what each kind of container or view offers: (view range, edit range, view line, edit line, line dim)
HAS = dict(array=(1, 1, 0, 0, 0), small=(1, 1, 0, 0, 0), static=(1, 1, 0, 0, 0), raw1=(0, 0, 0, 0, 0), a2d=(1, 1, 1, 1, 1), a2c=(1, 0, 1, 0, 2),
           s2d=(0, 0, 0, 0, 0), raw2d=(0, 0, 0, 0, 0), raw2c=(0, 0, 0, 0, 0), raw3=(0, 0, 0, 0, 0))

def usable(kind, o, fam):
    """is the operation of the specification offered by this kind of container"""
    h = HAS[kind]
    if o['op'] == 'sub' and o['src'] == 0: return h[1] if o['w'] else h[0]
    if o['op'] == 'line': return (h[3] if o['w'] else h[2]) and h[4] == o['dim']
    if o['op'] == 'back' and o['src'] == 0: return kind == 'raw1'
    return True

class Sim:
    """which views are on, what they select (only to generate sensible operations)"""
    def __init__(self, rng, kind, n): self.r, self.kind, self.n = rng, kind, n; self.v = {0: (list(n), True, set())}; self.ops = [dict(op='new', n=n)]
    def rg(self, n, checked):
        r = self.r
        if checked and r.random() < .07: return r.choice([(-1, n), (0, n + 1), (n + 1, n + 1)] + ([(1, 0)] if n > 1 else [])), False
        if n == 0: return (0, 0), False
        b = r.randrange(n); e = r.randint(b + (r.random() < .9), n)
        return (b, e), True
    def step(self, checked):
        r = self.r; k = r.choice(list(self.v)); ext, w, cells = self.v[k]; rank = len(ext); s = r.randint(1, 3)
        op = r.choice(['full', 'sub', 'sub', 'sub', 'line', 'get', 'put', 'put', 'back', 'putback', 'array', 'copy', 'dim'])
        o = dict(op=op); ed = bool(w and r.random() < .6); last = rank == 1
        if op == 'full': o.update(s=s, src=k, w=ed); self.v[s] = (list(ext), ed, cells)
        elif op == 'sub':
            if rank == 3: return
            if k == 0 and not HAS[self.kind][1 if ed else 0]: return
            if k and rank == 2 and not ed and self.kind in ('a2c', 'raw2c'): return
            q = [self.rg(n, checked) for n in ext]
            if not checked and not all(x[1] for x in q): return
            o.update(s=s, src=k, w=ed, r=[y for x in q for y in x[0]])
            if all(x[1] for x in q): self.v[s] = ([x[0][1] - x[0][0] for x in q], ed, cells)
            else: o['bad'] = True
        elif op == 'line':
            if k or rank != 2 or not HAS[self.kind][3 if ed else 2]: return
            d = HAS[self.kind][4]; q, good = self.rg(ext[d - 1], checked); m = ext[2 - d]
            j = r.randrange(m) if m and (not checked or r.random() < .93) else r.choice([-1, m])
            good2 = 0 <= j < m
            if not checked and not (good and good2): return
            o.update(s=s, src=0, w=ed, dim=d, r=list(q), j=j)
            if good and good2: self.v[s] = ([q[1] - q[0]], ed, cells)
        elif op in ('get', 'put'):
            if op == 'put' and not w: return
            ix = [r.randrange(n) if n else 0 for n in ext]; bad = 0 in ext
            if checked and r.random() < .15: d = r.randrange(rank); ix[d] = r.choice([-1, ext[d]]); bad = True
            if bad and not checked: return
            o.update(src=k, ix=ix)
            if op == 'put': o['x'] = r.randint(1, 120)
        elif op in ('back', 'putback'):
            if rank != 1 or (op == 'putback' and not w) or (ext[0] == 0 and not checked): return
            if k == 0 and self.kind != 'raw1': return
            o['src'] = k
            if op == 'putback': o['x'] = r.randint(1, 120)
        elif op == 'array':
            if rank != 1 or k == 0: return
            o['src'] = k
        elif op == 'dim':
            if rank == 1 or k == 0: return
            d = r.randrange(rank) if not checked or r.random() < .7 else r.choice([-1, rank]); o.update(src=k, d=d)
        else: return
        self.ops.append(o)
    def copy(self):
        """two disjoint blocks, one copied over the other"""
        n0, n1 = self.n
        if n0 < 2 or n1 < 1: return
        r = self.r; h = r.randint(1, n0 // 2); w0 = r.randint(1, n1); a = r.randint(0, n0 - 2 * h); b = r.randint(a + h, n0 - h); j, k = r.randint(0, n1 - w0), r.randint(0, n1 - w0)
        if r.random() < .5: a, b = b, a
        for s, q, x, w in ((1, a, j, False), (2, b, k, True)):
            self.ops.append(dict(op='sub', s=s, src=0, w=w, r=[q, q + h, x, x + w0])); self.v[s] = ([h, w0], w, set())
        self.ops.append(dict(op='copy', s=1, t=2))

def main():
    c = Check('C06')
    bins = c.build('views', ['checked', 'release'])
    scs = []; cov = {}; turn = 0
    def add(kind, ops, mode, spare):
        nonlocal turn
        turn += 1
        scs.append(scenario(SCHEMA, 'views %s %s %d %s' % (kind, TYPES[turn % 3], spare, mode), ops, bins[mode]))
    for cfg, kinds in (('1d', ['array', 'small', 'static']), ('1d2', ['array', 'small', 'static']), ('2d', ['a2d']), ('2c', ['a2c']), ('2s', ['s2d', 'raw2d', 'raw2c'])):
        g = c.explore('ViewsGen', 'ViewsGen_%s.cfg' % cfg, emit=True, extra=['-lncheck', 'final'])
        walks = g.cover(c.rng, 40, budget=None if c.thorough else 9000)
        for n, w in enumerate(walks):
            for m in range(len(kinds) * 2 if c.thorough else 1):
                kind = kinds[(n + m) % len(kinds)]; mode = ('checked', 'release')[((n + m) // len(kinds)) % 2]
                ops = []
                for o in w:
                    if (o['bad'] and mode == 'release') or not usable(kind, o, cfg): continue
                    if kind == 'raw2c' and o['op'] == 'copy': continue
                    o = dict(o)
                    if 'x' in o: o['x'] = c.rng.randint(1, 120)
                    ops.append(o)
                # an operation that was left out may have defined a view
                live = {0}; good = []; fam = {}
                for o in ops:
                    if o['op'] == 'new': live = {0}; fam = {0: (kind in ('a2c', 'raw2c'))}
                    need = [o.get('src', 0)] + ([o['s'], o['t']] if o['op'] == 'copy' else [])
                    if any(x not in live for x in need): continue
                    if o['op'] == 'sub' and o['src'] and not o['w'] and len(o['r']) == 4 and kind in ('a2c', 'raw2c'): continue
                    if o['op'] in ('full', 'sub', 'line') and not o['bad']: live.add(o['s'])
                    if o['op'] == 'drop': live.discard(o['s'])
                    good.append(o)
                if len(good) == len(w) or True: add(kind, good, mode, c.rng.choice([0, 1, 3]))
        cov[cfg] = '%d of %d transitions' % (g.covered, g.nedges)
    c.extra['spec_transitions_replayed'] = cov
    NB = 600 if not c.thorough else 15000
    for n in range(NB + (40 if not c.thorough else 600)):
        big = n >= NB     # larger shapes
        kind = c.rng.choice(K1 + K2 + K2 + ['raw3']); mode = ('checked', 'release')[n % 2]; r = c.rng
        sh = [r.randint(0, 9)] if kind in K1 else [r.randint(0, 6), r.randint(0, 6)] if kind in K2 else [r.randint(0, 4) for _ in range(3)]
        if big: sh = [r.randint(60, 300)] if kind in K1 else [r.randint(9, 24), r.randint(9, 24)] if kind in K2 else [r.randint(5, 8) for _ in range(3)]
        if kind == 'static': sh = [r.choice([1, 2, 3, 7])]
        if kind == 's2d': sh = r.choice([[3, 2], [2, 3], [4, 5]])
        s = Sim(r, kind, sh)
        for k in range(16 if big else 40):
            s.step(mode == 'checked')
            if kind == 'a2d' and r.random() < .05: s.copy()
        add(kind, s.ops, mode, r.choice([0, 0, 1, 2, 5]))
    c.check_scenarios('ViewsTrace', 'ViewsTrace.cfg', scs, c.run_harness)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
