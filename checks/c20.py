#!/usr/bin/env python3
"""C20: checked builds stop every access out of bounds and no other (Bounds.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import Check, run

BIG = [10**9, -10**9, 999999999, -999999999]
CFG = [  # specification configuration, containers
    ('1', ['array', 'small']), ('s1', ['s1']), ('2d', ['a2d']), ('2c', ['a2c']), ('3', ['a3d', 'a3c']), ('4', ['a4d', 'a4c']),
    ('v1', ['v1']), ('v2', ['v2d', 'v2c']), ('v3', ['v3']), ('s2', ['s2d', 's2c']), ('s3', ['s3d']), ('s4', ['s4d']),
    ('lower', ['lower']), ('upper', ['upper']), ('tri', ['tri']), ('band', ['band']), ('rag', ['csr']), ('seq', ['deque']),
    ('text', ['text']), ('slots', ['map', 'maparray']), ('set', ['set'])]
KIND = dict(lower='lower', upper='upper', tri='tri', band='band', rag='rag', seq='seq', text='text', slots='slots', set='slots')
FIXED = ('s1', 's2d', 's2c', 's3d', 's4d')      # shape given by the type
LISTS = ('ix', 'n', 'fill', 'rg')

def toks(o):
    t = [o['op']]
    for f, v in o.items():
        if f in ('op', 'bad', 'raw'): continue
        if f == 'what' and isinstance(v, str): v = 0 if v == 'capacity' else 1
        if f in LISTS: t += [f, str(len(v))] + [str(x) for x in v]
        else: t += [f, str(int(v))]
    return ' '.join(t)

def sc(kind, cont, ty, ops, bin):
    return dict(header='%s %s %s' % (kind, cont, ty), bin=bin, ops=[(toks(o), {k: v for k, v in o.items() if k != 'bad'}) for o in ops])

class Gen:
    """larger shapes"""
    def __init__(self, r): self.r = r
    def ix(self, lo, m):
        r = self.r
        x = [l + r.randrange(n) if n > 0 else l for l, n in zip(lo, m)]
        if r.random() < .5:
            d = r.randrange(len(m)); x[d] = r.choice([lo[d] - 1, lo[d] + m[d], lo[d] + m[d], lo[d] + 2 * m[d], r.choice(BIG), lo[d] - 1 - r.randrange(20), lo[d] + m[d] + r.randrange(40)])
        return x
    def rg(self, n):
        r = self.r; b = r.randint(0, n); e = r.randint(b, n)
        if r.random() < .4:
            b, e = r.choice([(b, n + 1), (-1, e), (e + 1, b), (n + 2, n + 2), (b, r.choice(BIG)), (r.choice(BIG), e)])
        return [b, e]
    def ops(self, cfg, cont, count):
        r = self.r
        rank = dict([('1', 1), ('2d', 2), ('2c', 2), ('3', 3), ('4', 4), ('v1', 1), ('v2', 2), ('v3', 3)]).get(cfg)
        shape = lambda: [r.randint(0, (12, 7, 5, 3)[rank - 1]) for _ in range(rank)] if rank else None
        def fill(n):
            p = 1
            for x in n: p *= x
            return [r.randint(0, 99) for _ in range(p)]
        if rank: n = shape(); f = fill(n)
        elif cfg in ('lower', 'upper'): n = [r.randint(0, 9)]; f = [r.randint(0, 99) for _ in range(n[0] * (n[0] + 1) // 2)]
        elif cfg == 'tri': n = [r.randint(0, 9)]; f = [r.randint(0, 99) for _ in range(3 * n[0])]
        elif cfg == 'band':
            n = [r.randint(1, 7), r.randint(1, 7), r.randint(0, 3), r.randint(0, 3)]
            f = [r.randint(0, 99) for i in range(n[0]) for k in range(-n[2], n[3] + 1) if 0 <= i + k < n[1]]
        elif cfg == 'rag': n = [6] + [r.randint(0, 6) for _ in range(r.randint(1, 6))]; f = [r.randint(0, 99) for _ in range(sum(n[1:]))]
        elif cfg == 'seq': n = [r.randint(0, 9)]; f = [r.randint(0, 99) for _ in range(n[0])]
        elif cfg == 'text': n = [r.randint(0, 60)]; f = [r.randint(103, 122) for _ in range(n[0])]
        else: n = [r.randint(0, 40)]; f = [10 + k + 1 for k in range(n[0])]
        res = [dict(op='make', how=r.randrange(4), n=n, fill=f)]
        for _ in range(count):
            w = r.random() < .5; x = r.randint(0, 99)
            if rank:
                c = ['elem'] * 3
                if cfg in ('1', 'v1'): c += ['last', 'range']
                if cfg in ('2d', 'v2'): c += ['block']
                if cfg in ('2d', '2c'): c += ['line', 'lineview']
                if cfg not in ('1', 'v1'): c += ['dim']
                if cfg in ('1', '2d', '2c', '3', '4'): c += ['resize', 'reserve']
                o = r.choice(c)
                if o == 'elem': res.append(dict(op=o, ix=self.ix([0] * rank, n), raw=False, w=w, x=x))
                elif o == 'last': res.append(dict(op=o, w=w, x=x))
                elif o == 'range': res.append(dict(op=o, rg=self.rg(n[0]), w=w, x=x))
                elif o == 'block': res.append(dict(op=o, rg=self.rg(n[0]) + self.rg(n[1]), w=w, x=x))
                elif o in ('line', 'lineview'):
                    d = 1 if cfg == '2d' else 2; j = self.ix([0], [n[2 - d]])[0]
                    e = dict(op=o, d=d, j=j, w=w, x=x)
                    if o == 'lineview':
                        e['rg'] = self.rg(n[d - 1])
                        if d == 2: e['w'] = False
                    res.append(e)
                elif o == 'dim': res.append(dict(op=o, d=r.choice([-1, rank, rank + 1, r.choice(BIG)] + list(range(rank)))))
                else:
                    m = shape()
                    if r.random() < .3: m[r.randrange(rank)] = r.choice([-1, -3, -10**9]); res.append(dict(op=o, n=m, fill=[]))
                    elif o == 'resize': n = m; res.append(dict(op=o, n=m, fill=fill(m)))
                    else: res.append(dict(op=o, n=m))
            elif cfg in ('lower', 'upper'): res.append(dict(op='elem', ix=self.ix([0, 0], [n[0]] * 2), raw=False, w=w, x=x))
            elif cfg == 'tri': res.append(dict(op='elem', ix=self.ix([0, -1], [n[0], 3]), raw=False, w=w, x=x))
            elif cfg == 'band': res.append(dict(op='elem', ix=self.ix([0, -n[2]], [n[0], n[2] + n[3] + 1]), raw=False, w=w, x=x))
            elif cfg == 'rag': res.append(dict(op='elem', ix=self.ix([0, 0], [len(n) - 1, 6]), raw=False, w=w, x=x))
            elif cfg == 'seq':
                o = r.choice(['first', 'last', 'pop'])
                res.append(dict(op=o, front=w) if o == 'pop' else dict(op=o, w=w, x=x))
            elif cfg == 'text':
                o = r.choice(['elem', 'range', 'insert', 'cut', 'fromend', 'asks']); i = self.ix([0], [n[0] + 1])[0]
                if o == 'elem': res.append(dict(op=o, ix=self.ix([0], n), raw=False, w=False, x=1))
                elif o == 'range': res.append(dict(op=o, rg=self.rg(n[0]), w=False, x=1))
                elif o == 'insert':
                    k = r.choice([-1, 0, 1, 2, 5, 20]); res.append(dict(op=o, i=i, k=k, x=r.randint(103, 122)))
                    if 0 <= i <= n[0] and k > 0: n = [n[0] + k]
                elif o == 'cut': res.append(dict(op=o, i=i, front=w))
                elif o == 'fromend': res.append(dict(op=o, i=i))
                else: res.append(dict(op=o, i=i, what=r.randrange(5)))
            else:
                if r.random() < .3: res.append(dict(op='noslot', what=r.randrange(4), past=w))
                else: res.append(dict(op='elem', ix=self.ix([0], n), raw=False, w=w and cfg != 'set', x=x))
        return res

def main():
    c = Check('C20')
    bins = c.build('bounds', ['checked'])
    b = bins['checked']
    scs = []; cov = {}; turn = 0
    for cfg, conts in CFG:
        g = c.explore('BoundsGen', 'BoundsGen_%s.cfg' % cfg, emit=True)
        walks = g.cover(c.rng, 40, budget=None)
        for m, cont in enumerate(conts):
            for w in walks:
                turn += 1
                if cont in FIXED: w = [o for o in w if not (o['op'] == 'make' and o['bad'])]
                scs.append(sc(KIND.get(cfg, 'box'), cont, ('int', 'double')[turn % 2], w, b))
        cov[cfg] = '%d of %d transitions' % (g.covered, g.nedges)
    c.extra['spec_transitions_replayed'] = cov
    gen = Gen(c.rng)
    for n in range(500 if not c.thorough else 20000):
        cfg, conts = c.rng.choice([q for q in CFG if q[0] not in ('s1', 's2', 's3', 's4')])
        scs.append(sc(KIND.get(cfg, 'box'), c.rng.choice(conts), ('int', 'double')[n % 2], gen.ops(cfg, c.rng.choice(conts), 40), b))
    c.check_scenarios('BoundsTrace', 'BoundsTrace.cfg', scs, c.run_harness)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
