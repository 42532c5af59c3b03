"""C19 algorithms on arrays (spec/Algo.tla, spec/AlgoModel.tla)."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
TYPES = ['double', 'float', 'int', 'long']
RANGED = ['min', 'max', 'maxabs', 'imin', 'imax', 'imaxabs', 'minmax']

def main():
    c = Check('C19')
    c.explore('AlgoModel', 'AlgoModel.cfg', emit=False)
    bins = c.build('algo', ['checked', 'release'])
    r = c.rng; calls = []
    def add(op, ty, v, variant=0, lo=0, hi=None, x=0, sample=0, checked=False):
        hi = len(v) if hi is None else hi
        o = dict(op=op, ty=ty, v=list(v), lo=lo, hi=hi, x=x, sample=sample, whole=ty in ('int', 'long'))
        calls.append(('%s %s %d %d %d %d %d %d %s' % (op, ty, variant, lo, hi, x, sample, len(v), ' '.join(map(str, v))), o, checked))
    def every(v, ty):
        n = len(v)
        for op in RANGED: add(op, ty, v, checked=n == 0, x=r.randint(0, 1))
        for op in RANGED + ['minmax2d']:
            a = r.randint(0, n); b = r.randint(0, n)
            if a > b: a, b = b, a
            bad = a == b
            if r.random() < .1: a, b, bad = r.choice([(-1, n), (0, n + 1), (a, a), (b, a), (n, n + 1)]) + (True,)
            add(op, ty, v, 1, a, b, checked=bad)
        add('sort', ty, v); add('sorted', ty, v, r.randint(0, 1))
        if n in (1, 2, 3, 5, 8, 17, 40): add('sort', ty, v, 1)
        s = sorted(v)
        for x in set(([r.choice(s)] if s else []) + [r.randint(-3, 3)] + ([s[0] - 1, s[-1] + 1, s[-1], s[0], r.choice(s) + 1] if s and r.random() < .6 else [])): add('bisect', ty, s, x=x)
    def stat(v, ty):
        for sample in (0, 1):
            for op in ('variance', 'meanvar'): add(op, ty, v, sample=sample, checked=len(v) <= sample)
        add('mean', ty, v, checked=not v)
    vals = [-2, -1, 0, 1]
    small = [v for n in range(0, 4) for v in itertools.product(vals, repeat=n)]
    for v in small:
        for ty in (TYPES if c.thorough else r.sample(TYPES, 2)): every(list(v), ty)
    N = 1 if not c.thorough else 30
    for k in range(160 * N):
        n = r.choice([4, 5, 6, 7, 8, 14, 15, 16, 17, 18, 20, 31, 32, 33, 40, 64, 100]) if k % 16 else r.choice([150, 200])
        m = r.choice([0, 1, 3, n, 1000]); z = r.choice([0, 0, 500, -500])
        v = [r.randint(-m, m) + z for _ in range(n)]
        q = r.random()
        if q < .15: v.sort()
        elif q < .3: v.sort(reverse=True)
        elif q < .4: v = v[:n // 2] + v[:n - n // 2]
        elif q < .5: v = sorted(v[:n // 2]) + sorted(v[n // 2:], reverse=True)
        every(v, r.choice(TYPES))
    for ty in TYPES:
        for k in range(60 * N):
            n = r.choice([0, 1, 2, 3, 4, 5, 7]) if ty == 'float' or k % 3 else r.choice([12, 50, 100])
            m = 20 if ty == 'float' else 60 if n > 20 else 200
            v = [r.randint(-m, m) for _ in range(n)]
            if ty in ('int', 'long') and n: v[r.randrange(n)] -= sum(v) % n
            stat(v, ty)
    # long arrays sorted with a small stack: equal values, two values, runs up, down and both ways, blocks in any order
    deep = [[3, 4000, 0], [5, 3000, 0, 2, 3000, 0], [0, 900, 1], [900, 900, -1], [0, 700, 1, 700, 700, -1], [9, 2500, 0, 1, 800, 1, 9, 2000, 0],
            [7, 3, 0, 1, 2000, 0, 8, 1, 0, 0, 2000, 0], [1, 500, 2, 0, 500, 2]]
    for k in range(12 * N):
        deep.append([x for _ in range(r.randint(1, 6)) for x in r.choice([(r.randint(-5, 5), r.randint(1, 1500), 0), (r.randint(-50, 50), r.randint(1, 300), r.choice([-3, -1, 1, 2]))])])
    for b in deep: add('deep', 'long', b)
    scs = []
    r.shuffle(calls)
    for n in range(0, len(calls), 40):
        for mode in ('checked', 'release'):
            scs.append(dict(header='algo ' + mode, bin=bins[mode], ops=[(l, o) for l, o, chk in calls[n:n + 40] if not chk or mode == 'checked']))
    c.extra['calls'] = len(calls)
    c.check_scenarios('AlgoTrace', 'AlgoTrace.cfg', scs, c.run_harness)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
