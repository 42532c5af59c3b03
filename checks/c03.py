"""C03: alignment requests survive every history (spec/Array.tla, spec/NDArray.tla)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import *
from script import scenario
import nd, c01

def main():
    c = Check('C03')
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(c.build, 'array', ['checked', 'release'])
        f2 = ex.submit(c.build, 'ndarray', ['checked', 'release'], flags=['-DONLY=2'])
        b1, b2 = f1.result(), f2.result()
    g = c.explore('ArrayGen', 'ArrayAligned.cfg', emit=True)
    n = 5 if not c.thorough else 60
    s1, s2 = [], []
    tys = ['int', 'double', 'short']
    walks = g.cover(c.rng, 40, budget=None if c.thorough else 40000)
    c.extra['spec_transitions_covered'] = g.covered
    for k, w in enumerate(walks):
        for mode in (('checked', 'release') if c.thorough else (('checked', 'release')[k % 2],)):
            ty = tys[k % 3]
            sz = dict(int=4, double=8, short=2)[ty]
            m = c.rng.choice([1, 2, 4, 8, 3])
            ops = []
            for o in w:
                if mode == 'release' and o['bad']: continue
                o = c01.fresh(c.rng, o)
                for f in ('al', 'ar', 'am'):
                    if f in o: o[f] = o[f] * sz * m
                ops.append(o)
            s1.append(scenario(c01.SCHEMA, '%s %s' % (ty, mode), ops, b1[mode]))
    for k in range(60 * n):
        ty, mode = tys[k % 3], ('checked', 'release')[(k // 3) % 2]
        s1.append(scenario(c01.SCHEMA, '%s %s' % (ty, mode), c01.random_ops(c.rng, ty, 40, mode == 'checked', aligned=.85), b1[mode]))
    for k in range(60 * n):
        co, ty, mode = ('2D', '2C')[k % 2], ('int', 'double')[(k // 2) % 2], ('checked', 'release')[(k // 4) % 2]
        s2.append(scenario(nd.SCHEMA, '%s %s %s' % (co, ty, mode), nd.random_ops(c.rng, co, ty, 40, mode == 'checked', aligned=.85), b2[mode]))
    for k in range(12 if not c.thorough else 240):
        ty, mode = tys[k % 3], ('checked', 'release')[(k // 3) % 2]
        s1.append(scenario(c01.SCHEMA, '%s %s' % (ty, mode), c01.random_ops(c.rng, ty, 24, mode == 'checked', aligned=.85, maxlen=c.rng.choice([130, 300]), slots=2, big=True), b1[mode]))
    for k in range(16 if not c.thorough else 240):
        co, ty, mode = ('2D', '2C')[k % 2], ('int', 'double')[(k // 2) % 2], ('checked', 'release')[(k // 4) % 2]
        s2.append(scenario(nd.SCHEMA, '%s %s %s' % (co, ty, mode), nd.random_ops(c.rng, co, ty, 16, mode == 'checked', aligned=.85, maxn=c.rng.choice([14, 26]), slots=2), b2[mode]))
    c.check_scenarios('ArrayTrace', 'ArrayTrace.cfg', s1, c.run_harness)
    c.check_scenarios('NDArrayTrace', 'NDArrayTrace.cfg', s2, c.run_harness)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
