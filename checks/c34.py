"""C34: low-discrepancy points (spec/Sobol.tla)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *

def op(n, dim, m, a, b): return ('points %d %d %d %d %d' % (n, dim, m, a, b), dict(op='points', n=n, dim=dim, m=m))

def main():
    c = Check('C34')
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(c.build, 'sobol', ['checked', 'release'], mkl=True)
        f2 = ex.submit(c.explore, 'SobolGen', 'SobolGen.cfg', emit=True)
        bins = f1.result(); g = f2.result()
    r = c.rng; scs = []
    small = [o for st in g.out for o, _ in st]
    def box(): a = r.choice([0, 0, 0, -4, -1, 2, 7, -100]); return a, a + r.choice([1, 4, 4, 4, 3, 40])
    for n in range(0, len(small), 10):
        mode = r.choice(list(bins))
        scs.append(dict(header=mode, bin=bins[mode], ops=[op(o['n'], r.choice([1, 2, 2, 3, 5]), o['m'], *box()) for o in small[n:n + 10]]))
    for _ in range(40 * (15 if c.thorough else 1)):
        mode = r.choice(list(bins)); ops = []
        for _ in range(4):
            m = r.choice([1, 2, 3, 4, 5, 6, 7, 8] if not c.thorough else [5, 6, 7, 8, 9, 10]); dim = r.choice([1, 2, 3, 4, 6, 10, 20, 40])
            n = r.choice([(1 << m) - 1, (1 << m) - 1, r.randint(1, (1 << m) - 1)])
            if n * dim <= 3000: ops.append(op(n, dim, m, *box()))
        scs.append(dict(header=mode, bin=bins[mode], ops=ops))
    c.check_scenarios('SobolTrace', 'SobolTrace.cfg', scs, c.run_harness, chunk_events=40)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
