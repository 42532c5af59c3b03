"""C04/C05: multi-dimensional arrays against spec/NDArray.tla."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from script import scenario
import nd

def main(prop):
    c = Check(prop)
    two = prop == 'C04'
    bins = c.build('ndarray', ['checked', 'release'], flags=['-DONLY=2' if two else '-DONLY=3'])
    scs = []
    def add(co, ty, mode, ops):
        scs.append(scenario(nd.SCHEMA, '%s %s %s' % (co, ty, mode), ops, bins[mode]))
    plans = [('2D', 'NDArrayGen2.cfg'), ('2C', 'NDArrayGen2C.cfg')] if two else \
            [('3', 'NDArrayGen3.cfg'), ('4', 'NDArrayGen4.cfg')] + ([('3', 'NDArrayGen3s.cfg')] if c.thorough else [])
    covered = {}
    with ThreadPoolExecutor(3) as ex:
        graphs = list(ex.map(lambda p: c.explore('NDArrayGen', p[1], emit=True, extra=['-lncheck', 'final']), plans))
    for (co, cfg), g in zip(plans, graphs):
        walks = g.cover(c.rng, 40, budget=None if c.thorough else (9000 if two else 7000))
        covered[cfg] = '%d of %d transitions' % (g.covered, g.nedges)
        cos = [co] if two else [co + 'D', co + 'C']
        group = [(q, ty, m) for ty, m in (('tracked', 'checked'), ('tracked', 'release'), ('int', 'checked'), ('double', 'release')) for q in cos]
        for k, w in enumerate(walks):
            q, ty, mode = group[k % len(group)]
            add(q, ty, mode, [nd.fresh(c.rng, o) for o in w if mode == 'checked' or not o['bad']])
    c.extra['spec_transitions_replayed'] = covered
    cos = ['2D', '2C'] if two else ['3D', '3C', '4D', '4C']
    combos = [(q, ty, m) for ty in ('tracked', 'int', 'double') for m in ('checked', 'release') for q in cos]
    for k in range(len(combos) * ((30 if two else 16) if not c.thorough else 300)):
        q, ty, mode = combos[k % len(combos)]
        add(q, ty, mode, nd.random_ops(c.rng, q, ty, 40, mode == 'checked', aligned=.12))
    # larger shapes: what only happens at some size
    for k in range(len(combos) * (4 if not c.thorough else 60)):
        q, ty, mode = combos[k % len(combos)]
        add(q, ty, mode, nd.random_ops(c.rng, q, ty, 16, mode == 'checked', aligned=.1, maxn=c.rng.choice({2: [14, 26, 34], 3: [7, 9], 4: [5, 6]}[nd.RANK[q]]), slots=2))
    c.check_scenarios('NDArrayTrace', 'NDArrayTrace.cfg', scs, c.run_harness)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main, sys.argv[1] if len(sys.argv) > 1 else 'C04'))
