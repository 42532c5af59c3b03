"""C02: object and memory lifetimes (spec/Lifetime.tla) under the histories of all the
container checks: the same scripts, replayed by harnesses that record every allocation,
release, construction, use and destruction."""
import sys, os, random
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
from vf import *

PLAN = [('c01', ()), ('c04', ('C04',)), ('c04', ('C05',)), ('c07', ('C07',)), ('c07', ('C08',)), ('c09', ('C09',)), ('c09', ('C10',)),
        ('c09', ('C11',)), ('c12', ('C12',)), ('c12', ('C13',)), ('c14', ('C14',)), ('c16', ()), ('c17', ()), ('c06', ())]

class Done(Exception):
    pass

def collect(job):
    """Scenarios of another check, with binaries that record lifetimes."""
    k, mod, args, work, tier, budget = job
    got = []
    class Collect(Check):
        def __init__(self, prop, *a, **kw):
            super().__init__(prop, *a, **kw)
            self.rng = random.Random(self.seed * 7919 + k)
            shutil.rmtree(self.work, ignore_errors=True)
            self.work = os.path.join(work, 'j%d' % k)
            os.makedirs(self.work, exist_ok=True)
            self.njobs = 2
            self.res = self
            got.append(self)
            self.scs = []
        def build(self, name, modes, srcs=None, flags=(), **kw):
            return super().build(name, modes, srcs, list(flags) + ['-DVF_LIFE'], **kw)
        def check_scenarios(self, module, cfg, scenarios, runner, **kw):
            self.scs += scenarios
        def finish(self):
            return 0
    m = __import__(mod)
    m.Check = Collect
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        m.main(*args)
    finally:
        sys.stdout = out
    c = got[0]
    cls = [s for s in c.scs if 'tracked' in s['header']]
    rest = [s for s in c.scs if 'tracked' not in s['header']]
    pick = []
    for pool, share in ((cls, budget), (rest, budget // (6 if cls else 1))):
        c.rng.shuffle(pool)
        n = 0
        for s in pool:
            if n >= share: break
            pick.append(s)
            n += len(s['ops']) + 1
    return dict(scs=pick, states=c.states, transitions=c.transitions, expl=c.extra.get('spec_exploration', []), name=mod + ' '.join(args))

def slim(run):
    def r(b, scs):
        return [[{k: e[k] for k in ('op', 'life', 'what', 'during') if k in e} for e in evs] for evs in run(b, scs)]
    return r

def main():
    c = Check('C02')
    c.explore('LifetimeModel', 'LifetimeModel.cfg' if not c.thorough else 'LifetimeModelBig.cfg')
    budget = 3000 if not c.thorough else 60000
    with ProcessPoolExecutor(7) as ex:
        res = list(ex.map(collect, [(k, m, a, c.work, c.tier, budget) for k, (m, a) in enumerate(PLAN)]))
    scs = []
    for r in res:
        scs += r['scs']
        c.states += r['states']; c.transitions += r['transitions']
        log('  %s: %d scenarios' % (r['name'], len(r['scs'])))
    c.extra['scenarios_from'] = {r['name']: len(r['scs']) for r in res}
    c.check_scenarios('LifetimeTrace', 'LifetimeTrace.cfg', scs, slim(c.run_harness), chunk_events=6000)
    c.extra['life_events'] = 'every allocation, release, construction, use, destruction'
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
