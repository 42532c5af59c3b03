"""C33: timers, benchmarks and durations (spec/Timer.tla), over a clock of the harness."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *

ARGS = {'adv': 'd', 'sleep': 'd', 'until': 's d', 'bench': 'kind goal pre cost odd pause post', 'show': 'u m', 'zero': '', 'neg': '', 'copy': 's way'}
def line(o): return ' '.join([o['op']] + [str(o[k]) for k in ARGS.get(o['op'], 's').split()])
RATIO = [1000, 1000, 1000, 60, 60, 24, 365, 1000]

def main():
    c = Check('C33')
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(c.build, 'timer', ['checked', 'release'])
        f2 = ex.submit(c.explore, 'TimerModel', 'TimerModel.cfg', emit=True)
        bins = f1.result(); g = f2.result()
    r = c.rng; scs = []
    def contract(ops):
        on = {1: False, 2: False}; out = []
        for o in ops:
            k = o['op']
            if (k == 'start' and on[o['s']]) or (k in ('stop', 'until') and not on[o['s']]): continue
            if k in ('start', 'stop', 'reset', 'new'): on[o['s']] = k == 'start'
            if k == 'copy': on[3 - o['s']] = on[o['s']]
            out.append(o)
        return out
    def add(ops, mode):
        if mode == 'release': ops = [o for o in contract(ops) if o['op'] != 'neg']
        for o in ops:
            if o['op'] == 'copy': o['way'] = r.randrange(2)
        scs.append(dict(header=mode, bin=bins[mode], ops=[(line(o), o) for o in ops]))
    # the model counts in single steps; they are stretched to different lengths of time
    walks = g.cover(r, 60)
    if not c.thorough: walks = r.sample(walks, min(len(walks), 500))
    for w in walks + g.random_walks(r, 40 * (20 if c.thorough else 1), 60):
        f = r.choice([1, 1, 7, 1000, 1000003, 50000000])
        add([dict(o, d=o['d'] * f) if 'd' in o else dict(o) for o in w], r.choice(list(bins)))
    for _ in range(120 * (20 if c.thorough else 1)):
        mode = r.choice(list(bins)); ops = []; top = r.choice([10, 1000, 100000, 20000000])
        for _ in range(60):
            k = r.choice(['adv'] * 4 + ['start', 'stop'] * 4 + ['time'] * 3 + ['until', 'until', 'sleep', 'copy', 'reset', 'new', 'show', 'zero', 'neg']); o = dict(op=k)
            if k in ('adv', 'sleep', 'until'): o['d'] = r.choice([0, 1, r.randrange(top), top])
            if k == 'show':
                o['u'] = r.randint(1, 8); hi = RATIO[o['u'] - 1] * 1000000
                o['m'] = r.choice([1000000, 1000001, hi - 1, r.randrange(1000000, hi), r.randrange(1000000, hi), 1000000 * r.randrange(1, hi // 1000000), 1500000])
            elif k not in ('adv', 'sleep', 'zero', 'neg'): o['s'] = r.choice([1, 1, 2])
            ops.append(o)
        add(ops, mode)
    for _ in range(40 * (20 if c.thorough else 1)):
        ops = []
        for _ in range(8):
            kind = r.choice(['short', 'long'])
            o = dict(op='bench', kind=kind, goal=r.choice([100, 1000, 10000, 20000, r.randint(50, 20000)]), pre=r.choice([0, 0, 3, 400]), cost=r.choice([0, 1, 2, 9, 10, 33, 100, 700, 5000, 9999, 30000, r.randrange(20000)]),
                     odd=r.choice([0, 0, 5, 300]), pause=r.choice([-1, -1, -2, 0, 4, 50]) if kind == 'long' else -1, post=r.choice([0, 0, 7, 300]))
            if kind == 'short': o['cost'] = max(1, o['cost'])
            ops.append(o)
        add(ops, r.choice(list(bins)))
    # the known finding: the specification accepts a mean over the wrong number of iterations, that very
    # number only, while the finding is listed
    known = [k for k in c.known_findings() if k['match'] == 'benchmark-next-count']
    seen = []
    def run_it(*a, **k):
        res = c.run_harness(*a, **k)
        for evs in res:
            for e in evs or []:
                if e['op'] == 'bench' and e.get('runs') and not -e['runs'][-1]['n'] <= e['ps'] * e['runs'][-1]['n'] - 1000 * e['runs'][-1]['t'] <= 1001 * e['runs'][-1]['n'] + 1: seen.append(e)
        return res
    c.check_scenarios('TimerTrace', 'TimerTraceKnown.cfg' if known else 'TimerTrace.cfg', scs, run_it, chunk_events=3000)
    if seen: c.known += [k['line'] for k in known]
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
