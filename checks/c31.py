"""C31: formats chosen by the names of files (spec/Formats.tla)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *

def line(o):
    l = lambda s: [str(len(s))] + [str(x) for x in s]
    t = [o['op']]
    if 't' in o: t.append(o['t'])
    t += l(o['n'])
    if 'm' in o: t += l(o['m'])
    if 'x' in o: t.append(str(o['x']))
    return ' '.join(t)

def main():
    c = Check('C31')
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(c.build, 'formats', ['checked', 'release'], extra_srcs=['il/io/numpy/numpy.cpp', 'il/io/toml/toml.cpp'])
        f2 = ex.submit(c.explore, 'FormatsGen', 'FormatsGen.cfg', emit=True)
        bins = f1.result(); g = f2.result()
    r = c.rng; scs = []
    walks = g.cover(r, 40) + (g.random_walks(r, 3000, 40) if c.thorough else g.random_walks(r, 60, 40))
    # the graph has no way back: walks are short, and the names are fresh for each
    for n, w in enumerate(walks):
        for mode in (bins if c.thorough else [('checked', 'release')[n % 2]]):
            scs.append(dict(header=mode, bin=bins[mode], ops=[(line(o), o) for o in w]))
    exts = [b'.npy', b'.toml', b'.data', b'.png', b'.txt', b'']
    for _ in range(150 * (15 if c.thorough else 1)):
        mode = r.choice(list(bins)); ops = []
        ns = [list(r.choice([b'a', b'file with spaces', b'atoml', b'.tom', b'\xc3\xa9t\xc3\xa9', b'x.toml', b'npy', b'a name that is longer than what a string keeps inside']) + r.choice(exts[:4] if r.random() < .8 else exts)) for _ in range(4)]
        for _ in range(40):
            op = r.choice(['save', 'save', 'load', 'load', 'load', 'copy', 'junk']); o = dict(op=op, n=r.choice([x for x in ns if x]))
            if op in ('save', 'load'): o['t'] = r.choice(['marr', 'marr', 'map', 'arr', 'mat', 'num'])
            if op == 'save': o['x'] = r.choice([1, 2])
            if op == 'copy': o['m'] = r.choice(ns)
            if o['op'] == 'save' and bytes(o['n']).endswith(b'.data') and r.random() < .5: o['op'] = 'opts'
            ops.append((line(o), o))
        scs.append(dict(header=mode, bin=bins[mode], ops=ops))
    c.check_scenarios('FormatsTrace', 'FormatsTrace.cfg', scs, c.run_harness, chunk_events=4000)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
