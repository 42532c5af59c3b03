"""C21: every container and value type is a value type (spec/ValueStore.tla)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from script import scenario

SCHEMA = dict(make='s c', mut='s c', new_copy='s t', new_move='s t', copy_assign='s t', move_assign='s t', swap='s t', destroy='s')
KINDS = {
 1: 'array_int array_double array_tracked array_string array_nested small1_int small2_int small3_tracked small2_string '
    'deque_int deque_tracked deque_string tree2_int tree3_tracked tree2_string string utf16',
 2: 'array2d_int array2d_tracked array2d_string array2c_double array2c_tracked array2c_string lower_int lower_tracked upper_double upper_tracked '
    'tri_double tri_tracked band csr',
 3: 'array3d_int array3d_tracked array3c_double array3c_tracked array4d_int array4d_tracked array4c_double array4c_tracked '
    'static_int static_tracked static_string static2d_int static2d_tracked static2c_double static2c_tracked static3d_int static4d_double',
 4: 'map_int map_string map_tracked map_dynamic marr_int marr_string marr_tracked marr_dynamic set_int set_string dynamic info',
}

def left(kind): return 'moved' if kind.startswith('static') else 'empty'

def codes(rng, o):
    o = dict(o)
    if 'c' in o: o['c'] = rng.randrange(8)
    return o

def random_ops(rng, n, empty):
    st = ['off'] * 4
    ops = []
    k2 = ['make', 'mut', 'mut', 'mut', 'new_copy', 'new_move', 'copy_assign', 'copy_assign', 'move_assign', 'destroy', 'swap']
    while len(ops) < n:
        k = rng.choice(k2); s = rng.randint(1, 3); t = rng.randint(1, 3)
        if k == 'make':
            if st[s] != 'off': continue
            ops.append(dict(op=k, s=s, c=rng.randrange(8))); st[s] = 'on'
        elif k == 'mut':
            if st[s] != 'on': continue
            ops.append(dict(op=k, s=s, c=rng.randrange(8)))
        elif k == 'destroy':
            if st[s] == 'off' or rng.random() < .5: continue
            ops.append(dict(op=k, s=s)); st[s] = 'off'
        else:
            if st[t] != 'on' or (k.startswith('new') and st[s] != 'off') or (k.endswith('assign') and st[s] == 'off'): continue
            if k == 'swap' and (st[s] != 'on' or not empty): continue
            if k == 'move_assign' and s == t and not empty: continue
            ops.append(dict(op=k, s=s, t=t))
            if k != 'swap': st[s] = 'on'
            if 'move' in k and s != t: st[t] = 'on' if empty else 'moved'
    return ops

def main():
    c = Check('C21')
    jobs = [(g, m) for g in KINDS for m in ('checked', 'release')]
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(c.build, 'values', [m], flags=['-DGROUP=%d' % g], tag=str(g)) for g, m in jobs]
        bins = {(g, m): f.result()[m] for (g, m), f in zip(jobs, fs)}
    graph = {l: c.explore('ValueStoreGen', 'ValueStoreGen_%s.cfg' % l, emit=True) for l in ('empty', 'moved')}
    scs = []
    for (g, m), b in bins.items():
        for kind in KINDS[g].split():
            l = left(kind)
            pre = [dict(op='make', s=3, c=0), dict(op='destroy', s=3)]
            for w in graph[l].cover(c.rng, 60):
                scs.append(scenario(SCHEMA, '%s %s %s' % (kind, m, l), pre + [codes(c.rng, o) for o in w], b))
            for _ in range(3 if not c.thorough else 60):
                scs.append(scenario(SCHEMA, '%s %s %s' % (kind, m, l), pre + random_ops(c.rng, 50, l == 'empty'), b))
    c.check_scenarios('ValueStoreTrace', 'ValueStoreTrace.cfg', scs, c.run_harness)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
