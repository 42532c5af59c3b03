"""C09 il::Map, C10 il::Set, C11 il::MapArray: spec/Assoc.tla (+ MapTable.tla, the hash table)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from script import scenario

SCHEMA = dict(new='s', new_n='s n', new_list='s ks* vs*', new_copy='s t', new_move='s t', copy_assign='s t', move_assign='s t', destroy='s',
    set='s k x w', set_io='s k x w', set_self='s k k2', setc='s k x w', setc_io='s k x w', search='s k', searchc='s k x w', valc='s k x w',
    valdc='s k x w', val='s k', vald='s k x', put='s k x', erase='s k', clear='s', reserve='s n', rehash='s')
KIND = dict(C09='map', C10='set', C11='maparray')
ONLY = dict(C09=9, C10=10, C11=11)

def codes(rng, u, style):
    if style == 0: return [0] * u
    if style == 1: return [rng.randint(0, 3) for _ in range(u)]
    if style == 2: return [rng.choice([7, 15, 14, 31, 63, 62]) for _ in range(u)]
    if style == 3: return [8 * rng.randint(0, 8) + rng.choice([0, 7]) for _ in range(u)]
    return [rng.randint(0, 255) for _ in range(u)]

def random_ops(rng, kind, key, u, n, checked, slots=3, deep=False, big=False):
    st = {s: None for s in range(1, slots + 1)}; ops = []
    val = lambda: 0 if kind == 'set' else rng.randint(1, 120)
    lit = lambda: rng.randint(1, min(u, 12))
    def kw():
        # with many keys: mostly new ones, in some order, and old ones again
        if not big or rng.random() < .35: return rng.randint(1, u)
        top[0] = top[0] % u + 1; return 1 + (top[0] * step) % u
    step = rng.choice([1, 7, 11])
    top = [0, 0]
    while len(ops) < n:
        s = 1 if deep and rng.random() < .8 else rng.randint(1, slots)
        on = [t for t in st if st[t] is not None]
        if st[s] is None:
            k = rng.choice(['new', 'new_n', 'new_list', 'new_copy', 'new_copy', 'new_move'])
            if kind == 'set' and k in ('new_n', 'new_list'): k = 'new'
            o = dict(op=k, s=s); m = {}
            if k == 'new_n': o['n'] = rng.choice([0, 1, 2, 3, 4, 6, 7, 12, 13])
            elif k == 'new_list':
                q = rng.choice([0, 1, 2, 3, 5]); ks = rng.sample(range(1, u + 1), min(q, u))
                if len(ks) == 4: ks = ks[:3]
                o.update(ks=ks, vs=[val() for _ in ks]); m = dict(zip(ks, o['vs']))
            elif k in ('new_copy', 'new_move'):
                if not on: continue
                t = rng.choice(on); o['t'] = t; m = dict(st[t])
                if k == 'new_move': st[t] = {}
            st[s] = m; ops.append(o); continue
        M = st[s]
        if big and rng.random() < .97: pool = ['set'] * 9 + ['set_io'] * 5 + ['search'] * 2 + (['erase'] if kind == 'map' else [])
        else:
            pool = ['set'] * 6 + ['set_io'] * 3 + ['search']
            if kind != 'set': pool += ['set_self', 'set_self', 'put']
            if kind != 'maparray': pool += ['clear'] if rng.random() < .3 else []
            if kind == 'map':
                pool += ['erase'] * 7 + ['val', 'vald', 'reserve', 'rehash']
                if key == 'str': pool += ['setc', 'setc_io', 'setc_io', 'setc', 'searchc', 'valc', 'valdc']
            if rng.random() < .3: pool += ['copy_assign', 'move_assign', 'destroy'] * 2
        op = rng.choice(pool); o = dict(op=op, s=s)
        if op in ('set', 'set_io', 'setc', 'setc_io'):
            k = lit() if op[3:4] == 'c' else kw(); o.update(k=k, x=val(), w=rng.randint(0, 1 if op[3:4] == 'c' else 3 if kind != 'set' else 0))
            if op.endswith('_io') and k in M: pass
            else: M[k] = o['x']
        elif op in ('searchc', 'valc', 'valdc'): o.update(k=lit(), x=val(), w=rng.randint(0, 1))
        elif op == 'set_self':
            if not M: continue
            o.update(k=kw(), k2=rng.choice(sorted(M))); M[o['k']] = M[o['k2']]
        elif op in ('search', 'val'): o['k'] = kw()
        elif op == 'vald': o.update(k=kw(), x=val())
        elif op == 'put':
            o.update(k=kw(), x=val())
            if o['k'] not in M:
                if not checked: continue
            else: M[o['k']] = o['x']
        elif op == 'erase':
            o['k'] = rng.choice(sorted(M)) if M and (not checked or rng.random() < .8) else kw()
            if o['k'] not in M:
                if not checked: continue
            else: del M[o['k']]
        elif op == 'clear': st[s] = {}
        elif op == 'reserve': o['n'] = rng.choice([0, 1, 2, 3, 4, 6, 7, 12, 13, 24] if not big else [0, 24, 48, 96, 97, 190, 300])
        elif op in ('copy_assign', 'move_assign'):
            t = rng.choice(on); o['t'] = t
            if t != s:
                st[s] = dict(st[t])
                if op == 'move_assign': st[t] = {}
        elif op == 'destroy': st[s] = None
        ops.append(o)
    return ops

def main(prop):
    c = Check(prop)
    kind = KIND[prop]
    bins = c.build('assoc', ['checked', 'release'], flags=['-DONLY=%d' % ONLY[prop]])
    scs = []
    def add(key, val, mode, u, cs, ops):
        scs.append(scenario(SCHEMA, '%s %s %s %s %d %s' % (kind, key, val, mode, u, ' '.join(map(str, cs))), ops, bins[mode]))
    keys = ['int', 'coll', 'tracked', 'str']; vals = ['int', 'tracked'] if kind != 'set' else ['int']
    combos = [(k, v, m) for m in ('checked', 'release') for k in keys for v in vals]
    jobs = [('AssocGen', 'AssocGen_%s.cfg' % kind)]
    if kind == 'map': jobs += [('MapTable', 'MapTable%s.cfg' % x) for x in 'ABC']
    else: jobs += [('MapTable', 'MapTableS.cfg')]
    with ThreadPoolExecutor(4) as ex:
        graphs = list(ex.map(lambda j: c.explore(j[0], j[1], emit=True, extra=['-lncheck', 'final']), jobs))
    cov = {}
    g = graphs[0]
    walks = g.cover(c.rng, 40)
    if c.thorough: walks = walks * len(combos)
    for n, w in enumerate(walks):
        key, val, mode = combos[n % len(combos)]
        ops = []
        for o in w:
            if o['bad'] and mode == 'release': continue
            o = dict(o)
            if kind != 'set':
                if 'x' in o: o['x'] = c.rng.randint(1, 120)
                if 'vs' in o: o['vs'] = [c.rng.randint(1, 120) for _ in o['vs']]
            elif 'x' in o: o['x'] = 0
            ops.append(o)
        add(key, val, mode, 4, codes(c.rng, 4, n % 3), ops)
    cov[jobs[0][1]] = '%d of %d transitions' % (g.covered, g.nedges)
    CODES = dict(A=[3, 3, 11, 19, 2, 0, 15], B=[0] * 5, C=[7, 15, 14, 7, 31, 12], S=[3, 3, 11, 19, 2, 0, 15])
    for (mod, cfg), g in list(zip(jobs, graphs))[1:]:
        cs = CODES[cfg[8]]
        walks = g.cover(c.rng, 60, budget=None if c.thorough else 12000)
        for n, w in enumerate(walks):
            key = ['coll', 'tracked'][n % 2]; val = vals[(n // 2) % len(vals)]; mode = ['checked', 'release'][(n // 4) % 2]
            ops = [dict(op='new', s=1)]
            for o in w:
                o = dict(o, s=1)
                if o['op'] == 'set': o.update(x=0 if kind == 'set' else c.rng.randint(1, 120), w=c.rng.randint(0, 3 if kind != 'set' else 0))
                if kind != 'map' and o['op'] in ('reserve', 'rehash', 'erase'): continue
                ops.append(o)
            add(key, val, mode, len(cs), cs, ops)
        cov[cfg] = '%d of %d transitions' % (g.covered, g.nedges)
    c.extra['spec_transitions_replayed'] = cov
    for n in range(320 if not c.thorough else 9600):
        key, val, mode = combos[n % len(combos)]
        u = c.rng.choice([3, 5, 8, 12, 12])
        add(key, val, mode, u, codes(c.rng, u, c.rng.randrange(5)), random_ops(c.rng, kind, key, u, 60, mode == 'checked', deep=n % 3 == 0))
    # many keys: large tables
    for n in range(16 if not c.thorough else 320):
        key, val, mode = combos[n % len(combos)]
        u = c.rng.choice([150, 230, 300])
        add(key, val, mode, u, codes(c.rng, u, 4 if n % 4 else 3) if n % 8 else [c.rng.randrange(1 << 20) for _ in range(u)], random_ops(c.rng, kind, key, u, 420, mode == 'checked', deep=True, slots=2, big=True))
    c.check_scenarios('AssocTrace', 'AssocTrace.cfg', scs, c.run_harness)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main, sys.argv[1] if len(sys.argv) > 1 else 'C09'))
