"""C12 il::Deque (spec/Deque.tla), C13 il::Tree (spec/Tree.tla)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from script import scenario

COMMON = dict(new='s', new_copy='s t', new_move='s t', copy_assign='s t', move_assign='s t', destroy='s')
SCHEMA = dict(COMMON, new_n='s n', reserve='s n', push_front='s x w', push_back='s x w', push_front_self='s', push_back_self='s', full='s', pop_front='s',
              pop_back='s', front='s', back='s', put_front='s x', put_back='s x', new_depth='s d', add='s p* i', set='s p* x', parent='s p*', child='s p* i', has='s p* i')
TYPES = ('int', 'double', 'tracked')

def deque_ops(rng, n, checked, sizes=(0, 1, 2, 3, 4, 5, 8)):
    st = {s: None for s in (1, 2, 3)}; ops = []          # slot -> [size, cap]
    val = lambda: rng.randint(1, 120)
    bias = rng.random()
    big = max(sizes) > 8
    while len(ops) < n:
        s = rng.choice([1, 1, 1, 2, 3]) if not big or rng.random() < .05 else 1; on = [t for t in st if st[t]]
        if not st[s]:
            op = rng.choice(['new_n'] * 4 + ['new', 'new_copy', 'new_move']); o = dict(op=op, s=s)
            if op == 'new': st[s] = [0, 0]
            elif op == 'new_n': o['n'] = rng.choice(sizes); st[s] = [0, o['n']]
            else:
                if not on: continue
                t = rng.choice(on); o['t'] = t; st[s] = list(st[t])
                if op == 'new_move': st[t] = [0, 0]
        else:
            L, C = st[s]
            op = rng.choice(['push_front', 'push_back', 'push_back', 'push_front', 'pop_front', 'pop_back', 'front', 'back', 'put_front', 'put_back', 'full', 'reserve',
                             'push_front_self', 'push_back_self'] + (['copy_assign', 'move_assign', 'destroy'] if rng.random() < .3 else []))
            if op.startswith('pop') and rng.random() < bias: op = 'push_back' if rng.random() < bias else op
            if big and rng.random() < .7: op = rng.choice(['push_back', 'push_back', 'push_back', 'push_front', 'pop_front', 'pop_back', 'pop_front'])
            o = dict(op=op, s=s)
            if op.startswith('push'):
                if L >= C or (op.endswith('self') and L == 0): continue
                if not op.endswith('self'): o.update(x=val(), w=rng.randint(0, 1))
                st[s][0] += 1
            elif op in ('pop_front', 'pop_back'):
                if L == 0:
                    if not checked: continue
                else: st[s][0] -= 1
            elif op in ('front', 'back', 'put_front', 'put_back'):
                if L == 0 and not checked: continue
                if op[:3] == 'put': o['x'] = val()
            elif op == 'full':
                if L != C or C == 0 or rng.random() < .7: continue
            elif op == 'reserve':
                if C != 0: continue
                o['n'] = rng.randint(0, 6); st[s] = [0, o['n']]
            elif op == 'destroy': st[s] = None
            else:
                t = rng.choice(on); o['t'] = t
                if t != s:
                    st[s] = list(st[t])
                    if op == 'move_assign': st[t] = [0, 0]
        ops.append(o)
    return ops

def tree_ops(rng, nc, n, checked, depth=None, room=14):
    st = {s: None for s in (1, 2, 3)}; lost = set(); ops = []
    while len(ops) < n:
        s = rng.choice([1, 1, 1, 2, 3]); live = [t for t in st if st[t] and t not in lost]
        if not st[s]:
            op = rng.choice(['new', 'new_depth', 'new_copy', 'new_move']); o = dict(op=op, s=s)
            if op == 'new_depth': o['d'] = rng.randint(0, 2)
            if op[:5] == 'new_c' or op[:5] == 'new_m':
                if not live: continue
                t = rng.choice(live); o['t'] = t; st[s] = set(st[t])
                if op == 'new_move': lost.add(t)
            else: st[s] = {()}
        elif s in lost or rng.random() < .06:
            op = rng.choice(['destroy', 'copy_assign', 'move_assign']); o = dict(op=op, s=s)
            if op == 'destroy': st[s] = None; lost.discard(s)
            else:
                if not live: continue
                t = rng.choice(live); o['t'] = t
                if t != s:
                    st[s] = set(st[t]); lost.discard(s)
                    if op == 'move_assign': lost.add(t)
        else:
            T = st[s]; p = rng.choice(sorted(T)) if not depth or rng.random() < .4 else max(T, key=len); op = rng.choice(['add', 'add', 'add', 'set', 'set', 'parent', 'child', 'has']); o = dict(op=op, s=s, p=list(p))
            if op == 'add':
                i = rng.randrange(nc) if not checked or rng.random() < .9 else rng.choice([-1, nc])
                o['i'] = i
                if len(p) >= (depth or (4 if nc <= 3 else 2)) or len(T) > room: continue
                if 0 <= i < nc: T.add(p + (i,))
            elif op == 'set': o['x'] = rng.randint(1, 120)
            elif op == 'has': o['i'] = rng.randrange(nc) if not checked or rng.random() < .8 else rng.choice([-1, nc])
            elif op == 'parent':
                if not p and not checked: continue
            else:
                k = [i for i in range(nc) if p + (i,) in T]
                if not k:
                    if not checked: continue
                    k = [0]
                o['i'] = rng.choice(k)
        ops.append(o)
    return ops

def main(prop):
    c = Check(prop)
    deque = prop == 'C12'
    bins = c.build('dequetree', ['checked', 'release'], flags=['-DONLY=' + prop[1:]])
    combos = [(t, m) for m in ('checked', 'release') for t in TYPES]
    scs = []; cov = {}
    def add(ty, mode, ops, nc=''):
        scs.append(scenario(SCHEMA, '%s %s %s %s' % ('deque' if deque else 'tree', ty, mode, nc), ops, bins[mode]))
    for mod, cfg, nc in ([('DequeGen', 'DequeGen.cfg', '')] if deque else [('TreeGen', 'TreeGen.cfg', 2), ('TreeGen', 'TreeGen3.cfg', 3)]):
        g = c.explore(mod, cfg, emit=True, extra=['-lncheck', 'final'])
        walks = g.cover(c.rng, 40, budget=None if c.thorough else 40000)
        if c.thorough: walks = walks * len(combos)
        for n, w in enumerate(walks):
            ty, mode = combos[n % len(combos)]
            ops = []
            for o in w:
                if o['bad'] and mode == 'release': continue
                o = dict(o)
                if 'x' in o: o['x'] = c.rng.randint(1, 120)
                ops.append(o)
            add(ty, mode, ops, nc)
        cov[cfg] = '%d of %d transitions' % (g.covered, g.nedges)
    c.extra['spec_transitions_replayed'] = cov
    for n in range(240 if not c.thorough else 9000):
        ty, mode = combos[n % len(combos)]
        if deque: add(ty, mode, deque_ops(c.rng, 60, mode == 'checked'))
        else:
            nc = c.rng.choice([2, 3, 4, 7, 9])
            add(ty, mode, tree_ops(c.rng, nc, 40, mode == 'checked'), nc)
    # large deques; wide and deep trees
    for n in range(18 if not c.thorough else 360):
        ty, mode = combos[n % len(combos)]
        if deque: add(ty, mode, deque_ops(c.rng, 420, mode == 'checked', [50, 64, 65, 100, 130, 200]))
        else:
            nc, d = c.rng.choice([(2, 15), (2, 15), (3, 10), (7, 5), (9, 5), (15, 3), (15, 3), (29, 3)])
            add(ty, mode, tree_ops(c.rng, nc, 30, mode == 'checked', d, 24), nc)
    c.check_scenarios('DequeTrace' if deque else 'TreeTrace', 'DequeTrace.cfg' if deque else 'TreeTrace.cfg', scs, c.run_harness)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main, sys.argv[1] if len(sys.argv) > 1 else 'C12'))
