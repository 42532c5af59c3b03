"""C01: il::Array against spec/Array.tla."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from script import scenario

SCHEMA = dict(new='s', new_n='s n fill*', new_val='s n x', new_emp='s n x', new_list='s vals*', new_aln='s al ar am fill*',
    new_alv='s n x al ar am', new_view='s t b e', new_copy='s t', new_move='s t', copy_assign='s t', move_assign='s t',
    destroy='s', get='s i', put='s i x', back='s', put_back='s x', fill='s x', inc='s', resize='s n fill*', resize_val='s n x',
    resize_emp='s n x', resize_self='s n i', reserve='s n', append='s x', append_mv='s x', append_emp='s x',
    append_self='s i', view='s b e', edit='s b e i x')

def fresh(rng, o, hi=120):
    o = dict(o)
    for f in ('x',):
        if f in o: o[f] = rng.randint(1, hi)
    for f in ('fill', 'vals'):
        if f in o: o[f] = [rng.randint(1, hi) for _ in o[f]]
    return o

def als(rng, ty):
    # few distinct requests, so that requests differing in one component meet
    sz = dict(int=4, double=8, short=2)[ty]
    al = sz * rng.choice([1, 2, 4, 4, 8, 3])
    am = al * rng.choice([1, 2, 4, 4])
    return al, al * rng.randrange(am // al), am

def random_ops(rng, ty, n, checked, maxlen=40, aligned=0.0, slots=3, big=False):
    """Random histories at larger sizes; tracks only what is needed to stay in contract."""
    ln = {s: None for s in range(1, slots + 1)}
    ops = []
    val = lambda: rng.randint(1, 120)
    small = lambda: rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, rng.randint(0, maxlen)]) if not big else rng.choice([0, 3, rng.randint(0, maxlen), rng.randint(maxlen // 2, maxlen), 1 << rng.randint(4, maxlen.bit_length() - 1)])
    while len(ops) < n:
        s = rng.randint(1, slots)
        on = [t for t in ln if ln[t] is not None]
        L = ln[s]
        if L is None:
            k = rng.random()
            m = small()
            if ty != 'tracked' and rng.random() < aligned:
                m = max(1, m)
                al, ar, am = als(rng, ty)
                o = dict(op='new_aln', s=s, al=al, ar=ar, am=am, fill=[val() for _ in range(m)]) if rng.random() < .5 else \
                    dict(op='new_alv', s=s, n=m, x=val(), al=al, ar=ar, am=am)
            elif k < .1: m = 0; o = dict(op='new', s=s)
            elif k < .25: o = dict(op='new_n', s=s, n=m, fill=[val() for _ in range(m)])
            elif k < .35: o = dict(op='new_val', s=s, n=m, x=val())
            elif k < .42: o = dict(op='new_emp', s=s, n=m, x=val())
            elif k < .5: m = min(m, 4); o = dict(op='new_list', s=s, vals=[val() for _ in range(m)])
            elif on:
                t = rng.choice(on)
                k = rng.random()
                m = ln[t]
                if k < .2 and m > 0:
                    b = rng.randrange(m); e = rng.randint(b, m)
                    o = dict(op='new_view', s=s, t=t, b=b, e=e); m = e - b
                elif k < .6: o = dict(op='new_copy', s=s, t=t)
                else: o = dict(op='new_move', s=s, t=t); ln[t] = 0
            else:
                continue
            ln[s] = m
        else:
            k = rng.choice(['put', 'put', 'get', 'back', 'put_back', 'fill', 'inc', 'resize', 'resize', 'resize_val', 'resize_emp', 'resize_self',
                            'reserve', 'reserve', 'append', 'append', 'append', 'append_mv', 'append_emp', 'append_self',
                            'view', 'edit', 'copy_assign', 'copy_assign', 'move_assign', 'destroy'])
            o = dict(op=k, s=s)
            if k in ('put', 'get'):
                o['i'] = rng.randint(-1, L) if checked else (rng.randrange(L) if L else None)
                if checked and rng.random() < .1: o['i'] = rng.choice([-2**31, 2**31 - 1, -100, L + 1, 1000])
                if o['i'] is None: continue
                if k == 'put': o['x'] = val()
            elif k in ('back', 'put_back'):
                if L == 0 and not checked: continue
                if k == 'put_back': o['x'] = val()
            elif k == 'fill': o['x'] = val()
            elif k == 'inc':
                pass
            elif k in ('resize', 'resize_val', 'resize_emp'):
                m = small()
                o['n'] = m
                if k == 'resize': o['fill'] = [val() for _ in range(max(0, m - L))]
                else: o['x'] = val()
                ln[s] = m
            elif k == 'resize_self':
                if not L: continue
                m = small(); o['n'] = m; o['i'] = rng.randrange(L); ln[s] = m
            elif k == 'reserve': o['n'] = small() + rng.choice([0, 0, 10])
            elif k.startswith('append'):
                if L >= maxlen: continue
                if k == 'append_self':
                    if not L: continue
                    o['i'] = rng.randrange(L)
                else: o['x'] = val()
                ln[s] = L + 1
            elif k in ('view', 'edit'):
                if not L: continue
                b = rng.randrange(L); e = rng.randint(b, L)
                if checked and rng.random() < .2: e = L + rng.randint(0, 2)
                o['b'] = b; o['e'] = e
                if k == 'edit':
                    if b == e: continue
                    o['i'] = rng.randrange(e - b); o['x'] = val()
            elif k in ('copy_assign', 'move_assign'):
                t = rng.choice(on); o['t'] = t
                if t != s:
                    ln[s] = ln[t]
                    if k == 'move_assign': ln[t] = 0
            elif k == 'destroy': ln[s] = None
        ops.append(o)
    return ops

def main():
    c = Check('C01')
    bins = c.build('array', ['checked', 'release'])
    g = c.explore('ArrayGen', 'ArrayGen.cfg', emit=True)
    if c.thorough:
        c.explore('ArrayGen', 'ArrayFull.cfg', extra=['-lncheck', 'final'])
    combos = [(t, m) for t in ('int', 'double', 'short', 'tracked') for m in ('checked', 'release')]
    scs = []
    def add(ty, mode, ops):
        scs.append(scenario(SCHEMA, '%s %s' % (ty, mode), ops, bins[mode]))
    reps = [[('tracked', 'checked'), ('int', 'checked'), ('tracked', 'release'), ('double', 'release')]] if not c.thorough else [[x] for x in combos]
    for group in reps:
        walks = g.cover(c.rng, 40)
        for k, w in enumerate(walks):
            for ty, mode in ([group[k % len(group)]]):
                ops = [fresh(c.rng, o) for o in w if mode == 'checked' or not o['bad']]
                add(ty, mode, ops)
    c.extra['spec_transitions_covered'] = g.covered
    for k in range(400 if not c.thorough else 6000):
        ty, mode = combos[k % len(combos)]
        add(ty, mode, random_ops(c.rng, ty, 40, mode == 'checked', aligned=.1))
    # hundreds of elements: what only happens at some size
    for k in range(24 if not c.thorough else 400):
        ty, mode = combos[k % len(combos)]
        add(ty, mode, random_ops(c.rng, ty, 24, mode == 'checked', aligned=.1, maxlen=c.rng.choice([130, 300, 300, 700]), slots=2, big=True))
    c.check_scenarios('ArrayTrace', 'ArrayTrace.cfg', scs, c.run_harness)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
