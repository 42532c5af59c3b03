"""C07: SmallArray (spec/Array.tla with K inline elements) and static arrays (spec/Shaped.tla).
C08: packed, banded and tridiagonal matrices (spec/Shaped.tla)."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import *
from script import scenario
import c01

SCHEMA = dict(new='s', new_n='s n* fill*', new_val='s n* x', new_list='s n* fill*', new_copy='s t', new_move='s t', copy_assign='s t',
    move_assign='s t', destroy='s', get='s ix*', put='s ix* x', dim='s d', view='s b e', edit='s b e i x')
STATIC = {'S1_0': [0], 'S1_1': [1], 'S1_3': [3], 'S1_4': [4], 'S2D_23': [2, 3], 'S2D_32': [3, 2], 'S2D_14': [1, 4], 'S2C_23': [2, 3],
          'S2C_32': [3, 2], 'S2C_14': [1, 4], 'S3D_232': [2, 3, 2], 'S3D_213': [2, 1, 3], 'S4D_2122': [2, 1, 2, 2], 'S4D_2323': [2, 3, 2, 3]}

def enum(kind, n):
    if kind == 'box': return list(itertools.product(*[range(k) for k in n]))
    if kind == 'lower': return [(i, j) for i in range(n[0]) for j in range(i + 1)]
    if kind == 'upper': return [(i, j) for i in range(n[0]) for j in range(i, n[0])]
    if kind == 'tri': return [(i, k) for i in range(n[0]) for k in (-1, 0, 1)]
    return [(i, k) for i in range(n[0]) for k in range(-n[2], n[3] + 1) if 0 <= i + k < n[1]]

def shape(rng, kind, co, big=False):
    if kind == 'box': return STATIC[co]
    if big:
        m = rng.choice([7, 11, 16, 17, 23])
        if kind == 'band': return [m, m + rng.randint(-3, 3), rng.choice([0, 1, 4, 9]), rng.choice([0, 2, 5, 12])]
        return [m if kind != 'tri' else m * 3]
    if kind == 'band': 
        if rng.random() < .4:
            m = rng.randint(0, 6); w = rng.randint(0, 2); return [m, m, w, w]
        return [rng.randint(0, 6), rng.randint(0, 6), rng.randint(0, 3), rng.randint(0, 3)]
    return [rng.randint(0, 6)]

def random_ops(rng, kind, co, n, checked, slots=3, big=False):
    sh = {s: None for s in range(1, slots + 1)}; lost = set(); ops = []
    tri = kind in ('lower', 'upper')
    val = lambda: rng.randint(1, 120)
    while len(ops) < n:
        s = rng.randint(1, slots)
        live = [t for t in sh if sh[t] is not None and t not in lost]
        if sh[s] is None:
            m = shape(rng, kind, co, big and rng.random() < .8); k = rng.random()
            if tri and k < .1: m = [0]; o = dict(op='new', s=s)
            elif k < .4: o = dict(op='new_n', s=s, n=m, fill=[val() for _ in enum(kind, m)])
            elif kind == 'box' and k < .5: o = dict(op='new_val', s=s, n=m, x=val())
            elif kind == 'box' and k < .65 and not co.startswith('S4D'): o = dict(op='new_list', s=s, n=m, fill=[val() for _ in enum(kind, m)])
            elif live:
                t = rng.choice(live); m = sh[t]
                if rng.random() < .6: o = dict(op='new_copy', s=s, t=t)
                else:
                    o = dict(op='new_move', s=s, t=t)
                    if tri: sh[t] = [0]
                    else: lost.add(t)
            else: continue
            sh[s] = m
        elif rng.random() < .4 or s in lost:
            k = rng.choice(['copy_assign', 'copy_assign', 'move_assign', 'destroy'])
            o = dict(op=k, s=s)
            if k == 'destroy': sh[s] = None; lost.discard(s)
            else:
                if not live: continue
                t = rng.choice(live); o['t'] = t
                if t != s:
                    sh[s] = sh[t]; lost.discard(s)
                    if k == 'move_assign':
                        if tri: sh[t] = [0]
                        else: lost.add(t)
        else:
            m = sh[s]; ix = enum(kind, m); k = rng.choice(['get', 'put', 'put', 'dim'] + (['view', 'edit'] if kind == 'box' and len(m) == 1 else []))
            o = dict(op=k, s=s)
            if k in ('get', 'put'):
                if checked and rng.random() < .4 or not ix:
                    if not checked: continue
                    rk = len(m) if kind == 'box' else 2
                    o['ix'] = [rng.choice([rng.randint(-4, 7), rng.randint(0, 2)] + ([rng.randint(0, max(m) + 1)] * 2 if big else [])) for _ in range(rk)]
                    if rng.random() < .05: o['ix'][rng.randrange(rk)] = rng.choice([-2**31, 2**31 - 1])
                else: o['ix'] = list(rng.choice(ix))
                if k == 'put': o['x'] = val()
            elif k == 'dim':
                d = len(m) if kind == 'box' else 2 if kind == 'band' else 1
                o['d'] = rng.randint(-1, d) if checked and kind == 'box' and d > 1 else rng.randrange(d)
            else:
                b, e = rng.randint(0, m[0]), rng.randint(0, m[0] + 1)
                if k == 'view': o.update(b=b, e=max(b, e))
                else:
                    o.update(b=b, e=e, i=rng.randint(0, max(0, e - b)), x=val())
                    if e < b: continue
                bad = not (0 <= b <= o['e'] and b < m[0] and o['e'] <= m[0]) or (k == 'edit' and not o['i'] < o['e'] - b)
                if bad and not checked: continue
        ops.append(o)
    return ops

def shaped(c, plans, conts, tyof, nrand, ONLY):
    bins = c.build('shaped', ['checked', 'release'], flags=['-DONLY=%d' % ONLY])
    with ThreadPoolExecutor(4) as ex:
        graphs = list(ex.map(lambda p: c.explore('ShapedGen', p[1], emit=True, extra=['-lncheck', 'final']), plans))
    scs = []
    def add(kind, co, ty, mode, ops):
        scs.append(scenario(SCHEMA, '%s %s %s %s' % (kind, ty, mode, co), ops, bins[mode]))
    cov = {}
    for (kind, cfg, cos), g in zip(plans, graphs):
        for co in cos:
            walks = g.cover(c.rng, 40)
            group = [(ty, m) for m in ('checked', 'release') for ty in tyof(co)]
            if c.thorough: walks = walks * len(group)
            for k, w in enumerate(walks):
                ty, mode = group[k % len(group)]
                ops = []
                for o in w:
                    if mode == 'release' and o['bad']: continue
                    if o['op'] == 'put' and 'x' not in o: continue
                    o = dict(o)
                    if 'x' in o: o['x'] = c.rng.randint(1, 120)
                    if 'fill' in o: o['fill'] = [c.rng.randint(1, 120) for _ in o['fill']]
                    ops.append(o)
                add(kind, co, ty, mode, ops)
            cov[co] = '%d of %d transitions' % (g.covered, g.nedges)
    for kind, co in conts:
        for ty in tyof(co):
            for mode in ('checked', 'release'):
                for _ in range(nrand if not c.thorough else nrand * 30):
                    add(kind, co, ty, mode, random_ops(c.rng, kind, co, 40, mode == 'checked'))
                if kind != 'box':   # larger matrices
                    for _ in range(4 if not c.thorough else 60):
                        add(kind, co, ty, mode, random_ops(c.rng, kind, co, 14, mode == 'checked', big=True))
    c.extra['spec_transitions_replayed'] = dict(c.extra.get('spec_transitions_replayed', {}), **cov)
    c.check_scenarios('ShapedTrace', 'ShapedTrace.cfg', scs, c.run_harness)

def small(c):
    bins = c.build('smallarray', ['checked', 'release'])
    g = c.explore('ArrayGen', 'SmallArrayGen.cfg', emit=True, extra=['-lncheck', 'final'])
    skip = {'new_emp', 'new_aln', 'new_alv', 'new_view', 'resize_val', 'resize_emp', 'resize_self', 'fill', 'inc'}
    per = {1: [], 2: [], 3: []}
    def add(k, ty, mode, ops):
        per[k].append(scenario(c01.SCHEMA, '%s %s %d' % (ty, mode, k), ops, bins[mode]))
    walks = g.cover(c.rng, 40, budget=None if c.thorough else 20000)
    c.extra['spec_transitions_replayed'] = dict(SmallArray='%d of %d transitions' % (g.covered, g.nedges))
    group = [('tracked', 'checked'), ('int', 'checked'), ('tracked', 'release'), ('double', 'release')]
    for n, w in enumerate(walks):
        ty, mode = group[n % 4]
        add(2, ty, mode, [c01.fresh(c.rng, o) for o in w if mode == 'checked' or not o['bad']])
    for n in range(300 if not c.thorough else 6000):
        k = 1 + n % 3; ty, mode = group[(n // 3) % 4]
        add(k, ty, mode, small_ops(c.rng, ty, 40, mode == 'checked', skip))
    for n in range(16 if not c.thorough else 300):     # far beyond the inline elements
        k = 1 + n % 3; ty, mode = group[(n // 3) % 4]
        add(k, ty, mode, small_ops(c.rng, ty, 40, mode == 'checked', skip, [0, 1, 17, 40, 64, 65, 100, 129]))
    for k in per:
        c.check_scenarios('ArrayTrace', 'SmallArrayTrace%d.cfg' % k, per[k], c.run_harness)

def small_ops(rng, ty, n, checked, skip, sizes=(0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 7)):
    """Histories around the inline/heap boundary."""
    ln = {s: None for s in (1, 2, 3)}; ops = []
    val = lambda: rng.randint(1, 120)
    size = lambda: rng.choice(sizes)
    while len(ops) < n:
        s = rng.randint(1, 3); on = [t for t in ln if ln[t] is not None]; L = ln[s]
        if L is None:
            k = rng.choice(['new', 'new_n', 'new_val', 'new_list', 'new_copy', 'new_copy', 'new_move', 'new_move']); m = size()
            o = dict(op=k, s=s)
            if k == 'new': m = 0
            elif k == 'new_n': o.update(n=m, fill=[val() for _ in range(m)])
            elif k == 'new_val': o.update(n=m, x=val())
            elif k == 'new_list': m = min(m, 4); o['vals'] = [val() for _ in range(m)]
            else:
                if not on: continue
                t = rng.choice(on); o['t'] = t; m = ln[t]
                if k == 'new_move': ln[t] = 0
            ln[s] = m
        else:
            k = rng.choice(['put', 'get', 'back', 'put_back', 'resize', 'resize', 'reserve', 'append', 'append', 'append_mv', 'append_emp', 'append_self',
                            'append_self', 'view', 'edit', 'copy_assign', 'copy_assign', 'move_assign', 'move_assign', 'destroy'])
            o = dict(op=k, s=s)
            if k in ('put', 'get'):
                if not checked and L == 0: continue
                o['i'] = rng.randint(-1, L) if checked else rng.randrange(L)
                if k == 'put': o['x'] = val()
            elif k in ('back', 'put_back'):
                if L == 0 and not checked: continue
                if k == 'put_back': o['x'] = val()
            elif k == 'resize': m = size(); o.update(n=m, fill=[val() for _ in range(max(0, m - L))]); ln[s] = m
            elif k == 'reserve': o['n'] = size()
            elif k.startswith('append'):
                if k == 'append_self':
                    if not L: continue
                    o['i'] = rng.randrange(L)
                else: o['x'] = val()
                ln[s] = L + 1
            elif k in ('view', 'edit'):
                if not L: continue
                b = rng.randrange(L); e = rng.randint(b, L + (1 if checked else 0)); o.update(b=b, e=e)
                if k == 'edit':
                    if b == e: continue
                    o.update(i=rng.randrange(e - b), x=val())
            elif k in ('copy_assign', 'move_assign'):
                t = rng.choice(on); o['t'] = t
                if t != s:
                    ln[s] = ln[t]
                    if k == 'move_assign': ln[t] = 0
            else: ln[s] = None
        ops.append(o)
    return ops

def main(prop):
    c = Check(prop)
    if prop == 'C07':
        small(c)
        shaped(c, [('box', 'ShapedBox1.cfg', ['S1_3']), ('box', 'ShapedBox2.cfg', ['S2D_23', 'S2C_23']), ('box', 'ShapedBox3.cfg', ['S3D_232']), ('box', 'ShapedBox4.cfg', ['S4D_2122'])],
               [('box', co) for co in STATIC], lambda co: ('int', 'double', 'tracked'), 3, 7)
    else:
        shaped(c, [('lower', 'ShapedLower.cfg', ['lower']), ('upper', 'ShapedUpper.cfg', ['upper']), ('tri', 'ShapedTri.cfg', ['tri']), ('band', 'ShapedBand.cfg', ['band'])],
               [(k, k) for k in ('lower', 'upper', 'tri', 'band')], lambda co: ('int', 'double') + (() if co == 'band' else ('tracked',)), 20, 8)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main, sys.argv[1] if len(sys.argv) > 1 else 'C07'))
