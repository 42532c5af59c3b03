"""Scripts for the multi-dimensional arrays (harness/ndarray.cpp, spec/NDArray.tla)."""
import itertools
SCHEMA = dict(new='s', new_n='s n* fill*', new_val='s n* x', new_emp='s n* x', new_list='s n* fill*', new_aln='s n* al ar am fill*',
    new_alv='s n* x al ar am', new_copy='s t', new_move='s t', copy_assign='s t', move_assign='s t', destroy='s',
    get='s ix*', put='s ix* x', fill='s x', dim='s d', resize='s n* fill*', resize_val='s n* x', resize_emp='s n* x',
    resize_self='s n* ix*', reserve='s n*')
RANK = {'2D': 2, '2C': 2, '3D': 3, '3C': 3, '4D': 4, '4C': 4}
LISTS = {'2D': [(2, 3), (3, 2), (1, 2), (0, 0)], '2C': [(2, 3), (3, 2), (1, 2), (0, 0)], '3D': [(2, 3, 2)], '3C': [(2, 3, 2)], '4D': [], '4C': []}

def prod(n):
    p = 1
    for k in n: p *= k
    return p

def fresh(rng, o, hi=120):
    o = dict(o)
    if 'x' in o: o['x'] = rng.randint(1, hi)
    if 'fill' in o: o['fill'] = [rng.randint(1, hi) for _ in o['fill']]
    return o

def als(rng, ty):
    # few distinct requests, so that requests differing in one component meet
    sz = dict(int=4, double=8)[ty]
    al = sz * rng.choice([1, 2, 4, 4, 8, 3])
    am = al * rng.choice([1, 2, 4, 4])
    return al, al * rng.randrange(am // al), am

def random_ops(rng, co, ty, n, checked, maxn=None, aligned=0.0, slots=3, resize_bias=1):
    rk = RANK[co]
    maxn = maxn or {2: 7, 3: 4, 4: 3}[rk]
    sh = {s: None for s in range(1, slots + 1)}
    ops = []
    val = lambda: rng.randint(1, 120)
    def shape(lo=0):
        m = [rng.randint(lo, maxn) for _ in range(rk)]
        if rng.random() < .5: m = [max(1, k) for k in m]
        return m
    guard = 0
    while len(ops) < n:
        s = rng.randint(1, slots)
        on = [t for t in sh if sh[t] is not None]
        N = sh[s]
        if N is None:
            k = rng.random()
            m = shape()
            if ty != 'tracked' and rk < 4 and rng.random() < aligned:
                m = [max(1, q) for q in m]
                al, ar, am = als(rng, ty)
                o = dict(op='new_aln', s=s, n=m, al=al, ar=ar, am=am, fill=[val() for _ in range(prod(m))]) if rng.random() < .5 else \
                    dict(op='new_alv', s=s, n=m, x=val(), al=al, ar=ar, am=am)
            elif k < .08: m = [0] * rk; o = dict(op='new', s=s)
            elif k < .3: o = dict(op='new_n', s=s, n=m, fill=[val() for _ in range(prod(m))])
            elif k < .4: o = dict(op='new_val', s=s, n=m, x=val())
            elif k < .45 and co == '2D': o = dict(op='new_emp', s=s, n=m, x=val())
            elif k < .5 and LISTS[co]: m = list(rng.choice(LISTS[co])); o = dict(op='new_list', s=s, n=m, fill=[val() for _ in range(prod(m))])
            elif on:
                t = rng.choice(on); m = sh[t]
                if rng.random() < .6: o = dict(op='new_copy', s=s, t=t)
                else: o = dict(op='new_move', s=s, t=t); sh[t] = [0] * rk
            else: continue
            sh[s] = m
        else:
            k = rng.choice(['put', 'put', 'get', 'dim'] + ['resize'] * 4 * resize_bias + ['reserve'] * 2 * resize_bias +
                           ['copy_assign', 'copy_assign', 'copy_assign', 'move_assign', 'destroy'] +
                           (['resize_val', 'resize_emp', 'resize_self'] * 2 if co == '2D' else []) + (['fill'] if co == '2C' else []))
            o = dict(op=k, s=s)
            if k in ('get', 'put'):
                inr = not checked or rng.random() < .7
                if inr:
                    if prod(N) == 0: continue
                    o['ix'] = [rng.randrange(q) for q in N]
                else:
                    o['ix'] = [rng.choice([rng.randint(-1, q), max(0, q - 1)]) for q in N]
                    if rng.random() < .1: o['ix'][rng.randrange(rk)] = rng.choice([-2**31, 2**31 - 1, 1000])
                if k == 'put': o['x'] = val()
            elif k == 'dim':
                o['d'] = rng.randint(-1, rk) if checked else rng.randrange(rk)
            elif k == 'fill': o['x'] = val()
            elif k in ('resize', 'resize_val', 'resize_emp', 'resize_self'):
                # often vary one dimension only
                m = list(N)
                if rng.random() < .5: m[rng.randrange(rk)] = rng.randint(0, maxn)
                else: m = shape()
                o['n'] = m
                if k == 'resize': o['fill'] = [val() for _ in range(prod(m))]
                elif k == 'resize_self':
                    if prod(N) == 0: continue
                    o['ix'] = [rng.randrange(q) for q in N]
                else: o['x'] = val()
                sh[s] = m
            elif k == 'reserve':
                m = [rng.randint(0, maxn + 2) for _ in range(rk)]
                if checked and rng.random() < .05: m[rng.randrange(rk)] = -1
                o['n'] = m
            elif k in ('copy_assign', 'move_assign'):
                t = rng.choice(on); o['t'] = t
                if t != s:
                    sh[s] = sh[t]
                    if k == 'move_assign': sh[t] = [0] * rk
            elif k == 'destroy': sh[s] = None
        o['rk'] = rk
        ops.append(o)
    return ops
