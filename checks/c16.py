"""C16 il::Dynamic (spec/Dynamic.tla)."""
import sys, os, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from script import scenario

SCHEMA = dict(new='s', new_type='s v@', new_val='s v@ w', set_val='s q* v@ w', new_copy='s t p*', new_move='s t p*', copy_assign='s q* t p*', move_assign='s q* t p*',
              str_assign='s q* t p*', append_part='s q* t p*', append='s q* v@ w', key='s q* key v@ w', destroy='s', access='s q* ty')
SCHEMA['is'] = 's q*'
TYPES = ["void", "bool", "u8", "i8", "u16", "i16", "u32", "u64", "int", "f32", "f64", "str", "arr", "map", "marr",
         "au8", "ai8", "au16", "ai16", "au32", "ai32", "au64", "ai64", "af64", "a2u8", "a2f64"]
FMT = dict(u8='B', i8='b', u16='H', i16='h', u32='I', u64='Q', int='q', f32='f', f64='d')
CONT = ('arr', 'map', 'marr')

def limbs(ty, x):
    if ty in ('u8', 'i8'): return [x]
    b = struct.pack('<' + FMT[ty], x)
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]

def number(rng, ty):
    if ty[0] == 'f': return rng.choice([0.0, -0.0, 1.0, -2.5, rng.gauss(0, 10), 1e30, float('inf')])
    n = 8 * struct.calcsize('<' + FMT[ty])
    lo, hi = (0, 2 ** n - 1) if FMT[ty].isupper() else (-2 ** (n - 1), 2 ** (n - 1) - 1)
    return rng.choice([lo, hi, 0 if lo else hi // 2, rng.randint(lo, hi), min(hi, 2 ** 31), rng.randint(0, 100)])

ALIAS = {'au8': 'u8', 'ai8': 'i8', 'au16': 'u16', 'ai16': 'i16', 'au32': 'u32', 'ai32': 'u32', 'au64': 'u64', 'ai64': 'int', 'af64': 'f64', 'a2u8': 'u8', 'a2f64': 'f64'}
def value(rng, depth=0):
    t = rng.choice([x for x in TYPES if x not in ('u32', 'u64')] + ['str'] * 3 + (['arr', 'map', 'marr'] * 4 if depth < 3 else []))
    if depth >= 3 and t in CONT: t = 'str'
    v = dict(t=t, n=[], k=[], c=[])
    if t == 'bool': v['n'] = [rng.randint(0, 1)]
    elif t in FMT: v['n'] = limbs(t, number(rng, t))
    elif t == 'str':
        v['n'] = list(''.join(rng.choice('abcdefgh \u00e9\u20ac\U0001f600' if rng.random() < .3 else 'xyz') for _ in range(rng.choice([0, 1, 2, 3, 21, 22, 23, 24, 40]))).encode())
    elif t in CONT:
        m = rng.choice([0, 1, 2, 3])
        v['c'] = [value(rng, depth + 1) for _ in range(m)]
        if t != 'arr':
            v['k'] = rng.sample([1, 2, 3, 4, 5, 6, 101, 102, 103], m)
            if t == 'map': v['k'].sort()
    elif t[:2] == 'a2':
        r, c = rng.randint(0, 3), rng.randint(0, 3)
        v['n'] = [r, c] + [x for _ in range(r * c) for x in limbs(ALIAS[t], number(rng, ALIAS[t]))]
    elif t != 'void':
        v['n'] = [x for _ in range(rng.choice([0, 1, 2, 5])) for x in limbs(ALIAS[t], number(rng, ALIAS[t]))]
    return v

def at(v, p):
    for x in p: v = v['c'][x - 1]
    return v
def put(v, p, x):
    if not p: return x
    c = list(v['c']); c[p[0] - 1] = put(c[p[0] - 1], p[1:], x)
    return dict(v, c=c)
def count(v): return 1 + sum(count(x) for x in v['c'])
def paths(v):
    yield []
    for i, c in enumerate(v['c']):
        for p in paths(c): yield [i + 1] + p
VOID = dict(t='void', n=[], k=[], c=[])

def random_ops(rng, n, checked):
    st = {1: None, 2: None, 3: None}; ops = []
    def place(on, kind=None):
        y = [(s, p) for s in on for p in paths(st[s]) if kind is None or at(st[s], p)['t'] in kind]
        return rng.choice(y) if y else None
    while len(ops) < n:
        s = rng.choice([1, 1, 2, 3]); on = [t for t in st if st[t] is not None]
        w = rng.randint(0, 1)
        if st[s] is None:
            op = rng.choice(['new', 'new_type', 'new_val', 'new_val', 'new_val', 'new_copy', 'new_move'])
            o = dict(op=op, s=s)
            if op == 'new': st[s] = VOID
            elif op == 'new_type':
                t = rng.choice(TYPES[:11]); z = [] if t == 'void' else [0] if t in ('bool', 'u8', 'i8') else limbs(t, 0)
                o['v'] = dict(t=t, n=z, k=[], c=[]); st[s] = o['v']
            elif op == 'new_val': o.update(v=value(rng), w=w); st[s] = o['v']
            else:
                if not on: continue
                t, p = place(on); o.update(t=t, p=p); x = at(st[t], p)
                if op == 'new_move': st[t] = put(st[t], p, VOID)
                st[s] = x
        else:
            op = rng.choice(['set_val', 'set_val', 'copy_assign', 'copy_assign', 'move_assign', 'move_assign', 'str_assign', 'append', 'append', 'append_part', 'key', 'key', 'key', 'is', 'access', 'access'] + (['destroy'] if rng.random() < .3 else []))
            s, q = place([s], dict(append=('arr',), append_part=('arr',), key=('map', 'marr')).get(op)) or (s, None)
            if q is None: continue
            o = dict(op=op, s=s, q=q)
            if op == 'set_val': o.update(v=value(rng), w=w); st[s] = put(st[s], q, o['v'])
            elif op == 'destroy': st[s] = None; o = dict(op=op, s=s)
            elif op == 'is': pass
            elif op == 'access':
                right = TYPES.index(at(st[s], q)['t']) + 1
                o['ty'] = right if not checked or rng.random() < .6 else rng.randint(2, len(TYPES))
            elif op == 'append': o.update(v=value(rng, 1), w=w); d = at(st[s], q); st[s] = put(st[s], q, dict(d, c=d['c'] + [o['v']]))
            elif op == 'key':
                o.update(key=rng.choice([1, 2, 3, 4, 5, 6, 101, 102, 103]), v=value(rng, 1), w=w); d = at(st[s], q); k, c = list(d['k']), list(d['c'])
                if o['key'] in k: c[k.index(o['key'])] = o['v']
                else:
                    b = len([x for x in k if x < o['key']]) if d['t'] == 'map' else len(k)
                    k.insert(b, o['key']); c.insert(b, o['v'])
                st[s] = put(st[s], q, dict(d, k=k, c=c))
            else:
                y = place(on, ('str',) if op == 'str_assign' else None)
                if not y: continue
                t, p = y
                if op == 'move_assign' and t == s and len(q) > len(p) and q[:len(p)] == p: continue
                x = at(st[t], p); o.update(t=t, p=p)
                if op == 'append_part': d = at(st[s], q); x = dict(d, c=d['c'] + [x])
                if op == 'move_assign' and not (t == s and p == q): st[t] = put(st[t], p, VOID)
                st[s] = put(st[s], q, x)
            if st[s] is not None and count(st[s]) > 40: st[s] = None; ops.append(o); o = dict(op='destroy', s=s)
        ops.append(o)
    return ops

def main():
    c = Check('C16')
    bins = c.build('dynamic', ['checked', 'release'])
    modes = ['checked', 'release']; scs = []; cov = {}
    for cfg in ('DynamicGen.cfg', 'DynamicGen1.cfg'):
        g = c.explore('DynamicGen', cfg, emit=True, extra=['-lncheck', 'final'])
        walks = g.cover(c.rng, 40, budget=None if c.thorough else 30000)
        if c.thorough: walks = walks * 2
        for n, w in enumerate(walks):
            mode = modes[n % 2]
            scs.append(scenario(SCHEMA, 'dynamic ' + mode, [o for o in w if not (o['bad'] and mode == 'release')], bins[mode]))
        cov[cfg] = '%d of %d transitions' % (g.covered, g.nedges)
    c.extra['spec_transitions_replayed'] = cov
    for n in range(200 if not c.thorough else 6000):
        mode = modes[n % 2]
        scs.append(scenario(SCHEMA, 'dynamic ' + mode, random_ops(c.rng, 30, mode == 'checked'), bins[mode]))
    c.check_scenarios('DynamicTrace', 'DynamicTrace.cfg', scs, c.run_harness)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
