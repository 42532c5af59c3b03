"""C28: maps in binary files (spec/Filepack.tla)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from script import tree
from c24 import node, limbs, f64, FLOATS, INTS, STRS, KEYS, Gen as TomlTrees

def line(o):
    t = [o['op']]
    if o['op'] == 'trip':
        t += [str(o['where']), str(len(o['opt']))]
        for k in o['opt']: t += [str(len(k))] + [str(x) for x in k]
        t += tree(o['v'])
    return ' '.join(t)

class Gen(TomlTrees):
    def leaf(self, kind):
        r = self.r
        if kind == 'f32': return node('f32', [r.randrange(65536), r.randrange(65536)] if r.random() < .5 else limbs('f', r.choice([0.0, -0.0, 1.5, float('inf'), float('nan'), 1e-45])))
        if kind == 'a2u8':
            h, w = r.choice([(0, 0), (0, 3), (2, 0), (1, 1), (2, 3), (3, 2), (9, 5)])
            cap = [h + r.randrange(3), w + r.randrange(3)] if r.random() < .5 else [0, 0]
            return node('a2u8', [h, w] + cap + [r.randrange(256) for _ in range(h * w)])
        if kind == 'ai32': return node('ai32', sum((limbs('i', r.randrange(-2 ** 31, 2 ** 31)) for _ in range(3)), []))
        if kind == 'ai32': return node('ai32')
        return TomlTrees.leaf(self, kind)
    def value(self, depth, kind=None, odd=0.0):
        r = self.r
        if odd and r.random() < odd: return self.leaf(r.choice(['void', 'u8', 'i8', 'u16', 'i16', 'au8', 'ai32', 'ai64'])) if r.random() < .7 else node(r.choice(['arr', 'map']))
        kind = kind or r.choice(['bool', 'int', 'f32', 'f64', 'str', 'str', 'af64', 'a2f64', 'a2u8'] + (['marr'] * 3 if depth > 0 else []))
        return self.table(depth - 1, odd=odd) if kind == 'marr' else self.leaf(kind)
    def table(self, depth, odd=0.0, t=None):
        r = self.r; n = r.choice([0, 1, 2, 3, 4, 6])
        ks = r.sample([k for k in KEYS if k or odd], n) if r.random() < .9 else [b'k%d' % i for i in range(25)]
        return node('marr', k=ks, c=[self.value(depth, odd=odd) for _ in ks])
    def structs(self, bad=False):
        """arrays of the same size"""
        r = self.r; n = r.choice([0, 1, 3, 5]); m = r.choice([0, 1, 2, 3, 5]); ks = r.sample(KEYS, m)
        c = [node('af64', sum((self.double() for _ in range(n)), [])) if r.random() < .5 else node('ai32', sum((limbs('i', r.randrange(-2 ** 31, 2 ** 31)) for _ in range(n)), [])) for _ in ks]
        if bad and c: c[-1] = self.leaf(r.choice(['int', 'str'])) if r.random() < .5 else node('af64', self.double() * (n + 1))
        return node('marr', k=ks, c=c)
    def with_structs(self, bad=False):
        """a table with a path to an array of structures"""
        r = self.r; d = r.randrange(3); path = []; v = self.structs(bad)
        for _ in range(d + 1):
            k = r.choice([x for x in KEYS if x]); t = self.table(1); path.insert(0, k)
            kv = [(a, b) for a, b in zip(t['k'], t['c']) if a != list(k)] + [(list(k), v)]
            r.shuffle(kv)
            v = node('marr', k=[a for a, _ in kv], c=[b for _, b in kv])
        return dict(op='trip', where=0, opt=[list(p) for p in path], v=v)

def main():
    c = Check('C28')
    big = 'Big' if c.thorough else ''
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(c.build, 'filepack', ['checked', 'release'])
        f2 = ex.submit(c.explore, 'FilepackGen', 'FilepackGen%s.cfg' % big, emit=True, timeout=3000)
        bins = f1.result(); graph = f2.result()
    rng = c.rng
    small = [o for es in graph.out for o, _ in es]
    c.extra['trees_enumerated'] = len(small)
    g = Gen(rng); scs = []
    T = lambda v, opt=(), where=0: dict(op='trip', where=where, opt=[list(x) for x in opt], v=v)
    for mode, b in bins.items():
        ops = [dict(o) for o in small if c.thorough or rng.random() < .12]
        for k in KEYS:
            for v in (node('int', limbs('q', 7)), node('marr', k=[b'x'], c=[node('bool', [1])])):
                ops.append(T(node('marr', k=[k], c=[v]))); ops.append(T(node('marr', k=[b'p', k], c=[node('marr', k=[k], c=[v]), v])))
        for v in [node('str', s) for s in STRS] + [node('int', limbs('q', x)) for x in INTS + [127, 128, 16383, 16384, -127, -128]] + [node('f64', f64(x)) for x in FLOATS]:
            ops.append(T(node('marr', k=[b'a', b'b', b'c'], c=[v, node('marr', k=[b'x'], c=[v]), v])))
        many = 1 if not c.thorough else 20
        for _ in range(700 * many): ops.append(T(g.table(rng.randrange(4)), rng.choice([(), (), (b'a',), (b'zz',), (b'a', b'b')])))
        for _ in range(200 * many): ops.append(g.with_structs())
        for _ in range(80 * many): ops.append(g.with_structs(bad=True))
        for _ in range(150 * many): ops.append(T(g.table(rng.randrange(3), odd=0.12)))
        # long ones
        for n in (255, 256, 257, 1000, 2047, 2048, 2049, 4096, 5000, 8192, 9000) if c.thorough else rng.sample((255, 256, 257, 1000, 2047, 2048, 2049, 4096, 5000), 4) + [5000]:
            v = [node('str', [rng.randrange(256) for _ in range(n)]), node('af64', sum((g.double() for _ in range(n // 8)), [])),
                 node('a2u8', [n // 16, 16, 0, 0] + [rng.randrange(256) for _ in range(n // 16 * 16)]), node('a2f64', [n // 64, 4, 0, 0] + sum((g.double() for _ in range(n // 64 * 4)), []))]
            rng.shuffle(v); ops.append(T(node('marr', k=[b'a', b'b', b'c', b'd' * min(n, 700)], c=v), (b'a',)))
            ops.append(T(node('marr', k=[b'k%d' % i for i in range(n // 20)], c=[g.leaf(rng.choice(['bool', 'int', 'f64'])) for i in range(n // 20)])))
        v = node('int', limbs('q', 7))
        for q in range(25): v = node('marr', k=[b'%d' % q], c=[v])
        ops.append(T(v))
        for w in (1, 2):
            for _ in range(15): ops.append(T(g.table(rng.randrange(3)), where=w))
        rng.shuffle(ops)
        for k in range(0, len(ops), 6):
            seq = ops[k:k + 6] + [dict(op='missing')]
            scs.append(dict(header=mode, bin=b, ops=[(line(o), o) for o in seq]))
    c.check_scenarios('FilepackTrace', 'FilepackTrace.cfg', scs, c.run_harness, chunk_events=2500)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
