"""C24: maps saved as TOML and loaded back (spec/TomlSave.tla)."""
import sys, os, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from script import scenario
import tomlgen

SCHEMA = dict(trip='where v@')
TOP = ('Map', 'MapArray')

def limbs(fmt, x):
    b = struct.pack('<' + fmt, x)
    return [x] if len(b) == 1 else list(struct.unpack('<%dH' % (len(b) // 2), b))
def node(t, n=(), k=(), c=()): return dict(t=t, n=list(n), k=[list(x) for x in k], c=list(c))
def f64(x): return limbs('d', x)

FLOATS = [0.0, -0.0, 1.0, -1.5, 0.1, 1 / 3, 1e300, -1e-300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 123456789.123456789, float('inf'), float('-inf'), float('nan'),
          1e22, 1e23, 9007199254740993.0, 0.30000000000000004, 3.0]
INTS = [0, 1, -1, 42, 2 ** 31, -2 ** 31, 2 ** 62, 2 ** 63 - 1, -2 ** 63, 1000000, 9]
STRS = [b'', b'x', b'"', b'\\', b'a"b\\c', b"it's", b'tab\t', b'nl\n', b'cr\r\n', b'\x00', b'\x01\x1f\x7f', 'é'.encode(), '日本'.encode(), '\U0001F600'.encode(), b'\xff\xfe', b'x' * 22, b'y' * 23, b'z' * 300,
        b'# not a comment', b'[t]', b'a = 1', b' lead', b'trail ', b'true', b'1', b'"""', b'\\u0041', b'%d%s%n']
KEYS = [b'a', b'b', b'c', b'key_1', b'x-y', b'1', b'true', b'', b' ', b'a b', b'a.b', b'.', b'"', b"'", b'q"k\\', b'#', b'[x]', b'=', 'é'.encode(), b'nl\nx', b'k' * 25, b'k' * 250, b'\xff', b'a\x00', b'%s', b'\t', b'A', b'inf', b'servers']

class Gen:
    def __init__(self, r): self.r = r
    def leaf(self, kind):
        r = self.r
        if kind == 'bool': return node('bool', [r.randrange(2)])
        if kind == 'int': return node('int', limbs('q', r.choice(INTS) if r.random() < .6 else r.randrange(-2 ** 63, 2 ** 63) >> r.randrange(63)))
        if kind == 'f64': return node('f64', self.double())
        if kind == 'str': return node('str', r.choice(STRS) if r.random() < .7 else bytes(r.randrange(256) for _ in range(r.randrange(40))))
        if kind == 'af64': return node('af64', sum((self.double() for _ in range(r.choice([0, 1, 2, 3, 7]))), []))
        if kind == 'a2f64':
            h, w = r.choice([(0, 0), (0, 3), (2, 0), (1, 1), (2, 3), (3, 2), (1, 4)])
            cap = [h + r.randrange(3), w + r.randrange(3)] if r.random() < .5 else [0, 0]
            return node('a2f64', [h, w] + cap + sum((self.double() for _ in range(h * w)), []))
        return {'void': node('void'), 'u8': node('u8', [200]), 'i8': node('i8', [-5]), 'u16': node('u16', [60000]), 'i16': node('i16', limbs('h', -7)), 'f32': node('f32', limbs('f', 1.5)),
                'au8': node('au8', [1, 2]), 'ai32': node('ai32', limbs('i', -3)), 'ai64': node('ai64', limbs('q', 3)), 'a2u8': node('a2u8', [1, 2, 0, 0, 5, 6])}[kind]
    def double(self):
        r = self.r; k = r.random()
        if k < .5: return f64(r.choice(FLOATS))
        if k < .75: return f64(r.uniform(-1000, 1000))
        e = r.randrange(0, 2047)
        return f64(struct.unpack('<d', struct.pack('<Q', r.getrandbits(52) | e << 52 | r.getrandbits(1) << 63))[0])
    def value(self, depth, kind=None, odd=0.0):
        r = self.r
        if odd and r.random() < odd: return self.leaf(r.choice(['void', 'u8', 'i8', 'u16', 'i16', 'f32', 'au8', 'ai32', 'ai64', 'a2u8']))
        kind = kind or r.choice(['bool', 'int', 'f64', 'str', 'str', 'af64', 'a2f64'] + (['arr', 'arr', 'map', 'map'] if depth > 0 else []))
        if kind == 'arr':
            n = r.choice([0, 1, 2, 2, 3, 5])
            k = r.choice(['bool', 'int', 'f64', 'str', 'seq', 'map'] if depth > 0 else ['bool', 'int', 'f64', 'str'])
            pick = lambda: r.choice(['arr', 'af64', 'a2f64']) if k == 'seq' else k
            c = [self.value(depth - 1, pick()) for _ in range(n)]
            if odd and r.random() < 3 * odd: c.append(self.leaf(r.choice(['bool', 'int', 'f64', 'str', 'af64'])))
            return node('arr', c=c)
        if kind == 'map': return self.table(depth - 1, odd=odd)
        return self.leaf(kind)
    def table(self, depth, odd=0.0, t=None):
        r = self.r; n = r.choice([0, 1, 2, 3, 4, 6])
        ks = r.sample(KEYS, n) if r.random() < .9 else [b'k%d' % i for i in range(25)]
        return node(t or r.choice(['map', 'marr']), k=ks, c=[self.value(depth, odd=odd) for _ in ks])

def main():
    c = Check('C24')
    big = 'Big' if c.thorough else ''
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(c.build, 'toml', ['checked', 'release'], extra_srcs=['il/io/toml/toml.cpp'])
        f2 = ex.submit(c.explore, 'TomlSaveGen', 'TomlSaveGen%s.cfg' % big, emit=True, timeout=3000)
        bins = f1.result(); graph = f2.result()
    rng = c.rng
    small = [o for es in graph.out for o, _ in es]
    c.extra['trees_enumerated'] = len(small)
    g = Gen(rng); scs = []
    for mode, b in bins.items():
        ops = [dict(op='trip', where=0, v=o['v']) for o in small if mode == 'checked' or c.thorough or rng.random() < .15]
        for k in KEYS:
            for v in (node('int', limbs('q', 7)), node('marr', k=[b'x'], c=[node('bool', [1])])):
                ops.append(dict(op='trip', where=0, v=node('marr', k=[k], c=[v])))
                ops.append(dict(op='trip', where=0, v=node('map', k=[b'p', k], c=[node('marr', k=[k], c=[v]), v])))
        for v in [node('str', s) for s in STRS] + [node('int', limbs('q', x)) for x in INTS] + [node('f64', f64(x)) for x in FLOATS]:
            ops.append(dict(op='trip', where=0, v=node('marr', k=[b'a', b'b', b'c'], c=[v, node('arr', c=[v, v]), node('arr', c=[node('map', k=[b'x'], c=[v])])])))
        for _ in range(900 if not c.thorough else 20000):
            ops.append(dict(op='trip', where=0, v=g.table(rng.randrange(4), t=rng.choice(['map', 'marr']))))
        for _ in range(150 if not c.thorough else 3000):
            ops.append(dict(op='trip', where=0, v=g.table(rng.randrange(3), odd=0.12, t=rng.choice(['map', 'marr']))))
        # large ones: many keys, long texts and arrays, deep tables, many elements
        one = lambda x: node('int', limbs('q', x))
        deep = one(5)
        for k in range(16): deep = node('marr', k=[b'x', b'd%d' % k], c=[one(k), deep]) if k % 2 else node('marr', k=[b'd%d' % k, b'y'], c=[deep, one(k)])
        nest = one(3)
        for k in range(12): nest = node('arr', c=[nest])
        for t in ('map', 'marr'):
            for v in (node(t, k=[b'k%d' % i for i in range(180)], c=[g.leaf(rng.choice(['bool', 'int', 'f64', 'str'])) for _ in range(180)]),
                      node(t, k=[b'a', b'b' * 300], c=[node('str', bytes(rng.choice(b'ab\xc3\xa9 #"') for _ in range(n))) for n in (900, 257)]),
                      node(t, k=[b'a', b'b'], c=[node('arr', c=[one(rng.randint(-2**40, 2**40)) for _ in range(130)]), node('af64', sum((g.double() for _ in range(60)), []))]),
                      node(t, k=[b'm'], c=[node('a2f64', [9, 13, 9, 13] + sum((g.double() for _ in range(117)), []))]),
                      node(t, k=[b'r'], c=[node('arr', c=[node('marr', k=[b'n'], c=[one(k)]) for k in range(70)])]),
                      node(t, k=[b'd', b'n'], c=[deep, nest])):
                ops.append(dict(op='trip', where=0, v=v))
        for w in (1, 2):
            for _ in range(20): ops.append(dict(op='trip', where=w, v=g.table(rng.randrange(3), t=rng.choice(['map', 'marr']))))
        rng.shuffle(ops)
        for k in range(0, len(ops), 8): scs.append(scenario(SCHEMA, mode, ops[k:k + 8], b))
    c.check_scenarios('TomlSaveTrace', 'TomlSaveTrace.cfg', scs, c.run_harness, chunk_events=2500)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
