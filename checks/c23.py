"""C23: the TOML parser (spec/Toml.tla)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from script import scenario
import tomlgen

SCHEMA = dict(doc='b*', missing='')

def docs_of(graph):
    return [o['b'] for es in graph.out for o, _ in es]

def large_docs(r):
    """documents far beyond a line: many keys, long texts, long arrays, deep tables, many elements of an array of tables"""
    name = lambda k: 'k%d' % k
    d = ['\n'.join('%s = %s' % (name(k), r.choice(['%d' % k, 'true', '%d.5' % k, '"v%d"' % k])) for k in range(170)) + '\n',
         'a = "' + ''.join(r.choice('abc \xe9\u65e5#[]=') for _ in range(700)) + '"\nb = 1\n',
         "a = '" + 'x' * r.choice([255, 256, 257, 1023, 1100]) + "' # " + 'c' * 300 + '\n' + 'y' * 130 + ' = 2\n',
         'a = [' + ', '.join(str(r.randint(-10**9, 10**9)) for _ in range(140)) + ']\n',
         'a = [\n' + ''.join('  %d.25,%s\n' % (k, r.choice(['', ' # c', '\n'])) for k in range(90)) + ']\nb = 3\n',
         'a = [' + ', '.join('"%s"' % ('s' * k) for k in range(40)) + ']\n',
         '[' + '.'.join(name(k) for k in range(18)) + ']\nx = 1\n[' + '.'.join(name(k) for k in range(9)) + '.z]\ny = 2\n',
         ''.join('[[t]]\nn = %d\n' % k + ('[t.u]\nv = "%d"\n' % k if k % 3 else '') for k in range(50)),
         'a = ' + '[' * 14 + '1' + ']' * 14 + '\n',
         'a = ' + ''.join('{b = ' for _ in range(12)) + '1' + '}' * 12 + '\n',
         'a = {' + ', '.join('%s = %d' % (name(k), k) for k in range(90)) + '}\n',
         ''.join('[s%d]\nx = %d\n\n# c\n' % (k, k) for k in range(60)) + '[s7]\n' * r.randint(0, 1)]
    return [list(x.encode('utf-8')) for x in d]

def main():
    c = Check('C23')
    big = 'Big' if c.thorough else ''
    with ThreadPoolExecutor(8) as ex:
        f1 = ex.submit(c.build, 'toml', ['checked', 'release'], extra_srcs=['il/io/toml/toml.cpp'])
        fs = [ex.submit(c.explore, 'TomlGen', 'TomlGen_%s%s.cfg' % (v, big), emit=True, timeout=3000) for v in ('lines', 'header', 'value')]
        bins = f1.result(); graphs = [f.result() for f in fs]
    rng = c.rng
    small = sorted({tuple(b) for g in graphs for b in docs_of(g)})
    c.extra['documents_enumerated'] = len(small)
    g = tomlgen.Gen(rng)
    scs = []
    for mode, b in bins.items():
        docs = [list(x) for x in small]
        for v in tomlgen.VALUES:
            e = v.encode('utf-8')
            for t in (b'a = %s', b'a=%s\n', b'a = %s # c\r\nb = 1\n', b'a = [%s, %s]\n', b'a = {b = %s, c = [%s]}\n'):
                docs.append(list(t % ((e,) * t.count(b'%s'))))
        docs += [list(x.encode('utf-8')) for x in tomlgen.DOCS]
        for _ in range(700 if not c.thorough else 20000):
            d = g.doc(); docs.append(d)
            for _ in range(2): docs.append(g.damage(d))
        docs += large_docs(rng) + [x for d in large_docs(rng) for x in (g.damage(d),)]
        rng.shuffle(docs)
        ops = [dict(op='doc', b=list(d)) for d in docs] + [dict(op='missing')]
        for k in range(0, len(ops), 8): scs.append(scenario(SCHEMA, mode, ops[k:k + 8], b))
    c.check_scenarios('TomlTrace', 'TomlTrace.cfg', scs, c.run_harness, chunk_events=4000)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
