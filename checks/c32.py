"""C32: colour images in PPM files (spec/Ppm.tla)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *

def load(b): return ('load %d %s' % (len(b), ' '.join(map(str, b))), dict(op='load', doc=list(b)))

def image(r, thorough):
    big = r.random() < .1
    w, h = (r.randint(1, 60 if big else 9), r.randint(1, 60 if big else 9))
    if r.random() < .1: w, h = r.choice([(1, 1), (1, r.randint(1, 99)), (r.randint(1, 99), 1), (255, 2), (10, 10)])
    b = b'P6\n'
    for _ in range(r.choice([0, 0, 1, 1, 2, 5])):
        b += b'#' + bytes(r.choice([32, 35, 49, 50, 65, 97, 200, 255, 13, 9]) for _ in range(r.choice([0, 1, 5, 20, 200]))) + b'\n'
    gap = lambda: bytes(r.choice([32, 32, 10, 9, 13]) for _ in range(r.choice([1, 1, 1, 2, 6])))
    num = lambda n: (b'0' * r.choice([0, 0, 0, 0, 1, 3])) + str(n).encode()
    b += (gap() if r.random() < .2 else b'') + num(w) + gap() + num(h) + gap() + num(255) + b'\n'
    kind = r.choice(['any', 'text', 'same'])
    px = bytes(r.randrange(256) if kind == 'any' else r.choice([10, 13, 26, 0, 255, 35, 48, 32]) if kind == 'text' else 77 for _ in range(3 * w * h))
    return b, px

def main():
    c = Check('C32')
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(c.build, 'ppm', ['checked', 'release'])
        f2 = ex.submit(c.explore, 'PpmGen', 'PpmGen.cfg', emit=True)
        bins = f1.result(); g = f2.result()
    r = c.rng; ops = []
    for st in g.out:
        for o, _ in st:
            d = bytes(o['doc']); ops.append(d)
            if o['cut']: ops += [d[:n] for n in (range(len(d)) if c.thorough else r.sample(range(len(d)), 2))] + ([d + bytes([10, 80])] if r.random() < .2 else [])
    for _ in range(800 * (12 if c.thorough else 1)):
        b, px = image(r, c.thorough); d = b + px; k = r.random()
        if k < .45: ops.append(d)
        elif k < .55: ops.append(d + bytes(r.randrange(256) for _ in range(r.choice([1, 3, 40]))))
        elif k < .75: ops.append(d[:r.choice([r.randrange(len(d)), len(b), len(d) - 1, len(d) - 3 if len(d) > 3 else 0])])
        else:
            x = bytearray(d)
            for _ in range(r.choice([1, 1, 2])):
                q = r.randrange(len(b)); z = r.random()
                if z < .4: x[q] = r.choice([r.randrange(256), 10, 32, 48, 57, 45, 43, 35])
                elif z < .7: del x[q]
                else: x.insert(q, r.choice([r.randrange(256), 10, 32, 48, 57, 45, 35]))
            ops.append(bytes(x))
    r.shuffle(ops); scs = []
    for n in range(0, len(ops), 40):
        o = [load(d) for d in ops[n:n + 40]]; o.insert(r.randrange(len(o)), ('missing', dict(op='missing')))
        for mode in (bins if c.thorough else [('checked', 'release')[n // 40 % 2]]):
            scs.append(dict(header=mode, bin=bins[mode], ops=o))
    c.check_scenarios('PpmTrace', 'PpmTrace.cfg', scs, c.run_harness, chunk_events=600)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
