"""C22: NumPy files (spec/Numpy.tla)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from script import scenario

SCHEMA = dict(save='s kind type api dims* cap* data*', load='s kind type api', raw='s b*', poke='s p v', cut='s n', app='s b*', rm='s', mkdir='s')
SIZE = dict(i4=4, i8=8, f8=8)
KT = [(k, t) for k in ('array', 'matrix') for t in ('i4', 'i8', 'f8')]

def prod(d):
    n = 1
    for x in d: n *= x
    return n

def data(rng, n, sz):
    sp = [0, 1, 127, 128, 255, 10, 13, 26]
    return [rng.choice(sp) if rng.random() < .5 else rng.randrange(256) for _ in range(n * sz)]

def save(rng, s, kind, type, reserve, dims=None):
    if dims is None:
        dims = [rng.choice([0, 1, 2, 3, 5, 10, 12])] if kind == 'array' else [rng.choice([0, 1, 2, 3, 5]), rng.choice([0, 1, 2, 3, 10])]
    cap = [d + rng.randrange(3 * reserve + 1) for d in dims] if reserve else []
    return dict(op='save', s=s, kind=kind, type=type, api=rng.choice([0, 1]) if s != 3 else 1, dims=dims, cap=cap, data=data(rng, prod(dims), SIZE[type]))

def load(rng, s, kind, type):
    return dict(op='load', s=s, kind=kind, type=type, api=rng.choice([1, 2]) if s != 3 else 1)

def header(descr="'<i4'", order='True', shape='(3,)', frame="{{'descr': {d}, 'fortran_order': {o}, 'shape': {s}, }}", end='\n', pad=None):
    h = frame.format(d=descr, o=order, s=shape)
    if pad is None: pad = -(10 + len(h) + 1) % 64
    return [ord(c) & 255 for c in h + ' ' * pad + end]

def image(h, payload, magic=(147, 78, 85, 77, 80, 89), version=(1, 0), hlen=None):
    n = len(h) if hlen is None else hlen
    return list(magic) + list(version) + [n & 255, n >> 8 & 255] + list(h) + list(payload)

DESCR = ["'<i4'", "'<f8'", "'>i4'", "'>f8'", "'<i8'", "'<f4'", "'|i4'", "'|u1'", "'=f8'", "'i4'", "''", "'<'", "'<i4", "<i4'", "'<i44'", "'<I4'", "[('a', '<i4')]", '"<i4"', "'<i4' ", "'<i4,'", "1"]
ORDER = ['True', 'False', 'true', '1', '', 'Truee', 'Tru', "'True'", 'None', 'False ']
SHAPE = ['(3,)', '(3, 2)', '(2, 3)', '(6,)', '()', '(3)', '(3, 2,)', '(3,2)', '( 3 , 2 )', '(,)', '(3,,2)', '(-3,)', '(3, -2)', '(-3, -2)', '(0,)', '(0, 4)', '(4, 0)',
         '(1, 6)', '(6, 1)', '(3, 2, 1)', '(3 2)', '(3', '3,)', '3', '[3, 2]', '(3.0,)', '(0x3,)', '(a,)', '(3L,)', '(4611686018427387904, 4)', '(4294967296, 4294967296)',
         '(9223372036854775807,)', '(99999999999999999999,)', '(18446744073709551619,)', '(2305843009213693952, 8)', '(4294967299,)', '(1000000,)', '(0, 99999999999999999999)',
         '(0, 4611686018427387904)', '(000003,)', '(3 ,)', '(3;)', '(3, 2', '(7,)', '(4, 2)', '(2000000000,)', '(3,) (6,)']
FRAME = ["{{'descr': {d}, 'fortran_order': {o}, 'shape': {s}, }}", "{{'shape': {s}, 'fortran_order': {o}, 'descr': {d}, }}", "{{'descr': {d}, 'fortran_order': {o}, 'shape': {s}}}",
         "{{'descr':{d},'fortran_order':{o},'shape':{s}}}", "{{'descr' : {d}, 'fortran_order' : {o}, 'shape' : {s}, }}", "{{'fortran_order': {o}, 'shape': {s}, }}",
         "{{'descr': {d}, 'shape': {s}, }}", "{{'descr': {d}, 'fortran_order': {o}, }}", "{{descr: {d}, fortran_order: {o}, shape: {s}, }}",
         "{{'xdescr': {d}, 'fortran_order': {o}, 'shape': {s}, }}", "{{'descr': {d}, 'fortran_orders': {o}, 'shape': {s}, }}", "{{'descr': {d}, 'fortran_order': {o}, 'shapes': {s}, }}",
         "", "{{}}", "'descr': {d}", "{{'descr': {d}, 'fortran_order': {o}, 'shape': {s}", "{{'descr", "{{'fortran_order': {o}, 'shape': {s}, 'descr': ", "{{'descr': {d}, 'shape': {s}, 'fortran_order': ",
         "{{'descr': {d}, 'fortran_order': {o}, 'shape': ", "{{'descr': {d}, 'fortran_order': {o}, 'shape'", "{{'descr': {d}, 'fortran_order': {o}, 'shape': {s}, }}\n\n", "{{'descr': {d}, 'fortran_order':\n {o}, 'shape': {s}, }}",
         "{{'descr': {d}, 'fortran_order': {o}, 'shape': {s}, }}\0", "\0{{'descr': {d}, 'fortran_order': {o}, 'shape': {s}, }}", "{{'descr': {d}, 'fortran_order': {o}, 'shape': {s}, 'extra': (1,), }}",
         "{{'extra': (1,), 'descr': {d}, 'fortran_order': {o}, 'shape': {s}, }}", "){{'descr': {d}, 'fortran_order': {o}, 'shape': {s}, }}("]

def crafted(rng):
    """images with deviations from the format, each with the payload of 6 elements unless said otherwise"""
    res = []
    def add(**kw):
        pl = kw.pop('payload', None); im = {k: kw.pop(k) for k in ('magic', 'version', 'hlen') if k in kw}
        t = 8 if '8' in kw.get('descr', "'<i4'") else 4
        res.append(image(header(**kw), data(rng, 6, t) if pl is None else pl, **im))
    for d in DESCR:
        for sh in ('(6,)', '(3, 2)'): add(descr=d, shape=sh)
    for o in ORDER:
        for sh in ('(6,)', '(3, 2)', '(1, 6)'): add(order=o, shape=sh)
    for sh in SHAPE:
        for d in ("'<i4'", "'<f8'", "'<i8'"): add(shape=sh, descr=d)
    for f in FRAME:
        for sh in ('(6,)', '(3, 2)'): add(frame=f, shape=sh)
    for m in ([0] * 6, (147, 78, 85, 77, 80, 88), (147, 110, 117, 109, 112, 121), (146, 78, 85, 77, 80, 89)): add(magic=m)
    for v in ((0, 0), (1, 1), (2, 0), (0, 1), (255, 255), (3, 0)): add(version=v)
    n = len(header())
    for hl in (0, 1, 2, 10, n - 64, n - 1, n + 1, n + 12, n + 24, n + 25, 255, 256, 32767, 32768, 65535): add(hlen=hl)
    for e in ('', ' ', 'x', '\r\n', '\n\n'): add(end=e)
    for p in (0, 1, 3, 64, 200, 5000): add(pad=p)
    for pl in range(0, 32): add(payload=data(rng, pl, 1), shape=rng.choice(['(6,)', '(3, 2)']))
    for _ in range(60):
        add(descr=rng.choice(DESCR), order=rng.choice(ORDER), shape=rng.choice(SHAPE), frame=rng.choice(FRAME[:6]), payload=data(rng, rng.randrange(60), 1))
    whole = image(header(), data(rng, 3, 4))
    for k in list(range(0, 12)) + rng.sample(range(12, len(whole)), 20): res.append(whole[:k])
    for _ in range(60):
        b = list(whole)
        for _ in range(rng.choice([1, 1, 2, 4])): b[rng.randrange(len(b))] = rng.choice([0, 10, 32, 39, 40, 41, 44, 48, 57, 60, 62, 255, rng.randrange(256)])
        res.append(b)
    return res

def hlen(rng): return rng.randrange

def concrete(rng, walk):
    """a history of the generator with its choices made; the length of the file is followed here"""
    ops = []; s = rng.choice([1, 2]); size = 0; hd = 128; meant = None
    for o in walk:
        k = o['op']
        if k == 'save':
            p = save(rng, s, o['kind'], o['type'], o['reserve']); ops.append(p); size = 128 + len(p['data'])
            meant = (o['kind'], o['type'])
            ops.append(load(rng, s, *meant))
        elif k == 'load': ops.append(load(rng, s, o['kind'], o['type']))
        elif k == 'cut':
            n = rng.randrange(hd) if o['where'] == 'header' or size == hd else rng.randrange(hd, size)
            ops.append(dict(op='cut', s=s, n=n)); size = n
        elif k == 'poke':
            p = rng.randrange(hd) if o['where'] == 'header' or size == hd else rng.randrange(hd, size)
            ops.append(dict(op='poke', s=s, p=p + 1, v=rng.choice([0, 10, 32, 39, 40, 41, 44, 48, 49, 50, 57, 60, 62, 255])))
        elif k == 'app': b = data(rng, rng.randrange(1, 9), 1); ops.append(dict(op='app', s=s, b=b)); size += len(b)
        else: ops.append(dict(op=k, s=s)); size = 0
        if k in ('cut', 'poke', 'app') and meant: ops.append(load(rng, s, *meant))
    return ops

def main():
    c = Check('C22')
    c.known_len = None
    with ThreadPoolExecutor(8) as ex:
        f1 = ex.submit(c.build, 'numpy', ['checked', 'release'], extra_srcs=['il/io/numpy/numpy.cpp'])
        f2 = ex.submit(c.explore, 'NumpyModel', 'NumpyModelBig.cfg' if c.thorough else 'NumpyModel.cfg')
        f3 = ex.submit(c.explore, 'NumpyGen', 'NumpyGen.cfg', emit=True)
        bins = f1.result(); f2.result(); graph = f3.result()
    rng = c.rng
    scs = []
    for mode, b in bins.items():
        def add(ops): scs.append(scenario(SCHEMA, mode, ops, b))
        for _ in range(2 if not c.thorough else 30):
            for w in graph.cover(rng, 40): add(concrete(rng, w))
        for im in crafted(rng):
            add([dict(op='raw', s=1, b=im)] + [load(rng, 1, k, t) for k, t in KT])
        # shapes and capacities, every pair of small dimensions
        for k, t in KT:
            for d in ([[n] for n in range(0, 14)] if k == 'array' else [[n, m] for n in range(0, 5) for m in range(0, 5)]) + ([[100], [999], [1000]] if k == 'array' else [[11, 13], [1, 120], [120, 1], [0, 1000]]):
                for r in (0, 1):
                    add([save(rng, 1, k, t, r, d)] + [load(rng, 1, k2, t2) for k2, t2 in KT])
            for s in (3, 4, 5):
                for d in ([3], [600]) if k == 'array' else ([2, 2], [30, 30]):
                    add([save(rng, s, k, t, 0, d), load(rng, s, k, t)] * 3)
            add([save(rng, 1, k, t, 0), load(rng, 1, 'csr', 'f8'), load(rng, 2, 'csr', 'f8'), load(rng, 4, 'csr', 'f8'), load(rng, 1, k, t)])
            # one place after another, over each other
            add([o for _ in range(8) for s in (rng.choice([1, 2]),) for k2, t2 in (rng.choice(KT),) for o in (save(rng, s, k2, t2, rng.choice([0, 1])), load(rng, s, k2, t2), load(rng, 3 - s, k, t))])
            add([dict(op='mkdir', s=1), load(rng, 1, k, t), save(rng, 1, k, t, 0), load(rng, 1, k, t), dict(op='rm', s=1), load(rng, 1, k, t), save(rng, 1, k, t, 1), load(rng, 1, k, t)])
    c.check_scenarios('NumpyTrace', 'NumpyTrace.cfg', scs, c.run_harness, chunk_events=1500)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
