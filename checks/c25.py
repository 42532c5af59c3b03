"""C25: products of dense matrices and vectors (spec/Dense.tla)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *

def win(w): return [w['o']] + [str(w[k]) for k in ('off', 'n0', 'n1', 's')] + [str(len(w['e']))] + [str(x) for x in w['e']]
def line(o):
    t = [o['call'], o['ty'], str(o['form']), o['opa'], o['opb']] + [str(x) for x in o['alpha'] + o['beta']] + [str(o['nan'])]
    t += [str(len(o['dims']))] + [str(x) for x in o['dims']]
    for k in 'ABC': t += win(o[k])
    return ' '.join(t)
EMPTY = dict(o='D', off=0, n0=0, n1=0, s=1, e=[])
CALLS = ['gemm', 'gemv', 'axpy', 'axpby', 'madd', 'vdot', 'cvdot', 'cmv', 'cmm']
DIMS = [(1, 1, 1, 1), (2, 2, 2, 2), (3, 3, 3, 3), (2, 3, 4, 5), (5, 4, 3, 2), (3, 1, 2, 4), (1, 4, 2, 3), (4, 2, 1, 3)]
TYPES = ['f32', 'f64', 'c32', 'c64']

class Gen:
    def __init__(self, r): self.r = r
    def num(self, ty, b=5): return [self.r.randint(-b, b), self.r.randint(-b, b) if ty[0] == 'c' else 0]
    def scal(self, ty): return self.num(ty, 3) if self.r.random() < .6 else [self.r.choice([0, 0, 1, 1, -1]), 0]
    def mat(self, ty, n0, n1, order='D', pads=True, tight=False):
        r = self.r; major, minor = (n1, n0) if order == 'D' else (n0, n1)
        s = minor + (r.choice([0, 0, 1, 2, 5]) if pads else 0)
        if not s and not tight: s = 1
        off = r.choice([0, 0, 1, 3]) if pads else 0
        n = off + (s * major if not tight else n0 * n1) + (r.choice([0, 1, 2]) if pads else 0)
        return dict(o=order, off=off, n0=n0, n1=n1, s=s, e=[x for _ in range(n) for x in self.num(ty)])
    def op(self, **k):
        d = dict(form=0, opa='N', opb='N', alpha=[1, 0], beta=[0, 0], nan=0, dims=[], A=EMPTY, B=EMPTY, C=EMPTY)
        d.update(k); d.setdefault('op', d['call']); return d
    def dim(self, big): return self.r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7]) if not big else self.r.randint(8, 28) if big == 1 else self.r.choice([40, 63, 64, 65, 90, 130])
    def tr(self, op, m, n): return (m, n) if op == 'N' else (n, m)
    def any(self, bad=False, big=False, call=None):
        r = self.r; ty = r.choice(TYPES); call = call or r.choice(CALLS); D = lambda: self.dim(big)
        order = r.choice('DC'); m, n, k = D(), D(), D(); w = [m, k, k, n, m, n]      # rows and columns of op(A), op(B), C
        if call in ('gemv', 'cmv'): w[3] = w[5] = 1
        elif call in ('axpy', 'axpby'): w = [m, 1, 0, 0, m, 1]
        elif call == 'madd': w = [m, n, 0, 0, m, n]
        elif call in ('vdot', 'cvdot'): w = [1, k, k, 1, 0, 0]
        if bad:
            free = [i for i in range(6) if call in ('gemm', 'madd') or (call == 'cmm' and i < 4) or (call in ('gemv', 'cmv') and i in ([0, 1, 2, 4] if call == 'gemv' else [1, 2])) or (call in ('axpy', 'axpby') and i in (0, 4)) or (call in ('vdot', 'cvdot') and i in (1, 2))]
            if call == 'madd': free = [0, 1, 4, 5]
            i = r.choice(free); w[i] = max(0, w[i] + r.choice([-1, 1, 1, 2]))
        scal = dict(alpha=self.scal(ty), beta=self.scal(ty))
        if call in ('axpy', 'axpby'):
            return self.op(call=call, ty=ty, A=self.mat(ty, w[0], 1), C=self.mat(ty, w[4], 1), **scal)
        if call == 'madd':
            ty = r.choice(['f64', 'c64']); scal = dict(alpha=self.scal(ty), beta=self.scal(ty)); return self.op(call=call, ty=ty, A=self.mat(ty, w[0], w[1]), C=self.mat(ty, w[4], w[5]), **scal)
        if call in ('vdot', 'cvdot'):
            form = r.choice([1, 2, 3]) if ty[0] == 'c' else 1
            opa = 'S' if form == 2 and r.random() < .7 else 'N'; opb = 'S' if form == 3 and r.random() < .7 else 'N'
            # the vector is the row x^T (opa N) or x^*: kept as a column, seen through T or S by the specification
            return self.op(call=call, op='vdot', ty=ty, form=form, opa=opa, opb=opb, A=self.mat(ty, w[1], 1), B=self.mat(ty, w[2], 1))
        if call == 'cmv':
            return self.op(call=call, op='dot', ty='f64', A=self.mat('f64', w[0], w[1], order), B=self.mat('f64', w[2], 1))
        if call == 'cmm':
            ty, order = r.choice([('f32', 'D'), ('f64', 'D'), ('f64', 'C')])
            return self.op(call=call, op='dot', ty=ty, A=self.mat(ty, w[0], w[1], order), B=self.mat(ty, w[2], w[3], order))
        opa, opb = r.choice('NTS'), r.choice('NTS')
        form = r.choice([0, 0, 0, 1, 2, 3])
        if call == 'gemv': form, opb = min(form, 1), 'N'
        if form in (1, 3): opa = 'N'
        if form in (1, 2): opb = 'N'
        o = dict(form=form, opa=opa, opb=opb, nan=int(r.random() < .5 and scal['beta'] == [0, 0]), **scal)
        return self.op(call=call, ty=ty, A=self.mat(ty, *self.tr(opa, w[0], w[1]), order=order), B=self.mat(ty, *self.tr(opb, w[2], w[3]), order=order if call == 'gemm' else 'D'), C=self.mat(ty, w[4], w[5], order if call == 'gemm' else 'D'), **o)
    def static(self):
        r = self.r; n0, n, n1, n2 = dims = r.choice(DIMS); ty = r.choice(['f32', 'f64', 'int', 'c64'])
        call = r.choice(['svd', 'smv', 'smvT', 'svm', 'smm', 'smmT', 'sm3', 's3v', 's4v', 'sbmv', 'sb3v', 'sb4v', 'sb3a', 'cross2', 'cross3'])
        M = lambda a, b: self.mat(ty, a, b, pads=False, tight=True)
        k = dict(call=call, ty=ty, dims=list(dims))
        if call == 'svd': return self.op(op='dot', opa='T', A=M(n, 1), B=M(n, 1), **k)
        if call == 'smv': return self.op(op='dot', A=M(n0, n), B=M(n, 1), **k)
        if call == 'smvT': return self.op(op='dot', opa='T', A=M(n, n0), B=M(n, 1), **k)
        if call == 'svm': return self.op(op='dot', opa='T', A=M(n, 1), B=M(n, n1), **k)
        if call == 'smm': return self.op(op='dot', A=M(n0, n), B=M(n, n1), **k)
        if call == 'smmT': return self.op(op='dot', opa='T', A=M(n, n0), B=M(n, n1), **k)
        if call == 'sm3': return self.op(op='dot', A=M(n0, n), B=M(n, n1 * n2), **k)
        if call == 's3v': return self.op(op='dot', A=M(n0 * n1, n), B=M(n, 1), **k)
        if call == 's4v': return self.op(op='dot', A=M(n0 * n1 * n2, n), B=M(n, 1), **k)
        if call == 'sb3a': return self.op(op='axpby', A=M(n0 * n1 * n2, 1), C=M(n0 * n1 * n2, 1), alpha=self.scal(ty), beta=self.scal(ty), **k)
        if call[:2] == 'sb':
            m = {'sbmv': n0, 'sb3v': n0 * n1, 'sb4v': n0 * n1 * n2}[call]
            return self.op(op='gemv', A=M(m, n), B=M(n, 1), C=M(m, 1), alpha=self.scal('f64'), beta=self.scal('f64'), **k)
        if call == 'cross2': return self.op(A=M(2, 1), **k)
        return self.op(A=M(3, 1), B=M(3, 1), **k)

def main():
    c = Check('C25')
    big = 'Big' if c.thorough else ''
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(c.build, 'dense', ['checked', 'release'], mkl=True)
        f2 = ex.submit(c.explore, 'DenseGen', 'DenseGen%s.cfg' % big, emit=True, timeout=3000)
        bins = f1.result(); graph = f2.result()
    r = c.rng; g = Gen(r); scs = []
    small = [o for es in graph.out for o, _ in es]
    c.extra['products_enumerated'] = len(small)
    N = 12 if c.thorough else 1
    for mode, b in bins.items():
        ops = []
        for o in (small if not c.thorough else r.sample(small, min(len(small), 60000))):
            if not c.thorough and r.random() > .2: continue
            ty = r.choice(TYPES); o = dict(o, call=o['op'], ty=ty, form=0, nan=0, dims=[])
            if ty[0] == 'f':    # real numbers: the imaginary parts are dropped
                o['alpha'] = [o['alpha'][0], 0]; o['beta'] = [o['beta'][0], 0]
                for k in 'ABC': o[k] = dict(o[k], e=[x if i % 2 == 0 else 0 for i, x in enumerate(o[k]['e'])])
            if o['opa'] == 'N' and o['opb'] == 'N': o['form'] = r.choice([0, 1])
            elif o['op'] == 'gemm' and o['opb'] == 'N': o['form'] = r.choice([0, 2])
            elif o['op'] == 'gemm' and o['opa'] == 'N': o['form'] = r.choice([0, 3])
            ops.append(o)
        for _ in range(1500 * N): ops.append(g.any())
        for call in CALLS:
            for _ in range(60 * N): ops.append(g.any(call=call))
        for _ in range(40 * N): ops.append(g.any(big=True))
        for _ in range(12 * N): ops.append(g.any(big=2, call=r.choice(['gemv', 'axpy', 'axpby', 'vdot', 'cvdot', 'madd', 'cmv'])))
        for _ in range(900 * N): ops.append(g.static())
        if mode == 'checked':
            for _ in range(500 * N): ops.append(g.any(bad=True))
        r.shuffle(ops)
        for k in range(0, len(ops), 40):
            scs.append(dict(header=mode, bin=b, ops=[(line(o), o) for o in ops[k:k + 40]]))
    c.check_scenarios('DenseTrace', 'DenseTrace.cfg', scs, c.run_harness, chunk_events=1500)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
