"""C26: factorisations, solvers and norms of dense matrices (spec/Factor.tla)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *

def win(w): return [w['o']] + [str(w[k]) for k in ('off', 'n0', 'n1', 's')] + [str(len(w['e']))] + [str(x) for x in w['e']]
def line(o):
    t = [o['op'], o['ty'], o['opa'], o['type'], o['side'], str(int(o['piv'])), str(o['form']), str(o['D'][0]), str(o['D'][1]), str(o['scl']), str(o['np']), o['of'], o['kind'], str(o['left']), str(int(o['cond']))]
    for k in 'Pw': t += [str(len(o[k]))] + [str(x) for x in o[k]]
    for k in 'ABC': t += win(o[k])
    return ' '.join(t)
EMPTY = dict(o='D', off=0, n0=0, n1=0, s=1, e=[])
# complex integers as pairs
def add(x, y): return (x[0] + y[0], x[1] + y[1])
def mul(x, y): return (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])
def det(m):
    if not m: return (1, 0)
    t = (0, 0)
    for c, x in enumerate(m[0]):
        if x != (0, 0):
            d = mul(x, det([r[:c] + r[c + 1:] for r in m[1:]])); t = add(t, d if c % 2 == 0 else (-d[0], -d[1]))
    return t
def mm(a, b): return [[tuple(map(sum, zip((0, 0), *[mul(a[i][k], b[k][j]) for k in range(len(b))]))) for j in range(len(b[0]) if b else 0)] for i in range(len(a))]

class Gen:
    def __init__(self, r): self.r = r
    def num(self, cx, b=4): return (self.r.randint(-b, b), self.r.randint(-b, b) if cx else 0)
    def rand(self, m, n, cx=False, b=4): return [[self.num(cx, b) for _ in range(n)] for _ in range(m)]
    def win(self, m, n0=None, n1=None, order='D', cx=False, pads=True, garb=8):
        """the matrix in a buffer, with other numbers around"""
        r = self.r; n0 = len(m) if n0 is None else n0; n1 = (len(m[0]) if m else 0) if n1 is None else n1
        major, minor = (n1, n0) if order == 'D' else (n0, n1)
        s = max(1, minor + (r.choice([0, 0, 1, 2, 5]) if pads else 0)); off = r.choice([0, 0, 1, 3]) if pads else 0
        c = [self.num(cx, garb) for _ in range(off + s * major + (r.choice([0, 1, 2]) if pads else 0))]
        for i in range(n0):
            for j in range(n1): c[off + (j * s + i if order == 'D' else i * s + j)] = m[i][j]
        return dict(o=order, off=off, n0=n0, n1=n1, s=s, e=[x for p in c for x in p])
    def op(self, op, **k):
        d = dict(op=op, ty='f64', opa='N', type='L', side='L', piv=False, form=0, D=(1, 0), scl=0, np=0, of='full', kind='L1', left=0, cond=False, P=[], w=[], sing=False, A=EMPTY, B=EMPTY, C=EMPTY)
        d.update(k); d['D'] = list(d['D']); d['P0'] = d['P']; return d
    def pivots(self, n): return [self.r.randint(k, n) for k in range(1, n + 1)]
    def size(self): return self.r.choice([1, 2, 2, 3, 3, 3, 4, 4, 5])
    def unit(self, cx): return self.r.choice([(1, 0), (-1, 0)] + ([(0, 1), (0, -1)] if cx else []))
    def exact(self, m, n, cx=False, sing=False):
        """P L U with L in quarters below one, U with powers of two on the diagonal: eliminated without rounding"""
        r = self.r; k = min(m, n)
        L = [[(1, 0) if i == j else ((0, 0)) for j in range(k)] for i in range(m)]
        for i in range(m):
            for j in range(min(i, k)):
                re = r.randint(-3, 3); L[i][j] = (re, r.randint(-(3 - abs(re)), 3 - abs(re)) if cx else 0)
        L4 = [[(4, 0) if i == j else L[i][j] for j in range(k)] for i in range(m)]
        zero = r.randrange(k) if sing else -1
        U = [[(0, 0)] * n for _ in range(k)]
        for i in range(k):
            u = self.unit(cx); p = r.choice([1, 1, 2, 4]); U[i][i] = (0, 0) if i == zero else (u[0] * p, u[1] * p)
            for j in range(i + 1, n): U[i][j] = self.num(cx, 2)
        A = mm(L4, U)                               # 4 L U = L (4 U): whole
        r.shuffle(A); return A
    def rhs(self, n, k, cx=False): return self.rand(n, k, cx, 5)
    def lu(self, m=None, n=None, kind=None, A=None):
        r = self.r; kind = kind or r.choice(['exact', 'exact', 'sing', 'any', 'rect'])
        n = n or self.size(); m = n
        if A is not None: kind = 'given'; n = m = len(A)
        elif kind == 'rect':
            m = r.choice([1, 2, 3, 4, 5, 6]); A = self.exact(m, n, sing=r.random() < .15)
        elif kind in ('exact', 'sing'): A = self.exact(n, n, sing=kind == 'sing')
        else: A = self.rand(n, n, b=r.choice([2, 4, 6]))
        d = det(A) if m == n else (1, 0)
        if kind in ('any', 'given') and d == (0, 0): return None
        k = min(m, n); sing = False
        if m != n:
            # a zero pivot: the leading columns of an exact matrix are dependent
            import itertools
            sing = all(det([[A[i][j] for j in range(k)] for i in rows]) == (0, 0) for rows in itertools.combinations(range(m), k)) if m >= n else False
            if m < n: sing = any(True for _ in [0] if self.zero_pivot(A, m))
        nr = r.choice([1, 1, 2, 3, 5])
        return self.op('lu', form=r.choice([0, 1]), D=d, scl=4 if kind in ('exact', 'sing', 'rect') else 0, cond=m == n and abs(d[0]) <= 2000, sing=sing, A=self.win(A, m, n), B=self.win(self.rhs(m, nr), m, nr))
    def zero_pivot(self, A, m): return det([row[:m] for row in A]) == (0, 0)
    def lud(self, bad=False):
        r = self.r; cx = r.random() < .5; n = self.size()
        kind = r.choice(['sing', 'size', 'rect']) if bad else 'ok'
        m = n + 1 if kind == 'rect' else n
        A = self.exact(m, n, cx, sing=kind == 'sing')
        return self.op('lud', ty='c64' if cx else 'f64', scl=4, np=n + (1 if kind == 'size' else 0), A=self.win(A, m, n, cx=cx))
    def lus(self, A=None):
        r = self.r; cx = A is None and r.random() < .5; kind = r.choice(['exact', 'any', 'any', 'sing']) if A is None else 'given'
        if A is None:
            n = r.choice([1, 2, 3, 4]); A = self.rand(n, n, cx) if kind == 'any' else self.exact(n, n, cx, sing=kind == 'sing')
        d = det(A)
        if d == (0, 0) and kind in ('any', 'given'): return None
        if abs(d[0]) + abs(d[1]) > 20000: return None
        return self.op('lus', ty='c64' if cx else 'f64', D=d, A=self.win(A, cx=cx, pads=False))
    def linsolve(self, bad=False, A=None):
        r = self.r; of = r.choice(['full', 'full', 'band', 'tri']); n = self.size(); form = r.choice([0, 1])
        if A is not None: of = 'full'; n = len(A)
        if of == 'full':
            given = A is not None; exact = not given and r.random() < .5; sing = exact and r.random() < .3
            if not given: A = self.exact(n, n, sing=sing) if exact else self.rand(n, n)
            d = det(A)
            if d == (0, 0) and not exact: return None
            k = dict(A=self.win(A, order=r.choice('DC')))
            if bad and r.random() < .5: A = self.rand(n, n + 1); k = dict(A=self.win(A, order=r.choice('DC')))
        else:
            left, right = (1, 1) if of == 'tri' else (r.choice([0, 1, 1, 2, 3]), r.choice([0, 1, 1, 2]))
            if of == 'band' and r.random() < .4: right = left
            M = [[(0, 0)] * n for _ in range(n)]; st = self.rand(n, left + right + 1, b=8)
            if r.random() < .3:                     # a zero pivot without rounding: a first column or last row of zeros
                z = r.randrange(n)
                for i in range(n):
                    for k in range(-left, right + 1):
                        if i + k == z: st[i][k + left] = (0, 0)
            for i in range(n):
                for k in range(-left, right + 1):
                    if 0 <= i + k < n: M[i][i + k] = st[i][k + left]
            d = det(M)
            if d == (0, 0) and not any(all(M[i][z] == (0, 0) for i in range(n)) for z in range(n)): return None
            k = dict(A=self.win(st, n, left + right + 1, order='C'), left=left)
        if bad: return self.op('linsolve', of=of, form=form, D=d, B=self.win(self.rhs(n + 1, 1)), **k)
        return self.op('linsolve', of=of, form=form, D=d, B=self.win(self.rhs(n, 1)), **k)
    def chol(self, bad=False):
        r = self.r; n = self.size()
        if bad: return self.op('chol', A=self.win(self.rand(n, n + 1)), B=self.win(self.rhs(n, 1)))
        L = [[(r.choice([1, 1, 2, -1]) if i == j else r.randint(-2, 2) if j < i else 0, 0) for j in range(n)] for i in range(n)]
        S = [1] * n
        if r.random() < .4: S[r.randrange(n)] = r.choice([0, -1, -2])
        A = [[(sum(L[i][k][0] * L[j][k][0] * S[k] for k in range(n)), 0) for j in range(n)] for i in range(n)]
        d = det(A)
        return self.op('chol', form=r.choice([0, 1]), D=d, cond=abs(d[0]) <= 500, A=self.win(A), B=self.win(self.rhs(n, 1)))
    def tri(self, bad=False, call=None):
        r = self.r; cx = r.random() < .5; ty = 'c64' if cx else 'f64'; n = self.size(); nr = r.choice([0, 1, 1, 2, 3, 6])
        large = not bad and r.random() < .12
        if large: n = r.choice([8, 9, 15, 16, 17, 24]); nr = r.choice([1, 2, 9])
        form = r.choice(['swap', 'L', 'U', 'PL', 'PLv', 'Uv', 'UT', 'R'])
        type = 'L' if form in ('L', 'PL', 'PLv') else 'U'
        T = self.rand(n, n, cx, 3); D = (1, 0)
        for i in range(n):
            if type == 'U':
                x = self.num(cx, 3); x = (1, 0) if x == (0, 0) else x; T[i][i] = x; D = mul(D, x)
        if large and form != 'swap':                # two elements of modulus one per row of the triangle: the solution stays small
            D = (1, 0)
            for i in range(n):
                side = range(i) if type == 'L' else range(i + 1, n)
                for j in side: T[i][j] = (0, 0)
                if side: T[i][r.choice(side)] = self.unit(cx)
                if type == 'U': T[i][i] = self.unit(cx)
        if form == 'swap': D = (1, 0)
        an = [n, n]; cn = [nr, n] if form == 'R' else [n, 1 if form in ('PLv', 'Uv') else nr]; P = self.pivots(n) if form in ('swap', 'PL', 'PLv') else []
        if bad:
            k = r.choice(['A', 'C', 'P'])
            if k == 'P' and P: P = self.pivots(n + 1)
            elif k == 'A' and form != 'swap': an[r.randrange(2)] += 1
            else: cn[1 if form == 'R' else 0] += 1
        A = self.win(self.rand(an[0], an[1], cx, 3) if bad else T, an[0], an[1], cx=cx)
        return self.op('swap' if form == 'swap' else 'solve', ty=ty, opa='T' if form == 'UT' else 'N', type=type, side='R' if form == 'R' else 'L', piv=form in ('PL', 'PLv'), form=int(form in ('PLv', 'Uv')),
                       D=D, P=P, A=A, C=self.win(self.rand(cn[0], cn[1], cx), cn[0], cn[1], cx=cx))
    def qr(self, bad=False):
        r = self.r; cx = r.random() < .5; m, n = self.size(), self.size()
        A = self.rand(m, n, cx)
        if r.random() < .2: A[r.randrange(m)] = [(0, 0)] * n
        return self.op('qr', ty='c64' if cx else 'f64', form=int(r.random() < .1), np=min(m, n) + (r.choice([-1, 1]) if bad else 0), A=self.win(A, m, n, cx=cx))
    def eig(self, bad=False, A=None):
        n = self.r.choice([1, 2, 3, 4])
        A = A or self.rand(n, n + (1 if bad else 0), b=3)
        return self.op('eig', form=self.r.choice([0, 1]), A=self.win(A))
    def sing(self, A=None):
        cx = A is None and self.r.random() < .5; n = self.r.choice([1, 2, 3, 4])
        A = A or self.rand(n, n, cx, 2 if cx else 3)
        return self.op('sing', ty='c64' if cx else 'f64', A=self.win(A, cx=cx, pads=False))
    def norm(self, bad=False):
        r = self.r; of = r.choice(['vec', 'vec', 'mat', 'tri']); kind = r.choice(['L1', 'L2', 'Linf'])
        if of == 'vec':
            n = r.choice([0, 1, 2, 3, 4, 7, 9, 33, 100]); form = r.choice([0, 1, 2, 2])
            if form == 1: n = r.choice([1, 2, 3, 4, 7])
            w = [r.choice([1, 2, 4]) for _ in range(n)] if form == 2 else [1] * n; np = n; v = self.rand(n, 1, b=9)
            if bad and form == 2: w = w + [1]; np = n + 1
            return self.op('norm', of=of, kind=kind, form=form, scl=4 if form == 2 else 1, np=np, w=w, A=self.win(v, n, 1))
        if of == 'mat':
            if not bad: kind = r.choice(['L1', 'Linf'])
            m, n = r.choice([0, 1, 2, 3, 5, 8, 19]), r.choice([0, 1, 2, 3, 5, 8, 21])
            return self.op('norm', of=of, kind=kind, form=r.choice([0, 0, 1]), A=self.win(self.rand(m, n, b=9), m, n))
        if not bad: kind = 'Linf'
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 6, 18, 40])
        return self.op('norm', of=of, kind=kind, A=self.win(self.rand(n, 3, b=9), n, 3))
    def any(self, bad=False):
        k = self.r.choice(['lu', 'lu', 'lu', 'lud', 'lus', 'lus', 'linsolve', 'linsolve', 'linsolve', 'chol', 'chol', 'tri', 'tri', 'tri', 'tri', 'qr', 'eig', 'sing', 'norm', 'norm', 'norm'])
        if bad and k in ('lu', 'lus', 'sing'): return None
        return getattr(self, k)(bad=True) if bad else getattr(self, k)()

def main():
    c = Check('C26')
    big = 'Big' if c.thorough else ''
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(c.build, 'factor', ['checked', 'release'], mkl=True)
        f2 = ex.submit(c.explore, 'FactorGen', 'FactorGen%s.cfg' % big, emit=True, timeout=3000)
        bins = f1.result(); graph = f2.result()
    r = c.rng; g = Gen(r); scs = []
    small = [o for es in graph.out for o, _ in es]
    c.extra['matrices_enumerated'] = len(small)
    N = 10 if c.thorough else 1
    for mode, b in bins.items():
        ops = []
        for w in small:
            n = w['n0']; e = w['e']; A = [[(e[2 * (j * n + i)], 0) for j in range(n)] for i in range(n)]
            if not c.thorough and r.random() > .5: continue
            ops += [x for x in (r.choice([g.lu, g.lus, g.linsolve, g.linsolve, g.eig, g.sing])(A=A),) if x]
        for _ in range(2200 * N): ops += [x for x in (g.any(),) if x]
        if mode == 'checked':
            for _ in range(350 * N): ops += [x for x in (g.any(bad=True),) if x]
        r.shuffle(ops)
        for k in range(0, len(ops), 40):
            scs.append(dict(header=mode, bin=b, ops=[(line(o), o) for o in ops[k:k + 40]]))
    c.check_scenarios('FactorTrace', 'FactorTrace.cfg', scs, c.run_harness, chunk_events=500)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
