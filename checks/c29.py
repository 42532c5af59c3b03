"""C29: GMRES and conjugate gradient (spec/Iter.tla)."""
import sys, os, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *

def dot(x, y): return sum(p * q for p, q in zip(x, y))
def times(A, x): return [dot(row, x) for row in A]
def scale(P, x): return [p * q for p, q in zip(P, x)] if P else list(x)
def cross(x, y): return [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]
def parallel(x, y): return all(x[p] * y[q] == x[q] * y[p] for p in range(len(x)) for q in range(len(x)))
def det(m):
    if not m: return 1
    return sum((-1) ** c * x * det([r[:c] + r[c + 1:] for r in m[1:]]) for c, x in enumerate(m[0]) if x)
def spd(A):
    n = len(A)
    return all(A[i][j] == A[j][i] for i in range(n) for j in range(n)) and all(det([r[:k] for r in A[:k]]) > 0 for k in range(1, n + 1))
def prime(x):
    g = math.gcd(*x)
    return [v // g for v in x] if g else list(x)
def krylov(A, P, b, m):
    z = [prime(scale(P, b))]
    while len(z) < m: z.append(prime(scale(P, times(A, z[-1]))))
    return z
def safe(A, P, b):
    """no overflow where the specification finds the degree"""
    if len(b) > 3: return True
    z = krylov(A, P, b, 3); M = [max(map(abs, v)) for v in z]; lim = 2 ** 31 - 1
    return 2 * M[0] * M[1] < lim and max(map(abs, times(A, z[2]))) < lim and (len(b) < 3 or 3 * max(map(abs, prime(cross(z[0], z[1])))) * M[2] < lim)
def degree(A, P, b):
    n = len(b)
    if not any(b): return 0
    if n > 3: return n
    z = krylov(A, P, b, 3)
    if parallel(z[0], z[1]): return 1
    if n == 2 or dot(cross(z[0], z[1]), z[2]) == 0: return 2
    return 3
L = lambda l: ' '.join([str(len(l))] + [str(x) for x in l])

class Gen:
    def __init__(self, r, bad):
        self.r, self.bad = r, bad; self.s = [None, None]; self.ops = []
    def emit(self, line, **k):
        o = dict(ws=[], ps=[], want=0, den=1, b=[], A=[], P=[], nx=0, rel=0, abs=0, lim=0, kd=0, kind='', e1=False)
        o.update(k); self.ops.append((line, o))
    def matrix(self, kind):
        r = self.r; n = r.choice([1, 2, 2, 3, 3, 3, 3, 4, 5, 6])
        while True:
            if kind == 'cg' or r.random() < .2:
                if n > 3 or r.random() < .4:
                    A = [[0] * n for _ in range(n)]
                    for i in range(n):
                        for j in range(i): A[i][j] = A[j][i] = r.choice([0, 0, 1, -1])
                    for i in range(n): A[i][i] = sum(abs(x) for x in A[i]) + r.randint(1, 3)
                else:
                    G = [[r.randint(-2, 2) for _ in range(n)] for _ in range(n)]
                    A = [[dot(G[i], G[j]) for j in range(n)] for i in range(n)]
                if not spd(A): continue
            elif n > 3:
                A = [[r.choice([0, 1, -1]) for _ in range(n)] for _ in range(n)]
                for i in range(n): A[i][i] = r.choice([1, 1, -1]) * (sum(abs(x) for x in A[i]) + r.randint(1, 2))
            else:
                A = [[r.randint(-3, 3) for _ in range(n)] for _ in range(n)]
            d = det(A)
            if d != 0 and abs(d) < 20000: return A
    def cond(self, n):
        r = self.r
        return [] if r.random() < .5 else [r.choice([1, 2, 4, 4, 8]) for _ in range(n)]
    def new(self, k, A=None, P=None, kind=None):
        r = self.r; kind = kind or r.choice(['gm', 'gm', 'cg'])
        A = A or self.matrix(kind); n = len(A); P = self.cond(n) if P is None else P
        kd = r.choice([n, n + 1, n + 3, r.randint(1, n), r.randint(1, n)]) if kind == 'gm' else 0
        fits = True
        if self.bad and r.random() < .12:
            fits = False
            if r.random() < .5: A = [row + [1] for row in A]
            else: P = [4] * (n + 1)
        self.emit('new %d %s 0 %d %d %s %s' % (k, kind, kd, n, ' '.join(L(x) for x in A), L(P)), op='new', k=k, kind=kind, A=A, P=P, kd=kd)
        if fits: self.s[k - 1] = dict(kind=kind, A=A, P=P, kd=kd, n=n, rel=1000000, abs=0, lim=100, b=None, it=0)
    def rhs(self, s):
        while True:
            b = self.rhs1(s)
            if safe(s['A'], s['P'], b): return b
    def rhs1(self, s):
        r = self.r; n = s['n']; c = r.random()
        if c < .08: return [0] * n
        if c < .2: return [int(q == r.randrange(n)) for q in range(n)]
        if c < .35:
            x = [r.randint(-2, 2) for _ in range(n)]; return times(s['A'], x)
        return [r.randint(-4, 4) for _ in range(n)]
    def wants(self, s, b, k):
        """numbers to judge the solution after k steps with"""
        A, P, n = s['A'], s['P'], s['n']; deg = degree(A, P, b); test = (lambda z: times(A, z)) if s['kind'] == 'gm' else (lambda z: z)
        no = dict(want=99, den=1, ws=[], ps=[])
        if k >= deg: return dict(no, want=0, den=abs(det(A)))
        z = krylov(A, P, b, k)
        if k == 0: return no
        if k == 1:
            w = test(z[0]); d = dot(w, times(A, z[0]))
            big = max(abs(v) for v in w + times(A, z[0]))
            return dict(no, want=1, den=d) if 0 < abs(d) and big * big * n < 2 ** 30 and abs(dot(w, b)) * max(map(abs, z[0])) < 2 ** 30 else no
        ws = [test(v) for v in z]; ps = [prime(cross(z[0], z[1]))] if n == 3 else []
        if k > 3 or max(abs(v) for w in ws + ps + z + [times(A, z[-1])] for v in w) > 10 ** 7: return no
        return dict(no, want=k, ws=ws, ps=ps)
    def wline(self, w): return ' '.join([str(w['den']), str(len(w['ws'])), str(len(w['ps']))] + [L(x) for x in w['ws'] + w['ps']])
    def par(self, k):
        s = self.s[k - 1]; r = self.r
        s['rel'], s['abs'], s['lim'] = r.choice([2, 3, 10, 1000000, 10 ** 9, 10 ** 9, 10 ** 9]), r.choice([0] * 9 + [1000]), r.choice([0, 1, 1, 2, 3, 5, 20, 100])
        self.emit('par %d %d %d %d' % (k, s['rel'], s['abs'], s['lim']), op='par', k=k, rel=s['rel'], abs=s['abs'], lim=s['lim'])
    def solve(self, k, b=None):
        s = self.s[k - 1]; r = self.r; n = s['n']; b = b or self.rhs(s); nx = n
        if s['kind'] == 'gm': rel, abs_, lim = r.choice([2, 3, 10, 10 ** 6, 10 ** 9, 10 ** 9, 10 ** 9]), 0, r.choice([1, 1, 2, 3, 4, 10, 60, 149])
        else: rel, abs_, lim = s['rel'], s['abs'], s['lim']
        if self.bad and r.random() < .06:
            if s['kind'] == 'cg' or r.random() < .5: b = b + [1]
            else: nx = n + 1
        if len(b) != n: w = dict(want=99, den=1, ws=[], ps=[]); e1 = False
        else:
            A, P = s['A'], s['P']; deg = degree(A, P, b)
            w = self.wants(s, b, min(lim, deg) if rel >= 10 ** 6 else 1)
            if s['kind'] == 'gm' and s['kd'] < deg and rel >= 10 ** 6: w = dict(want=0, den=abs(det(A)), ws=[], ps=[])
            e1 = False
            if rel <= 10 and any(b):
                z = prime(scale(P, b)); Az = times(A, z); t = Az if s['kind'] == 'gm' else z
                d, m = dot(t, Az), dot(t, b); res = [d * p - m * q for p, q in zip(b, Az)]
                e1 = max([abs(v) for v in res] + [abs(d) * max(map(abs, b))]) <= 1500
        self.emit('solve %d %s %d %d %d %d %s' % (k, L(b), rel, abs_, lim, nx, self.wline(w)), op='solve', k=k, b=b, rel=rel, abs=abs_, lim=lim, nx=nx, e1=e1, **w)
        s['b'] = None
    def begin(self, k, b=None):
        s = self.s[k - 1]; b = b or self.rhs(s)
        if self.bad and self.r.random() < .06: b = b + [1]
        self.emit('begin %d %s' % (k, L(b)), op='begin', k=k, b=b)
        s['b'], s['it'] = (b, 0) if len(b) == s['n'] else (None, 0)
    def step(self, k):
        s = self.s[k - 1]; s['it'] += 1
        w = self.wants(s, s['b'], s['it'])
        self.emit('next %d %s' % (k, self.wline(w)), op='next', k=k, **w)
    def walk(self, n):
        r = self.r
        while len(self.ops) < n:
            k = r.randint(1, 2); s = self.s[k - 1]
            if s is None or r.random() < .12: self.new(k); continue
            c = r.random()
            if c < .45: self.solve(k)
            elif c < .55 and s['kind'] == 'cg': self.par(k)
            elif c < .62 or s['b'] is None: self.begin(k)
            elif s['it'] < 9: self.step(k)
        return self.ops
    def given(self, o):
        k = self.r.randint(1, 2); kind = 'cg' if o['spd'] and self.r.random() < .5 else 'gm'
        self.new(k, o['A'], o['P'], kind); b = list(o['b'])
        if self.s[k - 1] is None or self.s[k - 1]['A'] is not o['A']: return
        if kind == 'cg' and self.r.random() < .7: self.par(k)
        self.solve(k, b); self.begin(k, b)
        for _ in range(len(b) + self.r.randint(0, 1)):
            if self.s[k - 1]['b'] is not None: self.step(k)

def main():
    c = Check('C29')
    big = 'Big' if c.thorough else ''
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(c.build, 'iter', ['checked', 'release'], mkl=True)
        f2 = ex.submit(c.explore, 'IterGen', 'IterGen%s.cfg' % big, emit=True, timeout=3000)
        bins = f1.result(); graph = f2.result()
    r = c.rng; scs = []
    small = [o for es in graph.out for o, _ in es]
    c.extra['systems_enumerated'] = len(small)
    N = 12 if c.thorough else 1
    for mode, b in bins.items():
        ls = list(small); r.shuffle(ls)
        ls = ls[:700] if not c.thorough else ls
        for q in range(0, len(ls), 10):
            g = Gen(r, False)
            for o in ls[q:q + 10]: g.given(o)
            scs.append(dict(header='I', bin=b, ops=g.ops))
        for _ in range(140 * N):
            scs.append(dict(header='I', bin=b, ops=Gen(r, mode == 'checked').walk(40)))
    c.check_scenarios('IterTrace', 'IterTrace.cfg', scs, c.run_harness, chunk_events=2000)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
