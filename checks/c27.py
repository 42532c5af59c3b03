"""C27: sparse matrices, products, norms and solvers (spec/Sparse.tla)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *

def L(v): return [str(len(v))] + [str(x) for x in v]
def det(m):
    if not m: return 1
    return sum((-1) ** c * x * det([r[:c] + r[c + 1:] for r in m[1:]]) for c, x in enumerate(m[0]) if x)
class Mat:
    """what the generator knows of a slot"""
    def __init__(self, n0=0, n1=0, row=(), col=(), el=()):
        self.n0, self.n1, self.row, self.col, self.el = n0, n1, list(row), list(col), list(el)
    def dense(self):
        d = [[0] * self.n1 for _ in range(self.n0)]
        for i in range(self.n0):
            for k in range(self.row[i], self.row[i + 1]): d[i][self.col[k]] += self.el[k]
        return d
    def rows(self): return [self.col[self.row[i]:self.row[i + 1]] for i in range(self.n0)]
    def sorted(self): return all(list(r) == sorted(set(r)) for r in self.rows())
    def plain(self): return all(len(r) == len(set(r)) for r in self.rows())
    def diag(self): return all(i in r for i, r in enumerate(self.rows()))
    def clone(self): return Mat(self.n0, self.n1, self.row, self.col, self.el)

class Gen:
    def __init__(self, r, ty, bad, large=False):
        self.large = large; self.r, self.ty, self.bad = r, ty, bad
        self.m = [Mat(), Mat(), Mat()]; self.an = 0; self.fresh = self.num = self.big = False; self.ilu = 0; self.ilufresh = False; self.ops = []; self.dims = {}
    def emit(self, op, k, j=0, l=0, form=0, toks=(), **f):
        self.ops.append((' '.join([op, str(k), str(j), str(l), str(form)] + list(toks)), dict(op=op, k=k, j=j, l=l, form=form, **f)))
    def put(self, k, A):
        self.m[k - 1] = A
        if self.an == k: self.an = -1
        if self.ilu == k: self.ilu = -1
    def size(self):
        if self.large: return self.r.choice([16, 20, 31, 40, 64, 70])
        return self.r.choice([0, 1, 2, 3, 3, 4, 5, 6])
    def pattern(self, n0, n1, form, plain=True, sort=True):
        r = self.r; rows = []
        for i in range(n0):
            most = min(2 if form == 2 else 5 if form == 3 else 6, n1) if plain else min(2 if form == 2 else 4, 4 if n1 else 0)
            c = r.choice([0, 1, 1, 2, 2, most]); c = min(c, most)
            cols = r.sample(range(n1), c) if plain else [r.randrange(n1) for _ in range(c)]
            rows.append(sorted(cols) if sort else cols)
        row = [0]
        for c in rows: row.append(row[-1] + len(c))
        return row, [x for c in rows for x in c]
    def forms(self): return [0, 1, 2, 3, 4] if self.ty == 'i8d' else [0, 1, 2, 3, 4]
    def make(self, k, n0=None, n1=None, A=None):
        r = self.r; form = r.choice(self.forms())
        if A is None:
            n0 = self.size() if n0 is None else n0; n1 = self.size() if n1 is None else n1
            row, col = self.pattern(n0, n1, form, plain=r.random() < .9, sort=r.random() < .8)
            A = Mat(n0, n1, row, col, [r.randint(-9, 9) for _ in col])
        else:
            form = r.choice([0, 1, 4]); row, col = A.row, A.col
        el = list(A.el); bad = False; row = list(row)
        if self.bad and r.random() < .08:
            bad = True
            if form == 1 and r.random() < .5: el.append(1)
            elif form in (2, 3): A = A.clone(); A.n0 += 1
            else: row.append(row[-1])
        self.emit('make', k, form=form, toks=[str(A.n0), str(A.n1)] + L(row) + L(col) + L(el), n0=A.n0, n1=A.n1, row=row, col=list(col), el=el)
        if not bad: self.put(k, A)
        return not bad
    def pos(self, k, n=None, pos=None):
        r = self.r
        if n is None:
            n = self.size(); pos = [(r.randrange(n), r.randrange(n)) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 12] if not self.large else [20, 60, 120, 200]))] if n else []
        v = [r.randint(-9, 9) for _ in pos]; bad = False
        if self.bad and r.random() < .1:
            q = r.randrange(len(pos) + 1); bad = True; x = r.choice([n, n + 1]); y = r.randrange(n) if n else 0
            pos = pos[:q] + [r.choice([(x, y), (y, x)])] + pos[q:]; v.append(3)
        self.emit('pos', k, form=r.choice([0, 1]), toks=[str(n), str(len(pos))] + [str(z) for p, w in zip(pos, v) for z in (p[0], p[1], w)], n0=n, pos=[list(p) for p in pos], v=v)
        if bad: return
        d = {}
        for p, w in zip(pos, v): d[p] = d.get(p, 0) + w
        row, col, el = [0], [], []
        for i in range(n):
            for (a, b) in sorted(d):
                if a == i: col.append(b); el.append(d[(a, b)])
            row.append(len(col))
        self.put(k, Mat(n, n, row, col, el))
    def set(self, k):
        r = self.r; A = self.m[k - 1]; form = r.choice([0, 1, 2]); v = r.randint(-9, 9)
        rows = [i for i in range(A.n0) if A.row[i + 1] > A.row[i]]
        if self.bad and form < 2 and r.random() < .15:
            if form == 0: i, p = 0, r.choice([-1, len(A.el), len(A.el) + 2])
            else:
                i = r.choice([-1, A.n0] + list(range(A.n0)))
                p = r.choice([-1, A.row[i + 1] - A.row[i]]) if 0 <= i < A.n0 else 0
            self.emit('set', k, form=form, toks=[str(i), str(p), str(v)], i=i, p=p, val=v); return
        if not rows: return
        i = r.choice(rows); p = r.randrange(A.row[i + 1] - A.row[i]); q = A.row[i] + p
        if form != 1: i, p = 0, q
        self.emit('set', k, form=form, toks=[str(i), str(p), str(v)], i=i, p=p, val=v)
        A.el[q] = v
        if k == self.an: self.fresh = False
        if k == self.ilu: self.ilufresh = False
    def copy(self, k, j):
        self.emit('copy', k, j, form=self.r.choice([0, 1]))
        if k != j: self.put(k, self.m[j - 1].clone())
    def move(self, k, j):
        self.emit('move', k, j, form=self.r.choice([0, 1]))
        if k != j:
            own = lambda x: k if x == j else -1 if x == k else x
            self.m[k - 1] = self.m[j - 1]; self.m[j - 1] = Mat(); self.an = own(self.an); self.ilu = own(self.ilu)
    def mv(self, k):
        r = self.r; A = self.m[k - 1]
        # the pattern of a product is not known to the generator, its sizes are
        unknown = A is None
        if unknown: A = Mat(*self.dims[k])
        form = 0 if self.ty == 'i8d' else r.choice([0, 1, 2]) if self.ty == 'i4d' else r.choice([1, 2])
        if unknown: form = 0
        if form and (A.n0 == 0 or A.n1 == 0 or not A.el): return
        alpha, beta = r.choice([1, 1, -1, 2, 0]), r.choice([0, 0, 1, -1, 3])
        x = [r.randint(-5, 5) for _ in range(A.n1)]; y = [r.randint(-9, 9) for _ in range(A.n0)]
        if self.bad and form == 0 and r.random() < .15:
            v = r.choice([x, y]); v.append(1) if r.random() < .5 or not v else v.pop()
        self.emit('mv', k, form=form, toks=[str(alpha), str(beta)] + L(x) + L(y), alpha=alpha, beta=beta, x=x, y=y)
    def dot(self, k, j, l):
        A, B = self.m[k - 1], self.m[j - 1]
        if A.n1 != B.n0:
            if self.bad and self.r.random() < .3: self.emit('dot', k, j, l)
            elif B.n1 and A.n1 and self.make(j, A.n1, self.size() or 1): self.dot(k, j, l)
            return
        if 0 in (A.n0, A.n1, B.n1) or not A.el or not B.el or not A.sorted() or not B.sorted(): return
        self.emit('dot', k, j, l)
        self.put(l, None); self.dims[l] = (A.n0, B.n1)
    def norm(self, k):
        r = self.r; A = self.m[k - 1]
        if not A.plain(): return
        kind = 'Linf'; alpha = [r.randint(-3, 3) for _ in range(A.n1)]; beta = [r.choice([1, 2, 4, -1, -2]) for _ in range(A.n0)]
        beta = [abs(b) for b in beta]
        if self.bad and r.random() < .2:
            c = r.choice('kab')
            if c == 'k': kind = r.choice(['L1', 'L2'])
            else: (alpha if c == 'a' else beta).append(1)
        self.emit('norm', k, toks=[kind, '4'] + L(alpha) + L(beta), kind=kind, scl=4, alpha=alpha, beta=beta)
    def system(self, k, dominant=False):
        """a square matrix with a solution"""
        r = self.r
        for _ in range(20):
            n = r.choice([1, 2, 3, 4, 5])
            row, col, el = [0], [], []
            for i in range(n):
                c = set(r.sample(range(n), min(n, r.choice([1, 2, 3]))))
                if dominant or r.random() < .8: c.add(i)
                for j in sorted(c):
                    col.append(j); el.append(r.choice([-2, -1, 1, 2]) if not dominant or i != j else r.choice([7, 8, -9]))
                row.append(len(col))
            A = Mat(n, n, row, col, el)
            if 0 < abs(det(A.dense())) < 20000: break
        else: return False
        return self.make(k, A=A)
    def rhs(self, n):
        r = self.r; b = [r.randint(-5, 5) for _ in range(n)]
        if r.random() < .1: b = [0] * n
        return b
    def call(self, op, k, form=0, b=(), D=1, most=0):
        t = [str(D)] + ([str(most)] if op in ('pre', 'gm') else []) + L(list(b))
        self.emit(op, k, form=form, toks=t, D=D, most=most, b=list(b))
    def pardiso(self, k):
        r = self.r
        if self.an <= 0 or r.random() < .15:
            if not self.system(k): return
            if self.an == -1 or r.random() < .9:
                self.call('ana', k); self.an = k; self.num = False; self.fresh = False
            return
        A = self.m[self.an - 1]; others = [j for j in (1, 2, 3) if j != self.an and self.m[j - 1] is not None and self.m[j - 1].el]
        if self.bad and r.random() < .15 and others:
            self.call(r.choice(['num', 'sol']), r.choice(others), b=self.rhs(A.n0)); return
        D = det(A.dense())
        if self.num and self.fresh:
            if self.bad and r.random() < .1: self.call('sol', self.an, b=self.rhs(A.n0 + 1)); return
            self.call('sol', self.an, form=int(r.random() < .3), b=self.rhs(A.n0), D=D)
            if r.random() < .5:
                # other values in the same places
                for _ in range(r.choice([1, 2, 3])): self.set(self.an)
        elif D == 0 or abs(D) >= 20000: self.set(self.an)
        elif not self.num and self.bad and r.random() < .1: self.call('sol', self.an, b=self.rhs(A.n0))
        else: self.call('num', self.an); self.num = self.fresh = True
    def gmres(self, k):
        r = self.r
        if self.ilu <= 0 or not self.ilufresh or r.random() < .2:
            if not self.system(k, True): return
            self.call('pre', k, form=r.choice([0, 1, 2])); self.ilu = k; self.ilufresh = True; return
        A = self.m[self.ilu - 1]; others = [j for j in (1, 2, 3) if j != self.ilu and self.m[j - 1] is not None and self.m[j - 1].el]
        if self.bad and r.random() < .15 and others: self.call('gm', r.choice(others), b=self.rhs(A.n0), most=60); return
        if self.bad and r.random() < .1: self.call('gm', self.ilu, b=self.rhs(A.n0 + 1), most=60); return
        D = det(A.dense())
        if D: self.call('gm', self.ilu, form=r.choice([0, 0, 5, 7]), b=self.rhs(A.n0), D=D, most=60)
    def walk(self, n):
        r = self.r
        for _ in range(n):
            k, j, l = r.randint(1, 3), r.randint(1, 3), r.randint(1, 3)
            # a slot whose pattern is not known is only made anew, moved to nowhere and multiplied by nothing
            c = r.choice(['make', 'make', 'pos', 'pos', 'set', 'set', 'copy', 'move', 'mv', 'mv', 'mv', 'x', 'x', 'x', 'x', 'x'])
            if c == 'x': c = r.choice({'i8d': ['pardiso', 'pardiso', 'pardiso', 'norm', 'npy'], 'i4d': ['gmres', 'gmres', 'dot', 'norm'], 'i4f': ['mv']}[self.ty])
            if self.large and c in ('pardiso', 'gmres'): continue
            if c in ('make', 'pos'): getattr(self, c)(k); continue
            if c in ('pardiso', 'gmres'): getattr(self, c)(k); continue
            if c in ('copy', 'move'):
                if self.m[j - 1] is None or self.m[k - 1] is None: continue
                getattr(self, c)(k, j); continue
            if c == 'dot':
                if self.m[k - 1] is None or self.m[j - 1] is None: continue
                self.dot(k, j, l); continue
            if c == 'npy':
                A = self.m[j - 1]
                if A is None or A.n0 != A.n1 or A.n0 == 0: continue
                self.emit('npy', k, j); self.put(k, A.clone()); continue
            if self.m[k - 1] is None and c != 'mv': continue
            getattr(self, c)(k)
        return self.ops

def main():
    c = Check('C27')
    big = 'Big' if c.thorough else ''
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(c.build, 'sparse', ['checked', 'release'], mkl=True, extra_srcs=['il/io/numpy/numpy.cpp'])
        f2 = ex.submit(c.explore, 'SparseGen', 'SparseGen%s.cfg' % big, emit=True, timeout=3000)
        bins = f1.result(); graph = f2.result()
    r = c.rng; scs = []
    lists = [o for es in graph.out for o, _ in es]
    c.extra['position_lists_enumerated'] = len(lists)
    N = 12 if c.thorough else 1
    for mode, b in bins.items():
        for ty in ('i8d', 'i4d', 'i4f'):
            ls = list(lists); r.shuffle(ls)
            ls = ls[:len(ls) // 3] if not c.thorough else ls
            for q in range(0, len(ls), 25):
                g = Gen(r, ty, False)
                for o in ls[q:q + 25]:
                    k = r.randint(1, 3); g.pos(k, o['n'], [tuple(p) for p in o['pos']]); g.mv(k)
                scs.append(dict(header=ty, bin=b, ops=g.ops))
            for _ in range(8 * N): scs.append(dict(header=ty, bin=b, ops=Gen(r, ty, mode == 'checked', True).walk(14)))
            for _ in range((90 if ty == 'i4f' else 260) * N):
                g = Gen(r, ty, mode == 'checked')
                scs.append(dict(header=ty, bin=b, ops=g.walk(40)))
    c.check_scenarios('SparseTrace', 'SparseTrace.cfg', scs, c.run_harness, chunk_events=3000)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
