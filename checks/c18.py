"""C18 safe arithmetic and integer helpers (spec/Arith.tla, spec/ArithModel.tla)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *

TY = dict(int=(True, 32), uint=(False, 32), long=(True, 64), ulong=(False, 64), llong=(True, 64), ullong=(False, 64))
CONV = dict(int='uint', uint='int', long='ulong', ulong='long', llong='ullong', ullong='llong')
def rng_of(ty):
    s, w = TY[ty]; return (-2 ** (w - 1), 2 ** (w - 1) - 1) if s else (0, 2 ** w - 1)
def big(x):
    m, d = abs(x), []
    while m: d.append(m % 4096); m //= 4096
    return dict(s=(x > 0) - (x < 0), m=d)

def main():
    c = Check('C18')
    c.explore('ArithModel', 'ArithModel.cfg', emit=False)
    v = {}
    for mode in ('checked', 'release'):
        for k, flags in (('', []), ('b', ['-DIL_BUILTIN_SAFE_ARITHMETIC=1'])):
            v[mode + k] = c.build('arith', [mode], flags=flags, tag=k)[mode]
    r = c.rng; calls = []
    def edge(ty, pos=False):
        lo, hi = rng_of(ty)
        k = r.random()
        if k < .35: x = r.choice([lo, hi, 0, 1, -1, hi // 2, hi // 2 + 1, lo // 2, lo // 2 - 1, lo + 1, hi - 1, 2, -2, 3, 4])
        elif k < .55: x = r.choice([1, -1]) * (2 ** r.randint(0, TY[ty][1]) + r.randint(-2, 2))
        elif k < .75: x = r.choice([1, -1]) * r.randint(0, 2 ** r.randint(1, TY[ty][1]))
        elif k < .85: x = r.choice([1, -1]) * (int((hi + 1) ** .5) + r.randint(-3, 3))
        else: x = r.randint(lo, hi)
        x = min(hi, max(lo, x))
        return abs(x) if pos and x != lo else x
    def near(ty, op, a):        # an operand that makes the result land on a bound
        lo, hi = rng_of(ty); t = r.choice([lo, hi]) + r.randint(-2, 2)
        b = t - a if op == 'sum' else a - t if op == 'diff' else (t // a + r.randint(-1, 1) if a else 0)
        return min(hi, max(lo, b))
    def add(op, ty, args, checked=False, **kw):
        o = dict(op=op if op != 'ipow_n' else 'ipow', ty=ty, v=[big(x) for x in args], q=big(0), n=0, to=CONV[ty]); o.update(kw)
        line = '%s %s %s' % (op, ty, ' '.join(([str(len(args))] if op in ('prods', 'max', 'min') else []) + [str(x) for x in args] + ([str(kw['n'])] if op in ('ipow', 'ipow_n') else [])))
        calls.append((line, o, checked))
    N = 1 if not c.thorough else 40
    for ty in TY:
        lo, hi = rng_of(ty); B = sorted({x for x in (lo, lo + 1, -2, -1, 0, 1, 2, hi - 1, hi, hi // 2, hi // 2 + 1, lo // 2, lo // 2 - 1) if lo <= x <= hi})
        ops2 = ['sum', 'prod2'] + (['diff', 'div', 'upper'] if TY[ty][0] else [])
        for op in ops2:
            pairs = [(a, b) for a in B for b in B] + [(edge(ty), edge(ty)) for _ in range(120 * N)]
            for _ in range(160 * N): a = edge(ty); pairs.append((a, near(ty, op, a)))
            for _ in range(60 * N): a = edge(ty); pairs.append((near(ty, op, a), a))
            if op == 'upper':
                pairs += [(edge(ty, True), max(1, edge(ty, True))) for _ in range(300 * N)] + [(hi - r.randint(0, 3), max(1, edge(ty, True))) for _ in range(100 * N)]
                pairs += [(-1, 5), (5, 0), (5, -1), (lo, 1)]
            for a, b in pairs:
                bad = op == 'upper' and (a < 0 or b <= 0)
                if bad and r.random() < .8: continue
                add(op, ty, [a, b], checked=bad, q=big(-(-a // b) if op == 'upper' and b else 0))
        for _ in range(150 * N): add('conv', ty, [edge(ty)])
        for b in B: add('conv', ty, [b])
        if TY[ty][0]:
            for n in (3, 4):
                for _ in range(150 * N):
                    f = [edge(ty) if r.random() < .4 else r.choice([1, -1]) * r.randint(0, int((hi + 1) ** (1.0 / r.choice([2, 3, 4]))) + 2) for _ in range(n)]
                    if r.random() < .2: f[r.randrange(n)] = r.choice([0, 1, -1])
                    add('prods', ty, f)
    hi = 2 ** 63 - 1
    for x in [0, 1, 2 ** 62 - 1, 2 ** 62, 2 ** 62 + 1, hi, hi - 1] + [r.randint(0, hi) for _ in range(60 * N)]: add('double', 'long', [x])
    for _ in range(250 * N):
        a = r.choice([1, -1]) * r.randint(0, 2 ** r.randint(1, 61)); b = r.randint(1, 2 ** r.randint(1, 61)); add('floor', 'long', [a, b], q=big(a // b))
    for a in range(-9, 10):
        for b in (1, 2, 3, 4, 8): add('floor', 'long', [a, b], q=big(a // b))
    for ty in ('int', 'long'):
        lo, hi = rng_of(ty)
        for x in [0, 1, -1, hi, lo + 1] + [r.randint(lo + 1, hi) for _ in range(60 * N)]: add('abs', ty, [x])
        for _ in range(250 * N):
            x = r.choice([1, -1]) * r.randint(0, 2 ** r.randint(1, 16)); n = 0
            while lo <= x ** (n + 1) <= hi and n < 64: n += 1
            n = r.choice([n, r.randint(0, n)]); add('ipow', ty, [x], n=n)
            m = max(k for k in (0, 1, 2, 3, 4, 5, 6, 7, 9, 11, 13) if k <= n); add('ipow_n', ty, [x], n=m)
    for ty, w in (('uint', 32), ('ulong', 64)):
        for k in range(w):
            for d in (-1, 0, 1):
                x = 2 ** k + d
                if 1 <= x < 2 ** w:
                    add('prevp2', ty, [x])
                    add('log2', ty, [x])
                    if x <= 2 ** (w - 1): add('nextp2', ty, [x])
        for _ in range(80 * N):
            x = r.randint(1, 2 ** (w - 1)); add('prevp2', ty, [x]); add('nextp2', ty, [x]); add('log2', ty, [x])
            x = r.randint(2 ** (w - 1), 2 ** w - 1); add('prevp2', ty, [x]); add('log2', ty, [x])
    for _ in range(250 * N):
        ty = r.choice(['int', 'long', 'llong']); n = r.randint(2, 6); z = edge(ty) if ty != 'llong' else 0
        lo, hi = rng_of(ty)
        f = [min(hi, max(lo, z + r.randint(-3, 3))) if r.random() < .7 else edge(ty) if ty != 'llong' else r.randint(-2**50, 2**50) for _ in range(n)]
        add('max', ty, f); add('min', ty, f[:4] if n >= 4 else f[:2])
    for _ in range(60 * N):
        x = r.choice([r.randint(-40, 40), r.randint(-2**45, 2**45)]); add('absd', 'llong', [x]); add('floord', 'llong', [x])
        a, b, d = r.choice([(3, 4, 5), (5, 12, 13), (8, 15, 17), (20, 21, 29), (0, 1, 1), (0, 0, 0)]); k = r.randint(1, 2 ** r.randint(0, 20))
        a, b = r.choice([(a, b), (b, a)]); a, b = r.choice([-k, k]) * a, r.choice([-k, k]) * b
        for op in ('cabs', 'conj', 'real'): add(op, 'llong', [a, b])
    for a in range(4):
        for b in range(4): add('finite', 'llong', [a, b])
    scs = []
    r.shuffle(calls)
    names = list(v)
    for n in range(0, len(calls), 60):
        part = calls[n:n + 60]
        for k in (names if c.thorough else [names[(n // 60) % 4], names[(n // 60 + 1 + 2 * ((n // 60) % 2)) % 4]]):
            scs.append(dict(header='arith ' + k, bin=v[k], ops=[(l, o) for l, o, chk in part if not chk or k.startswith('checked')]))
    c.extra['calls'] = len(calls)
    c.check_scenarios('ArithTrace', 'ArithTrace.cfg', scs, c.run_harness)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
