"""C30: binary files (spec/File.tla)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *

def line(o):
    t = [o['op']]
    for k in {'put': 'p', 'gone': 'p', 'look': 'p', 'open': 's p mode buf', 'read': 's n w fixed', 'skip': 's n', 'write': 's n w', 'close': 's', 'drop': 's'}[o['op']].split():
        t.append(str(int(o[k]) if isinstance(o[k], bool) else o[k]))
    if 'b' in o: t += [str(len(o['b']))] + [str(x) for x in o['b']]
    return ' '.join(t)

class Gen:
    def __init__(self, r, checked, big=False):
        self.big = big; self.r, self.checked = r, checked; self.ops = []; self.disk = {1: None, 2: None}; self.f = {1: None, 2: None}
    def used(self, p, mode=''): return any(o and o['st'] == 'open' and o['p'] == p and mode in o['mode'] for o in self.f.values())
    def emit(self, **o): self.ops.append(o)
    def size(self): return self.r.choice([0, 1, 2, 3, 5, 8, 13, 30, 64, 100, 300] if not self.big else [100, 3000, 4095, 4096, 4097, 6000])
    def bytes(self, n): return [self.r.randrange(256) for _ in range(n)]
    def step(self):
        r = self.r; s = r.choice([1, 1, 2]); o = self.f[s]
        c = r.random()
        if c < .12 or (self.disk[1] is None and c < .5):
            p = r.choice([1, 1, 2]); op = r.choice(['put'] * 4 + ['gone', 'look', 'look'])
            if self.used(p): return
            if op == 'put': self.disk[p] = self.bytes(self.size()); self.emit(op=op, p=p, b=self.disk[p])
            else: self.emit(op=op, p=p); self.disk[p] = None if op == 'gone' else self.disk[p]
            return
        if o is None:
            mode = r.choice('rrrw'); p = r.choice([1, 1, 1, 2, 2, 3] + ([4] * (4 if self.big else 1) if mode == 'w' else []))
            if self.used(p, '' if mode == 'w' else 'w'): return
            ok = (p != 3) if mode == 'w' else self.disk.get(p) is not None
            self.emit(op='open', s=s, p=p, mode=mode, buf=r.choice([-1, 0, 1, 2, 3, 4, 7, 8, 16, 33, 64, 128, 4096]))
            self.f[s] = dict(st='open' if ok else 'failed', mode=mode, p=p, pos=0, out=[], lost=False)
            if ok and mode == 'w' and p < 3: self.disk[p] = []
            return
        on = o['st'] == 'open'
        if not on:
            if self.checked and r.random() < .3: self.emit(**r.choice([dict(op='read', s=s, n=1, w=1, fixed=0), dict(op='close', s=s), dict(op='skip', s=s, n=1), dict(op='write', s=s, n=1, w=1, b=[3])]))
            else: self.emit(op='drop', s=s); self.f[s] = None
            return
        if self.checked and r.random() < .04:
            self.emit(**r.choice([dict(op='drop', s=s), dict(op='read', s=s, n=-1, w=1, fixed=0), dict(op='read', s=s, n=1, w=0, fixed=0)] if o['mode'] == 'r' else [dict(op='drop', s=s), dict(op='read', s=s, n=1, w=1, fixed=0), dict(op='write', s=s, n=-1, w=1, b=[])])); return
        if o['mode'] == 'r' and self.checked and r.random() < .02: self.emit(op='write', s=s, n=1, w=1, b=[9]); return
        if r.random() < (.06 if not o['lost'] else .5):
            self.emit(op='close', s=s); o['st'] = 'closed'
            if o['mode'] == 'w' and o['p'] < 3: self.disk[o['p']] = o['out']
            return
        if o['mode'] == 'w':
            if o['p'] == 4 and self.big and r.random() < .5: n, w = r.choice([(2500, 8), (20000, 1), (5, 4000)]); self.emit(op='write', s=s, n=n, w=w, b=self.bytes(n * w)); return
            n, w = r.choice([(0, 1), (1, 1), (1, 5), (3, 1), (2, 3), (7, 8), (40, 8)] if not self.big or r.random() < .3 else [(4096, 1), (513, 8), (2000, 2), (1, 5000)]); b = self.bytes(n * w)
            self.emit(op='write', s=s, n=n, w=w, b=b); o['out'] = o['out'] + b; return
        left = len(self.disk[o['p']]) - o['pos']
        n, w = r.choice([(0, 1), (1, 1), (1, 1), (1, 2), (2, 1), (1, 3), (1, 8), (3, 2), (5, 1), (4, 4), (2, 8), (9, 3)] if not self.big or r.random() < .3 else [(100, 8), (511, 8), (4096, 1), (4000, 1), (1000, 3), (1, 4097)])
        if r.random() < .15 and left > 0: n, w = (left, 1) if r.random() < .7 else (1, left)
        if r.random() < .1: n, w = left + 1, 1
        if n * w > left and r.random() < .7 and left > 0: n, w = r.randint(1, left), 1
        if r.random() < .2:
            k = r.choice([0, 1, 2, 3, 5, 9, 20] + ([1000, 4096] if self.big else [])); k = min(k, left) if r.random() < .9 else k
            self.emit(op='skip', s=s, n=max(0, k)); o['pos'] += max(0, k); return
        fx = int(n in (0, 1, 2, 3) and w in (1, 2, 3, 8) and r.random() < .5)
        self.emit(op='read', s=s, n=max(n, 0), w=w, fixed=fx); o['pos'] += max(n, 0) * w
        if n * w > left: o['lost'] = True
    def walk(self, n):
        while len(self.ops) < n: self.step()
        return self.ops

def main():
    c = Check('C30')
    big = 'Big' if c.thorough else ''
    with ThreadPoolExecutor(3) as ex:
        f1 = ex.submit(c.build, 'file', ['checked', 'release'])
        f2 = ex.submit(c.explore, 'FileGen', 'FileGen%s.cfg' % big, emit=True, extra=['-lncheck', 'final'])
        f3 = ex.submit(c.explore, 'FileModel', 'FileModel%s.cfg' % big)
        bins = f1.result(); g = f2.result(); f3.result()
    r = c.rng; scs = []
    def add(mode, ops): scs.append(dict(header=mode, bin=bins[mode], ops=[(line(o), {k: v for k, v in o.items() if k != 'bad'}) for o in ops]))
    walks = g.cover(r, 60, budget=None if c.thorough else 40000)
    for n, w in enumerate(walks * (2 if c.thorough else 1)):
        mode = ('checked', 'release')[(n + n // max(1, len(walks))) % 2]
        add(mode, [o for o in w if not o['bad'] or mode == 'checked'])
    c.extra['spec_transitions_replayed'] = '%d of %d' % (g.covered, g.nedges)
    for mode in bins:
        for _ in range(120 * (20 if c.thorough else 1)):
            add(mode, Gen(r, mode == 'checked').walk(80))
        for _ in range(6 * (20 if c.thorough else 1)): add(mode, Gen(r, mode == 'checked', True).walk(24))
    c.check_scenarios('FileTrace', 'FileTrace.cfg', scs, c.run_harness, chunk_events=8000)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
