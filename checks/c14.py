"""C14 il::String / il::StringView (spec/String.tla), C15 UTF-8, UTF-16 and il::UTF16String (spec/Unicode.tla, spec/String.tla)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from script import scenario

S3 = dict(new='s', new_copy='s t', new_move='s t', copy_assign='s t', move_assign='s t', destroy='s')
SCHEMA = dict(S3, new_char='s c', new_lit='s k', new_lit_t='s ty k', assign_lit='s k', append_lit='s k', append_lit_t='s ty k', insert_lit='s i k', new_bytes='s ty x*', new_views='s w*',
              clear='s', reserve='s n', append_char='s c', append_rune='s u', append_nchar='s n c', append_nrune='s n u', append_bytes='s ty x*', append_views='s w*', append_self='s',
              append_other='s t', insert_char='s i c', insert_nchar='s i n c', insert_bytes='s i ty x*', insert_view='s i t p q', count='s c', search='s x*', substring='s p q', subview='s p q',
              starts='s x*', ends='s x*', ends_char='s c', cmp_bytes='s x*', less_c='s x*', cmp='s t', boundary='s i', runes='s', stream='s p q', at='s i', has='s i', next='s i c', trim='s',
              cut='s p q', number='s neg d*', enc='lo n', isrune='x*', valid='x*', valids='x*', to16='x*', to8='x*')
LITS = [b'', b'a', b'hello', '\u00e9\u2203!'.encode(), b'twenty-one characters', b'twenty-two characters!', b'twenty-three characters', b'a\0b',
        b'a literal which is long enough for the heap \xF0\x9F\x98\x80']
RUNES = [0, 1, 0x41, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x2203, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]
BADRUNES = [-1, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0x110000, 2147483647, -2147483648]

def valid(b):
    try: bytes(b).decode('utf-8'); return True
    except UnicodeDecodeError: return False
def cont(v, i): return i < len(v) and 0x80 <= v[i] < 0xc0

def text(rng, n=None, plain=False):
    """well-formed UTF-8, mostly ascii"""
    if n is None: n = rng.choice([0, 1, 2, 3, 5, 8, 13, 20, 21, 22, 23, 24, 30, 45])
    out = []
    while len(out) < n:
        c = list(chr(rng.choice(RUNES[1:])).encode()) if not plain and rng.random() < .15 else [rng.choice([32, 9, 10, 13, 48, 57, 65, 70, 71, 97, 98, 99, 102, 103, 47, 58])]
        if len(out) + len(c) <= n: out += c
    return out

class Sim:
    """just enough to stay within the contracts of the unchecked build"""
    def __init__(s): s.m = {1: None, 2: None, 3: None}

def string_ops(rng, n, checked, room=160, sizes=None):
    m = {1: None, 2: None, 3: None}; ops = []          # slot -> [bytes, type]
    lit = lambda: rng.randrange(len(LITS))
    def text(r, n=None): return globals()['text'](r, n if n is not None else r.choice(sizes) if sizes else None)
    def rng2(v):
        p = rng.randint(0, len(v)); q = rng.randint(0, len(v)); return (p, q) if p <= q else (q, p)
    def views(k):
        w = []
        for _ in range(k):
            t = rng.choice([t for t in m if m[t]]); p, q = rng2(m[t][0])
            if rng.random() < .4: p, q = 0, len(m[t][0])
            w += [t, p, q]
        return w
    def cat(w): return sum([m[w[k]][0][w[k + 1]:w[k + 2]] for k in range(0, len(w), 3)], []), max([m[w[k]][1] for k in range(0, len(w), 3)])
    def sample(v):
        if v and rng.random() < .7:
            p, q = rng2(v)
            if rng.random() < .3: p = 0
            if rng.random() < .3: q = len(v)
            x = list(v[p:q])
            if x and rng.random() < .25: x[rng.randrange(len(x))] = rng.choice([97, 98, 32, 200])
            if rng.random() < .1: x.append(97)
            return x
        return text(rng, rng.randint(0, 4))
    while len(ops) < n:
        s = rng.choice([1, 1, 1, 2, 3]); on = [t for t in m if m[t]]
        if not m[s]:
            op = rng.choice(['new', 'new_char', 'new_lit', 'new_lit_t', 'new_bytes', 'new_bytes', 'new_views', 'new_copy', 'new_move']); o = dict(op=op, s=s)
            if op in ('new_views', 'new_copy', 'new_move') and not on: continue
            if op == 'new': m[s] = [[], 0]
            elif op == 'new_char':
                o['c'] = rng.choice([65, 97, 127, 0] + ([128, 255] if checked else []))
                if o['c'] < 128: m[s] = [[o['c']], 0]
            elif op == 'new_lit': k = lit(); o.update(k=k, x=list(LITS[k])); m[s] = [o['x'], 1]
            elif op == 'new_lit_t': k = lit(); o.update(k=k, x=list(LITS[k]), ty=rng.randint(0, 1)); m[s] = [o['x'], o['ty']]
            elif op == 'new_bytes': o.update(ty=rng.choice([0, 1, 1, 2, 3]), x=text(rng)); m[s] = [o['x'], o['ty']]
            elif op == 'new_views': o['w'] = views(rng.randint(1, 6)); m[s] = list(cat(o['w']))
            else:
                t = rng.choice(on); o['t'] = t; m[s] = list(m[t])
                if op == 'new_move': m[t] = [[], 0]
            ops.append(o); continue
        v, ty = m[s]; L = len(v)
        if L > room or rng.random() < .04:
            op = rng.choice(['clear', 'destroy', 'assign_lit']); o = dict(op=op, s=s)
            if op == 'clear': m[s] = [[], 0]
            elif op == 'destroy': m[s] = None
            else: k = lit(); o.update(k=k, x=list(LITS[k])); m[s] = [o['x'], 1]
            ops.append(o); continue
        op = rng.choice(['append_char', 'append_rune', 'append_nchar', 'append_nrune', 'append_lit', 'append_lit_t', 'append_bytes', 'append_views', 'append_views', 'append_self', 'append_other',
                         'insert_char', 'insert_nchar', 'insert_lit', 'insert_bytes', 'insert_view', 'reserve', 'copy_assign', 'move_assign',
                         'count', 'search', 'substring', 'subview', 'starts', 'ends', 'ends_char', 'cmp_bytes', 'less_c', 'cmp', 'boundary', 'runes', 'stream', 'at', 'has', 'next', 'trim', 'cut', 'number'])
        o = dict(op=op, s=s)
        bound = lambda i: not (ty == 1 and cont(v, i))
        if op == 'append_char' or op == 'append_nchar':
            o['c'] = rng.choice([97, 48, 32, 127] + ([128, 255] if checked and rng.random() < .2 else []))
            k = 1
            if op == 'append_nchar': k = o['n'] = rng.choice([0, 1, 2, 3, 10, 22]) if not checked or rng.random() < .95 else -1
            if o['c'] < 128 and k >= 0: m[s] = [v + [o['c']] * k, ty]
        elif op in ('append_rune', 'append_nrune'):
            o['u'] = rng.choice(RUNES) if not checked or rng.random() < .85 else rng.choice(BADRUNES)
            k = 1
            if op == 'append_nrune': k = o['n'] = rng.choice([0, 1, 2, 3, 8])
            if o['u'] not in BADRUNES: m[s] = [v + list(chr(o['u']).encode()) * k, max(ty, int(o['u'] >= 128))]
        elif op[:10] == 'append_lit':
            k = lit(); o.update(k=k, x=list(LITS[k])); t = 1
            if op == 'append_lit_t': t = o['ty'] = rng.randint(0, 3)
            m[s] = [v + o['x'], max(ty, t)]
        elif op == 'append_bytes': o.update(ty=rng.randint(0, 3) if rng.random() < .4 else rng.randint(0, 1), x=text(rng)); m[s] = [v + o['x'], max(ty, o['ty'])]
        elif op == 'append_views': o['w'] = views(rng.randint(1, 3)); x, t = cat(o['w']); m[s] = [v + x, max(ty, t)]
        elif op == 'append_self': m[s] = [v + v, ty]
        elif op == 'append_other': t = rng.choice(on); o['t'] = t; m[s] = [v + m[t][0], max(ty, m[t][1])]
        elif op[:6] == 'insert':
            i = o['i'] = rng.choice([0, L, rng.randint(0, L)]) if not checked or rng.random() < .9 else rng.choice([-1, L + 1, L + 20])
            ok = 0 <= i <= L and bound(i); t = ty
            if op in ('insert_char', 'insert_nchar'):
                o['c'] = rng.choice([97, 48, 32] + ([128] if checked and rng.random() < .2 else [])); k = 1
                if op == 'insert_nchar': k = o['n'] = rng.choice([0, 1, 2, 3, 10, 22])
                x = [o['c']] * k; ok = ok and o['c'] < 128
            elif op == 'insert_lit': k = lit(); o.update(k=k, x=list(LITS[k])); x = o['x']; t = 1
            elif op == 'insert_bytes': o.update(ty=rng.randint(0, 3) if rng.random() < .3 else rng.randint(0, 1), x=text(rng)); x = o['x']; t = o['ty']
            else: u = rng.choice(on); p, q = rng2(m[u][0]); o.update(t=u, p=p, q=q); x = m[u][0][p:q]; t = m[u][1]
            if not ok and not checked: continue
            if ok: m[s] = [v[:i] + x + v[i:], max(ty, t)]
        elif op == 'reserve': o['n'] = rng.choice([0, 5, 22, 23, 24, 25, 40, 100] if not sizes else [0, 100, 255, 300, 512, 2000, 2100]) if not checked or rng.random() < .9 else -1
        elif op in ('copy_assign', 'move_assign'):
            t = rng.choice(on); o['t'] = t
            if t != s:
                m[s] = list(m[t])
                if op == 'move_assign': m[t] = [[], 0]
        elif op == 'count': o['c'] = rng.choice(v) if v and rng.random() < .8 else 97
        elif op in ('search', 'starts', 'ends', 'cmp_bytes', 'less_c'):
            x = v[:] if op == 'cmp_bytes' and rng.random() < .3 else sample(v)
            if op in ('cmp_bytes', 'less_c'): x = [c for c in x if c != 0]
            o['x'] = x
        elif op == 'ends_char': o['c'] = v[-1] if v and rng.random() < .6 else rng.choice([97, 99, 48])
        elif op == 'cmp': o['t'] = rng.choice(on)
        elif op in ('substring', 'subview', 'cut', 'stream'):
            p, q = rng2(v)
            if rng.random() < .2: p = 0
            if rng.random() < .2: q = L
            o.update(p=p, q=q)
            if checked and op != 'stream' and rng.random() < .1:
                o.update(p=rng.choice([-1, p, L + 1]), q=rng.choice([-1, q, L + 1]))
            elif op[:3] == 'sub' and not checked and not (bound(p) and bound(q)): continue
        elif op == 'boundary':
            o['i'] = rng.randint(0, L)
            if checked and rng.random() < .1: o['i'] = rng.choice([-1, L + 1])
            if not checked and ty > 1: continue
        elif op == 'runes':
            if not valid(v): continue
        elif op in ('at', 'has'):
            if L == 0 and not checked: continue
            o['i'] = rng.randint(0, L - 1) if L and (not checked or rng.random() < .9) else rng.choice([-1, L])
        elif op == 'next': o.update(i=rng.randint(0, L), c=rng.choice(v) if v else 97)
        elif op == 'number':
            x = rng.choice([0, 1, -1, 9, 10, 99, 12345, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 99999999999, -99999999999, 2**63 - 1, -2**63, rng.randint(-2**63, 2**63 - 1), rng.randint(-10**12, 10**12)])
            o.update(neg=int(x < 0), d=[int(c) for c in str(abs(x))])
        ops.append(o)
    return ops

def wide(rng, n=None):
    out = []
    for _ in range(rng.choice([0, 1, 2, 5, 10, 11, 12, 20]) if n is None else n):
        u = rng.choice(RUNES[1:]) if rng.random() < .6 else rng.randint(1, 0xd7ff)
        e = chr(u).encode('utf-16-le'); out += [e[k] + 256 * e[k + 1] for k in range(0, len(e), 2)]
    return out

def utf16_ops(rng, n, checked, room=80, sizes=None):
    def wide(r): return globals()['wide'](r, r.choice(sizes) if sizes else None)
    m = {1: None, 2: None, 3: None}; ops = []
    while len(ops) < n:
        s = rng.choice([1, 1, 2, 3]); on = [t for t in m if m[t] is not None]
        if m[s] is None:
            op = rng.choice(['new', 'new_bytes', 'new_bytes', 'new_copy', 'new_move']); o = dict(op=op, s=s)
            if op == 'new': m[s] = 0
            elif op == 'new_bytes': o.update(ty=0, x=wide(rng)); m[s] = len(o['x'])
            else:
                if not on: continue
                t = rng.choice(on); o['t'] = t; m[s] = m[t]
                if op == 'new_move': m[t] = 0
        else:
            op = rng.choice(['append_char', 'append_rune', 'append_rune', 'append_nchar', 'append_nrune', 'append_bytes', 'append_self', 'append_other', 'reserve', 'copy_assign', 'move_assign', 'cmp', 'runes', 'runes', 'destroy'])
            if m[s] > room: op = 'destroy'
            o = dict(op=op, s=s)
            if op in ('append_char', 'append_nchar'):
                o['c'] = rng.choice([97, 48] + ([200] if checked and rng.random() < .2 else [])); k = 1
                if op == 'append_nchar': k = o['n'] = rng.choice([0, 1, 2, 5, 11])
                if o['c'] < 128: m[s] += k
            elif op in ('append_rune', 'append_nrune'):
                o['u'] = rng.choice(RUNES) if not checked or rng.random() < .85 else rng.choice(BADRUNES); k = 1
                if op == 'append_nrune': k = o['n'] = rng.choice([0, 1, 2, 6])
                if o['u'] not in BADRUNES: m[s] += k * (1 + (o['u'] > 0xffff))
            elif op == 'append_bytes': o.update(ty=0, x=wide(rng)); m[s] += len(o['x'])
            elif op == 'append_self': m[s] *= 2
            elif op in ('append_other', 'cmp'):
                o['t'] = rng.choice(on)
                if op == 'append_other': m[s] += m[o['t']]
            elif op == 'reserve': o['n'] = rng.choice([0, 5, 11, 12, 13, 30] if not sizes else [0, 127, 128, 300, 1000]) if not checked or rng.random() < .9 else -1
            elif op == 'destroy': m[s] = None
            elif op != 'runes':
                t = rng.choice(on); o['t'] = t
                if t != s:
                    m[s] = m[t]
                    if op == 'move_assign': m[t] = 0
        ops.append(o)
    return ops

def codec_ops(c):
    """every scalar value in the thorough tier; the frontiers and a sample of them otherwise"""
    rng = c.rng; ops = []
    if c.thorough:
        for lo in list(range(0, 0xd800, 512)) + list(range(0xe000, 0x110000, 512)): ops.append(dict(op='enc', lo=lo, n=512))
    else:
        for b in [0, 0x80, 0x800, 0xe000, 0x10000, 0x20000, 0x40000, 0x80000, 0x100000, 0xd800, 0x110000]:
            if b not in (0, 0xe000): ops.append(dict(op='enc', lo=b - 96, n=96))
            if b not in (0xd800, 0x110000): ops.append(dict(op='enc', lo=b, n=96))
        for _ in range(150):
            lo = rng.choice([rng.randint(0, 0xd7c0), rng.randint(0xe000, 0x10ffc0), rng.randint(0xe000, 0x1ffc0)]); ops.append(dict(op='enc', lo=lo, n=64))
    ops.append(dict(op='isrune', x=RUNES + BADRUNES + list(range(0xd7f0, 0xe010))))
    B = [0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xff]
    ops.append(dict(op='valids', x=[]))
    for a in range(256): ops.append(dict(op='valids', x=[a]))
    for a in B:
        for b in B:
            ops.append(dict(op='valids', x=[a, b]))
            if a >= 0xe0 and (c.thorough or (a >= 0xf0 and 0x80 <= b < 0xc0)):
                for d in B: ops.append(dict(op='valids', x=[a, b, d]))
    for _ in range(400 if not c.thorough else 4000):
        x = text(rng, rng.randint(0, 12))
        if x and rng.random() < .6: x[rng.randrange(len(x))] = rng.choice(B)
        if x and rng.random() < .3: x.pop()
        ops.append(dict(op='valid', x=x))
    for _ in range(300 if not c.thorough else 3000):
        ops.append(dict(op='to16', x=sum([list(chr(rng.choice(RUNES + [rng.randint(0x10000, 0x10ffff), rng.randint(0x80, 0xd7ff)])).encode()) for _ in range(rng.randint(0, 24))], [])))
        ops.append(dict(op='to8', x=wide(rng)))
    return ops

def main(prop):
    c = Check(prop)
    bins = c.build('string', ['checked', 'release'])
    scs = []; cov = {}
    def add(kind, mode, ops): scs.append(scenario(SCHEMA, '%s %s' % (kind, mode), ops, bins[mode]))
    kind, cfg = ('utf8', 'StringGen8.cfg') if prop == 'C14' else ('utf16', 'StringGen16.cfg')
    g = c.explore('StringGen', cfg, emit=True, extra=['-lncheck', 'final'])
    walks = g.cover(c.rng, 40, budget=None if c.thorough else 45000)
    for n, w in enumerate(walks):
        mode = ('checked', 'release')[n % 2]; ops = []
        for o in w:
            if o['bad'] and mode == 'release': continue
            o = dict(o)
            if 'x' in o:
                k = len(o['x'])
                if o['op'] == 'assign_lit': o['k'] = [len(l) for l in LITS].index(k); o['x'] = list(LITS[o['k']])
                else: o['x'] = [c.rng.randint(97, 122) for _ in range(k)]
            if 'c' in o and o['c'] < 128: o['c'] = c.rng.randint(97, 122)
            if o['op'] == 'new_bytes' and kind == 'utf16': o['ty'] = 0
            if o['op'] == 'append_bytes' and kind == 'utf16': o['ty'] = 0
            ops.append(o)
        add(kind, mode, ops)
    cov[cfg] = '%d of %d transitions' % (g.covered, g.nedges)
    c.extra['spec_transitions_replayed'] = cov
    for n in range(300 if not c.thorough else 12000):
        mode = ('checked', 'release')[n % 2]
        add(kind, mode, (string_ops if prop == 'C14' else utf16_ops)(c.rng, 60, mode == 'checked'))
    # long texts: what only happens at some size
    for n in range(24 if not c.thorough else 480):
        mode = ('checked', 'release')[n % 2]; z = [[0, 3, 20, 100, 300, 301], [1, 22, 23, 150, 600], [0, 24, 255, 256, 257, 511, 512, 513], [5, 1000, 1023, 1030, 2040, 2048, 2500]][n // 2 % 4]
        add(kind, mode, (string_ops if prop == 'C14' else utf16_ops)(c.rng, 25, mode == 'checked', 2500, z))
    if prop == 'C15':
        ops = codec_ops(c)
        for k in range(0, len(ops), 40):
            for mode in (('checked', 'release') if c.thorough else (('checked', 'release')[(k // 40) % 2],)): add('codec', mode, ops[k:k + 40])
    c.check_scenarios('StringTrace', 'StringTrace.cfg', scs, c.run_harness)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main, sys.argv[1] if len(sys.argv) > 1 else 'C14'))
