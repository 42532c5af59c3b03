"""C17 il::Info and il::Status (spec/Status.tla)."""
import sys, os, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vf import *
from script import scenario

INFO = dict(new='s', destroy='s', clear='s', new_copy='s t', new_move='s t', copy_assign='s t', move_assign='s t', set='s k ty n*', set_own='s k k2', set_named='s k2 ty n*', get='s k ty')
STATUS = dict(new='s', new_move='s t', move_assign='s t', set_ok='s', set_error='s err', set='s k ty n*', source='s n* line', get='s k ty', rearm='s', ok='s', ignore='s',
              abort_on_error='s', error='s', drop='s')
SCHEMA = dict(info=INFO, status=STATUS)
KEYS = [b'a', b'ab', b'abc', b'', b'b', 'é'.encode(), b'k' * 30, b'source_file', b'source_line']
ERRORS = [d * 256 + e for d, n in ((0, 7), (4, 4), (1, 18), (2, 2), (3, 4), (5, 2), (126, 1), (127, 1)) for e in range(n)]

def limbs(fmt, x):
    b = struct.pack('<' + fmt, x); return [b[i] | b[i + 1] << 8 for i in range(0, 8, 2)]
def val(rng, types):
    ty = rng.choice(types)
    if ty == 'bool': return ty, [rng.randint(0, 1)]
    if ty == 'int': return ty, limbs('q', rng.choice([0, 1, -1, 7, 2 ** 31 - 1, -2 ** 31, 2 ** 31 + 1, 2 ** 63 - 1, -2 ** 63, rng.randint(-10 ** 6, 10 ** 6), rng.randint(-2 ** 62, 2 ** 62)]))
    if ty == 'f64': return ty, limbs('d', rng.choice([0.0, -0.0, 1.5, rng.gauss(0, 1e3), 1e300, float('inf')]))
    return ty, list(rng.choice([b'', b'a', b'ab', b'abc', 'é'.encode(), b'x' * rng.randint(1, 60), b'y' * rng.choice([100, 127, 128, 255, 256, 300, 700]), b'source_file', bytes(rng.randint(1, 255) for _ in range(rng.randint(0, 25)))]))

def info_ops(rng, n, checked, keys=(2, 4, 9)):
    st = {1: None, 2: None, 3: None}; lost = set(); ops = []     # slot -> list of (key, type, n)
    types = ['int', 'f64', 'str', 'str', 'bool']; nk = rng.choice(keys)
    def find(s, k):
        r = [x for x in st[s] if x[0] == k]
        return r[-1] if r else None
    while len(ops) < n:
        s = rng.choice([1, 1, 2, 3]); live = [t for t in st if st[t] is not None and t not in lost]
        k = rng.randint(1, nk)
        if st[s] is None: op = rng.choice(['new', 'new', 'new_copy', 'new_move'])
        elif s in lost: op = rng.choice(['clear', 'copy_assign', 'move_assign', 'destroy'])
        else: op = rng.choice(['set'] * 8 + ['set_own', 'set_named', 'get', 'get'] + (['clear', 'copy_assign', 'move_assign', 'destroy'] if rng.random() < .4 else []))
        o = dict(op=op, s=s)
        if op in ('new_copy', 'new_move', 'copy_assign', 'move_assign'):
            if not live: continue
            t = rng.choice(live); o['t'] = t
            if t != s:
                st[s] = list(st[t]); lost.discard(s)
                if 'move' in op: lost.add(t)
        elif op == 'new' or op == 'clear': st[s] = []; lost.discard(s)
        elif op == 'destroy': st[s] = None; lost.discard(s)
        elif op == 'set':
            if len(st[s]) > 14: continue
            ty, v = val(rng, types); o.update(k=k, ty=ty, n=v); st[s].append((k, ty, v))
        elif op in ('set_own', 'set_named'):
            c = [x for x in {x[0] for x in st[s]} if find(s, x)[1] == 'str' and (op == 'set_own' or bytes(find(s, x)[2]) in KEYS)]
            if not c or len(st[s]) > 14: continue
            k2 = rng.choice(c); o['k2'] = k2
            if op == 'set_own': o['k'] = k; st[s].append((k, 'str', find(s, k2)[2]))
            else: ty, v = val(rng, types); o.update(ty=ty, n=v); st[s].append((KEYS.index(bytes(find(s, k2)[2])) + 1, ty, v))
        else:
            f = find(s, k)
            o.update(k=k, ty=rng.choice(types) if checked and rng.random() < .5 else (f[1] if f else 'int'))
            if not checked and not f: continue
        ops.append(o)
    return ops

def status_ops(rng, n, checked):
    st = {1: None, 2: None, 3: None}; ops = []     # slot -> dict(ok, chk, lost, q)
    types = ['int', 'f64', 'str']; nk = rng.choice([2, 9])
    while len(ops) < n:
        s = rng.choice([1, 1, 2, 3]); me = st[s]
        armed = [t for t in st if st[t] and st[t]['chk'] and not st[t]['lost'] and t != s]
        if me is None: op = rng.choice(['new', 'new', 'new_move'])
        elif me['lost']: op = rng.choice(['set_ok', 'set_error', 'drop', 'move_assign'])
        else: op = rng.choice(['set_ok', 'set_error', 'set_error', 'set_error', 'set', 'set', 'set', 'source', 'get', 'get', 'rearm', 'ok', 'ok', 'ignore', 'abort_on_error', 'error', 'error', 'drop', 'move_assign'])
        o = dict(op=op, s=s); sure = not checked or rng.random() < .7
        if op == 'new': st[s] = dict(ok=True, chk=False, lost=False, q={})
        elif op in ('new_move', 'move_assign'):
            if not armed: continue
            if me and me['chk'] and sure: continue
            t = rng.choice(armed); o['t'] = t
            if not (me and me['chk']): st[s] = dict(st[t], q=dict(st[t]['q']), chk=True); st[t].update(chk=False, lost=True)
        elif op == 'drop':
            if rng.random() < .6 or (me['chk'] and not checked): continue
            if not me['chk']: st[s] = None
        elif op in ('set_ok', 'set_error', 'rearm', 'error'):
            if op == 'error' and me['ok']: continue
            if me['chk'] and sure: continue
            if op == 'set_error': o['err'] = rng.choice(ERRORS)
            if not me['chk']:
                if op == 'set_ok': me.update(ok=True, chk=True, lost=False)
                if op == 'set_error': st[s] = dict(ok=False, chk=True, lost=False, q={})
                if op == 'rearm': me['chk'] = True
        elif op in ('set', 'source'):
            good = me['chk'] and not me['ok']
            if not good and sure: continue
            if op == 'set': k = rng.randint(1, nk); ty, v = val(rng, types); o.update(k=k, ty=ty, n=v); new = {k: ty}
            else: o.update(n=list(rng.choice([b'file.h', b'/very/long/path/to/some/source/file.h'])), line=rng.randint(1, 2000)); new = {8: 'str', 9: 'int'}
            if good: me['q'].update(new)
        elif op == 'get':
            if me['ok'] and sure: continue
            k = rng.choice(sorted(me['q']) or [1]) if sure else rng.randint(1, nk)
            if k not in me['q'] and not checked: continue
            o.update(k=k, ty=me['q'].get(k, 'int') if sure else rng.choice(types))
        else:
            if not me['chk'] and sure: continue
            if me['chk'] and not (op == 'abort_on_error' and not me['ok']): me['chk'] = False
        ops.append(o)
    return ops

def main():
    c = Check('C17')
    bins = c.build('status', ['checked', 'release'])
    modes = ['checked', 'release']; scs = []; cov = {}
    for kind in ('info', 'status'):
        cfg = 'StatusGen_%s.cfg' % kind
        g = c.explore('StatusGen', cfg, emit=True, extra=['-lncheck', 'final'])
        walks = g.cover(c.rng, 40, budget=None if c.thorough else 25000)
        if c.thorough: walks = walks * 2
        for n, w in enumerate(walks):
            # destroying or reusing a status that was not looked at is only defined in checked builds
            mode = modes[n % 2] if kind == 'info' else 'checked'
            scs.append(scenario(SCHEMA[kind], '%s %s' % (kind, mode), [o for o in w if not (o['bad'] and mode == 'release')], bins[mode]))
        cov[cfg] = '%d of %d transitions' % (g.covered, g.nedges)
        gen = info_ops if kind == 'info' else status_ops
        for n in range(200 if not c.thorough else 8000):
            mode = modes[n % 2]
            scs.append(scenario(SCHEMA[kind], '%s %s' % (kind, mode), gen(c.rng, 40, mode == 'checked'), bins[mode]))
    c.extra['spec_transitions_replayed'] = cov
    c.check_scenarios('StatusTrace', 'StatusTrace.cfg', scs, c.run_harness)
    return c.finish()

if __name__ == '__main__':
    sys.exit(run(main))
