"""Common machinery: build harnesses from /repo, explore TLA+ specs with TLC,
turn the explored state graph into scripts, run them on the real code, and let
TLC decide whether what the code did is a behaviour of the specification."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, hashlib
from collections import deque
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
TLAJAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
MKL = ['-Wl,--no-as-needed', '-lmkl_intel_lp64', '-lmkl_core', '-lmkl_intel_thread',
       '-liomp5', '-ldl', '-lpthread', '-lm']
BASE_FLAGS = ['-std=c++11', '-m64', '-DIL_MKL', '-DIL_BLAS', '-I/usr/include/mkl',
              '-include', 'cstdint', '-w', '-g1', '-fno-omit-frame-pointer', '-fno-builtin-malloc', '-fno-builtin-free',
              '-ftrivial-auto-var-init=pattern']   # what is read without having been written shows
MODES = {
    'checked': ['-DIL_UNIT_TEST', '-O1', '-fsanitize=address'],
    'release': ['-DNDEBUG', '-O2', '-fsanitize=address'],
    'checked_plain': ['-DIL_UNIT_TEST', '-O1'],
    'release_plain': ['-DNDEBUG', '-O2'],
    'debug': ['-O1', '-fsanitize=address'],   # il::abort() really aborts
}
ENV = dict(os.environ, MKL_CBWR='COMPATIBLE', OMP_NUM_THREADS='2', MKL_NUM_THREADS='2',
           LC_ALL='C.UTF-8',
           ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:'
                        'allocator_may_return_null=1:max_allocation_size_mb=2048:malloc_context_size=5')


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


class Check:
    def __init__(self, prop, tier=None, seed=None, level='model_checking'):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1')) if seed is None else seed
        self.rng = random.Random((self.seed * 1000003) ^ int(hashlib.md5(prop.encode()).hexdigest()[:8], 16))
        self.level = level
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='vf_%s_' % prop, dir='/tmp')
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.assumptions = []
        self.known = []
        self.njobs = min(8, os.cpu_count() or 4)

    # ------------------------------------------------------------- building
    def build(self, name, modes, srcs=None, flags=(), mkl=False, extra_srcs=(), tag=''):
        """Compile harness/<name>.cpp (in parallel) in each mode; returns {mode: path}."""
        src = os.path.join(VERIF, 'harness', name + '.cpp') if srcs is None else srcs
        def one(mode):
            out = os.path.join(self.work, '%s%s.%s' % (name, tag, mode))
            cmd = ['g++'] + BASE_FLAGS + MODES[mode] + ['-I' + REPO, '-I' + os.path.join(VERIF, 'harness')] \
                + list(flags) + [src] + [os.path.join(REPO, s) for s in extra_srcs] + ['-o', out]
            if mkl:
                cmd += MKL
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode != 0:
                raise CheckError('harness %s (%s) does not compile against %s:\n%s'
                                 % (name, mode, REPO, r.stderr[-4000:]))
            return out
        with ThreadPoolExecutor(self.njobs) as ex:
            outs = list(ex.map(one, modes))
        return dict(zip(modes, outs))

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfg, env=None, workers=1, xmx='3g', extra=(), timeout=800, stdout=None, dirname=None):
        meta = tempfile.mkdtemp(prefix='tlc_', dir=self.work)
        spec = os.path.join(dirname or os.path.join(VERIF, 'spec'), module + '.tla')
        cfgp = cfg if os.path.isabs(cfg) else os.path.join(VERIF, 'spec', cfg)
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + xmx, '-Xss512m', '-Djava.io.tmpdir=' + meta,
               '-XX:TieredStopAtLevel=4', '-cp', TLAJAR, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
               '-noGenerateSpecTE', '-nowarning', '-config', cfgp] + list(extra) + [spec]
        e = dict(ENV)
        e.update(env or {})
        try:
            if stdout:
                with open(stdout, 'w') as f:
                    r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, text=True, env=e,
                                       timeout=timeout, cwd=meta)
                out = None
            else:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                                   timeout=timeout, cwd=meta)
                out = r.stdout
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on %s' % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, out

    def explore(self, module, cfg, emit=False, workers=4, xmx='6g', extra=(), timeout=800):
        """Exhaustively check the spec's invariants; with emit, return the list of
        transitions (from, op, to) printed by the spec's Emit action constraint."""
        outp = os.path.join(self.work, '%s.%s.out' % (module, os.path.basename(cfg)))
        rc, _ = self._tlc(module, cfg, workers=1 if emit else workers, xmx=xmx, extra=list(extra) + ['-deadlock'],
                          timeout=timeout, stdout=outp)
        edges = []
        tail = []
        st = None
        with open(outp) as f:
            for line in f:
                if line.startswith('"@@'):
                    edges.append(line)
                    continue
                m = re.match(r'^(\d+) states generated, (\d+) distinct states found, (\d+) states left', line)
                if m:
                    st = (int(m.group(1)), int(m.group(2)), int(m.group(3)))
                tail.append(line)
        if rc != 0 or st is None or st[2] != 0:
            raise CheckError('TLC rejected the specification %s/%s (rc=%s):\n%s' % (module, cfg, rc, ''.join(tail[-40:])))
        self.states += st[1]
        self.transitions += st[0]
        self.extra.setdefault('spec_exploration', []).append(
            dict(module=module, cfg=os.path.basename(cfg), distinct_states=st[1], generated=st[0], exhaustive=True))
        if emit:
            g = Graph()
            for line in edges:
                s = line.strip()[3:-1]
                if '\\"' in s:
                    s = s.replace('\\"', '"').replace('\\\\', '\\')
                d = json.loads(s)
                g.add(json.dumps(d['f'], sort_keys=True), d['o'], json.dumps(d['t'], sort_keys=True))
            os.unlink(outp)
            return g
        os.unlink(outp)
        return None

    def simulate(self, module, cfg, num, depth, workers=1, timeout=600, xmx='3g'):
        """Random behaviours of the spec: returns list of lists of op records (printed via '@@')."""
        outp = os.path.join(self.work, '%s.sim.out' % module)
        rc, _ = self._tlc(module, cfg, workers=workers, xmx=xmx,
                          extra=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(self.seed), '-deadlock'],
                          timeout=timeout, stdout=outp)
        res = []
        tail = []
        with open(outp) as f:
            for line in f:
                if line.startswith('"@@'):
                    s = line.strip()[3:-1]
                    if '\\"' in s:
                        s = s.replace('\\"', '"').replace('\\\\', '\\')
                    res.append(json.loads(s))
                else:
                    tail.append(line)
        if rc != 0:
            raise CheckError('TLC simulation of %s failed: %s' % (module, ''.join(tail[-30:])))
        return res

    def validate(self, module, cfg, events, env=None, timeout=800, xmx='3g', tag='t'):
        """TLC decides whether `events` is a behaviour of the trace spec.
        Returns (accepted, number of accepted events, output)."""
        fd, path = tempfile.mkstemp(prefix=tag, suffix='.ndjson', dir=self.work)
        with os.fdopen(fd, 'w') as f:
            for e in events:
                f.write(json.dumps(e) + '\n')
        e = {'TRACE': path}
        e.update(env or {})
        rc, out = self._tlc(module, cfg, env=e, workers=1, xmx=xmx, extra=['-deadlock'], timeout=timeout)
        os.unlink(path)
        m = re.search(r'The depth of the complete state graph search is (\d+)', out)
        if 'semantic analysis failed' in out or 'Error: Parsing' in out:
            raise CheckError('TLC cannot parse %s:\n%s' % (module, out[-2500:]))
        if 'POSTCONDITION' not in out and rc != 0 and not re.search(r'[Pp]ostcondition', out):
            # an evaluation error inside the spec is not a verdict about the code unless
            # the event's shape is unknown to the spec; surface it as an error with output
            mm = re.search(r'<<"I", (\d+)>>', out)
            k = out.find('Error:')
            raise TLCEvalError(out[k:k + 1500] if k >= 0 else out[-3500:])
        if not m:
            raise CheckError('TLC gave no verdict on the trace:\n' + out[-3000:])
        depth = int(m.group(1)) - 1
        return rc == 0 and depth == len(events), depth, out

    # ------------------------------------------------------------- harness
    def run_harness(self, binary, scenarios, args=(), timeout=120, per_timeout=20, env=None):
        """scenarios: list of (header, [ops]); each op is (tokens, fields).
        Returns list of event lists.  The harness prints one JSON object per op.
        A crash or hang of the real code yields a CRASH event, which no spec accepts."""
        results = [None] * len(scenarios)
        i = 0
        e = dict(ENV)
        e.update(env or {})
        crashes = 0
        while i < len(scenarios):
            lines = []
            for sc in scenarios[i:]:
                lines.append('S ' + sc[0])
                for tok, _ in sc[1]:
                    lines.append(tok)
                lines.append('E')
            inp = '\n'.join(lines) + '\nQ\n'
            tmo = False
            limit = 45 if len(scenarios) == 1 else 300 if self.thorough else 75
            p = subprocess.Popen([binary] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, env=e, cwd=self.work)
            try:
                out, err = p.communicate(inp.encode('utf-8', 'surrogateescape'), timeout=limit if crashes == 0 else min(limit, per_timeout + 6))
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
                tmo = True
            outl = out.decode('utf-8', 'replace').split('\n')
            outl = [l for l in outl if l.startswith('{')]
            pos = 0
            done = True
            while i < len(scenarios):
                header, ops = scenarios[i]
                need = len(ops) + 1
                got = outl[pos:pos + need]
                pos += len(got)
                evs = []
                bad = False
                for k, l in enumerate(got):
                    try:
                        o = json.loads(l)
                    except Exception:
                        bad = True
                        break
                    if k < len(ops):
                        ev = dict(ops[k][1])
                        ev.update(o)
                    else:
                        ev = dict(op='END')
                        ev.update(o)
                    evs.append(ev)
                if len(got) < need or bad:
                    msg = 'TIMEOUT' if tmo else crash_summary(err.decode('utf-8', 'replace'), p.returncode)
                    k = len(evs)
                    ev = dict(op='CRASH', during=(ops[k][0] if k < len(ops) else 'END'), what=msg)
                    evs.append(ev)
                    results[i] = evs
                    i += 1
                    crashes += 4 if tmo else 1
                    done = False
                    break
                results[i] = evs
                i += 1
            if done and i >= len(scenarios):
                break
            if crashes > 8:
                # enough evidence; mark the rest as not run
                for j in range(i, len(scenarios)):
                    results[j] = []
                break
        return results

    # ---------------------------------------------------- validation driver
    def check_scenarios(self, module, cfg, scenarios, runner, env=None, chunk_events=12000, describe=None, maxviol=int(os.environ.get("VF_MAXVIOL", "3"))):
        """scenarios: list of dict(header, ops, bin, args). Runs, validates with TLC in
        parallel chunks, confirms each rejection by re-running it alone, reports."""
        by = {}
        for idx, sc in enumerate(scenarios):
            by.setdefault(sc['bin'], []).append(idx)
        evs = [None] * len(scenarios)
        jobs = []
        for b, idxs in by.items():
            n = max(1, min(self.njobs, len(idxs) // 50 + 1))
            for k in range(n):
                part = idxs[k::n]
                jobs.append((b, part))
        def runone(job):
            b, part = job
            res = runner(b, [(scenarios[i]['header'], scenarios[i]['ops']) for i in part])
            return part, res
        t = time.time()
        with ThreadPoolExecutor(self.njobs) as ex:
            for part, res in ex.map(runone, jobs):
                for i, r in zip(part, res):
                    evs[i] = r
        log('  harness ran %d scenarios in %.1fs' % (len(scenarios), time.time() - t))
        if len(self.samples) < 3 and scenarios:
            for i in (0, len(scenarios) // 2, len(scenarios) - 1):
                if evs[i]:
                    self.samples.append(dict(header=scenarios[i]['header'], events=evs[i][:6]))
        order = [i for i in range(len(scenarios)) if evs[i]]
        # crashes first
        suspicious = [i for i in order if evs[i][-1]['op'] == 'CRASH']
        clean = [i for i in order if evs[i][-1]['op'] != 'CRASH']
        total = sum(len(evs[i]) + 1 for i in clean)
        nchunks = max(1, -(-total // chunk_events))
        if nchunks < self.njobs and total > 4000:
            nchunks = self.njobs
        chunks = [[] for _ in range(nchunks)]
        sizes = [0] * nchunks
        for i in clean:
            k = sizes.index(min(sizes))
            chunks[k].append(i)
            sizes[k] += len(evs[i]) + 1
        t = time.time()

        def valone(idxs):
            rej = []
            ok = 0
            work = [idxs]
            while work:
                cur = work.pop()
                if not cur:
                    continue
                seq = []
                starts = []
                for i in cur:
                    starts.append(len(seq))
                    seq.append(dict(op='RESET', hdr=scenarios[i]['header'].split()))
                    seq.extend(evs[i])
                try:
                    acc, depth, _ = self.validate(module, cfg, seq, env=env)
                except TLCEvalError as ex:
                    if len(cur) == 1:
                        rej.append((cur[0], -1, str(ex)))
                        break
                    h = len(cur) // 2
                    work.append(cur[h:]); work.append(cur[:h])
                    continue
                if acc:
                    ok += len(cur)
                    continue
                # event index `depth` (0-based) was not accepted
                k = max(j for j in range(len(cur)) if starts[j] <= depth)
                rej.append((cur[k], depth - starts[k] - 1, ''))
                ok += k
                if len(rej) < 2:
                    work.append(cur[k + 1:])
            return ok, rej
        with ThreadPoolExecutor(self.njobs) as ex:
            res = list(ex.map(valone, [c for c in chunks if c]))
        rejected = []
        for ok, rej in res:
            self.traces += ok
            rejected += rej
        self.events += total
        log('  TLC (%s) decided %d traces, %d events in %.1fs: %d rejected, %d crashed' %
            (module, len(order), total, time.time() - t, len(rejected), len(suspicious)))
        cand = [(i, len(evs[i]) - 1, '') for i in suspicious] + rejected
        cand.sort(key=lambda c: len(evs[c[0]]))
        for i, k, why in cand:
            if len(self.violations) >= maxviol:
                break
            sc = scenarios[i]
            again = runner(sc['bin'], [(sc['header'], sc['ops'])])[0]
            seq = [dict(op='RESET', hdr=sc['header'].split())] + again
            crash = again[-1]['op'] == 'CRASH'
            if not crash:
                try:
                    acc, depth, out = self.validate(module, cfg, seq, env=env)
                except TLCEvalError as ex:
                    acc, depth, out = False, -1, str(ex)
                    why = str(ex)[-1500:]
                if acc:
                    log('  NOTE: rejection of scenario %d did not reproduce' % i)
                    self.extra['not_reproduced'] = self.extra.get('not_reproduced', 0) + 1
                    continue
            else:
                depth = len(seq) - 1
            # an event on which the specification has no meaning at all (TLC cannot evaluate it:
            # an index it does not have, say) is not one of its transitions either
            if why:
                log('  the specification has no meaning for this trace:\n' + why[-1500:])
                depth = -1
            bad = seq[depth] if 0 <= depth < len(seq) else None
            prev = seq[depth - 1] if 1 <= depth else None
            self.violation(dict(kind='trace rejected by specification', module=module, header=sc['header'],
                                script=[o[0] for o in sc['ops']], binary=os.path.basename(sc['bin']),
                                rejected_event_index=depth, rejected_event=bad, previous_event=prev, events=again))

    # ----------------------------------------------------------- reporting
    def violation(self, info):
        # known findings
        for kf in self.known_findings():
            if matches(kf, info):
                if kf['line'] not in self.known:
                    self.known.append(kf['line'])
                return
        d = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations)))
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, **info), f, indent=1)
        self.violations.append(path)
        log('--- rejected: %s' % json.dumps({k: v for k, v in info.items() if k not in ('events',)})[:1800])
        log('VIOLATION property=%s replay=%s' % (self.prop, path))

    def known_findings(self):
        res = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r'^KNOWN-FINDING: property=(\S+) match=(\S+) (.*)$', line.strip())
                if m and m.group(1) == self.prop:
                    res.append(dict(match=m.group(2), line='KNOWN-FINDING: property=%s %s' % (self.prop, m.group(3))))
        return res

    def finish(self):
        for l in self.known:
            log(l)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                trace_events_validated=self.events,
                                samples=self.samples[:4] or ['none'], **self.extra),
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations),
                  assumptions=self.assumptions)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        log('%s %s: %d spec states, %d traces / %d events validated, %d violations, %.1fs' %
            (self.prop, self.tier, self.states, self.traces, self.events, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def run(main, *args):
    try:
        return main(*args)
    except (CheckError, TLCEvalError, subprocess.SubprocessError, OSError) as ex:
        log('CHECK ERROR: %s' % ex)
        return 2


class TLCEvalError(Exception):
    pass


def matches(kf, info):
    return kf['match'] in (info.get('finding_keys') or [])


def crash_summary(err, rc):
    for l in err.split('\n'):
        if 'ERROR: AddressSanitizer' in l or 'runtime error' in l:
            return re.sub(r'0x[0-9a-f]+', '0x', l.strip())[:200]
    t = [l for l in err.strip().split('\n') if l.strip()]
    return 'exit %s %s' % (rc, (t[-1][:150] if t else ''))


class Graph:
    """State graph of a specification as printed by TLC."""
    def __init__(self):
        self.ids = {}
        self.out = []
        self.nedges = 0

    def sid(self, s):
        if s not in self.ids:
            self.ids[s] = len(self.ids)
            self.out.append([])
        return self.ids[s]

    def add(self, f, o, t):
        a, b = self.sid(f), self.sid(t)
        self.out[a].append((o, b))
        self.nedges += 1

    def cover(self, rng, length=40, budget=None, init=0):
        """Walks from the initial state that together take every edge (or as many as the
        event budget allows). Yields lists of op records; returns via .covered the count."""
        # one representative edge per distinct successor is enough to navigate
        self.succ = []
        for es in self.out:
            d = {}
            for o, b in es:
                d.setdefault(b, (o, b))
            v = list(d.values())
            rng.shuffle(v)
            self.succ.append(v)
        unc = [list(range(len(o))) for o in self.out]
        for u in unc:
            rng.shuffle(u)
        left = sum(len(u) for u in unc)
        walks = []
        ev = 0
        # distance-free greedy: BFS to nearest state with uncovered edges
        while left and (budget is None or ev < budget):
            cur = init
            walk = []
            while len(walk) < length and left:
                if unc[cur]:
                    k = unc[cur].pop()
                    left -= 1
                    o, b = self.out[cur][k]
                    walk.append(o)
                    cur = b
                    continue
                path = self._bfs(cur, unc, rng)
                if path is None:
                    break
                if walk and len(walk) + len(path) > length + 10:
                    break
                for (o, b) in path:
                    walk.append(o)
                    cur = b
            if not walk:
                break
            walks.append(walk)
            ev += len(walk)
        self.covered = self.nedges - left
        return walks

    def _bfs(self, s, unc, rng, limit=20000):
        prev = {s: None}
        q = deque([s])
        while q:
            x = q.popleft()
            if unc[x] and x != s:
                path = []
                while prev[x] is not None:
                    p, e = prev[x]
                    path.append(e)
                    x = p
                return path[::-1]
            if len(prev) > limit:
                return None
            for o, b in self.succ[x]:
                if b not in prev:
                    prev[b] = (x, (o, b))
                    q.append(b)
        return None

    def random_walks(self, rng, count, length, init=0):
        res = []
        for _ in range(count):
            cur = init
            w = []
            for _ in range(length):
                if not self.out[cur]:
                    break
                o, cur = rng.choice(self.out[cur])
                w.append(o)
            res.append(w)
        return res
