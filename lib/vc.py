"""Check framework: exploration over the simulated server, replay, evidence."""
import hashlib, json, multiprocessing as mp, os, pickle, queue, shutil, subprocess, sys, tempfile, time, traceback
import vbuild
from sim import Sim, Script, Result, SimDied

VERIF = vbuild.VERIF
NPROC = int(os.environ.get('VERIF_JOBS', '8'))


class Enough(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.violations = []
        self.evals = 0
        self.transitions = 0
        self.outcomes = set()
        self.samples = []
        self.assumptions = []
        self.rules = []
        self.extra = {}
        self.known_seen = []
        self.unreproduced = 0
        self.groups = {}
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop, dir=os.environ.get('VERIF_TMP', '/tmp'))
        os.chmod(self.tmp, 0o755)
        self.known = load_known(prop)

    # -- bookkeeping
    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)

    def count(self, group, n, transitions=0, outcomes=()):
        self.evals += n
        self.transitions += transitions
        for o in outcomes:
            self.outcomes.add(o)
        g = self.groups.setdefault(group, {'executions': 0, 'outcomes': set()})
        g['executions'] += n
        g['outcomes'].update(outcomes)

    def violation(self, what, replay):
        """replay: json-able dict"""
        for k in self.known:
            if k.get('status') == 'open' and k['match'] in what:
                if k['match'] not in self.known_seen:
                    self.known_seen.append(k['match'])
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
                return
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        name = '%s-%s.json' % (self.prop, hashlib.sha256(what.encode('utf-8', 'replace')).hexdigest()[:10])
        path = os.path.join(d, name)
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, what=what, **replay), f, indent=1, default=repr)
        self.violations.append((what, path))

    def finish(self, level='model_checking'):
        wall = time.time() - self.t0
        cov = {
            'states': len(self.outcomes) + getattr(self, 'cstates', 0),
            'transitions': self.transitions,
            'traces_validated_against_impl': self.evals,
            'evaluations': self.evals,
            'distinct_nontrivial': len(self.outcomes) + getattr(self, 'cstates', 0),
            'rule': ' | '.join(self.rules) or 'every case of the enumerated space is executed on the implementation; distinct = distinct canonical observations',
            'samples': self.samples or ['(none)'],
            'exhaustive': True,
            'groups': {k: {'executions': v['executions'], 'distinct_outcomes': len(v['outcomes']) + v.get('cstates', 0)} for k, v in self.groups.items()},
        }
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(wall, 2), 'violations': len(self.violations),
              'known_findings': self.known_seen, 'unreproduced_divergences': self.unreproduced}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        shutil.rmtree(self.tmp, ignore_errors=True)
        for g, v in sorted(self.groups.items()):
            print('  %-40s executions=%-8d distinct_outcomes=%d' % (g, v['executions'], len(v['outcomes']) + v.get('cstates', 0)))
        print('%s %s: executions=%d states=%d transitions=%d wall=%.1fs unreproduced=%d' % (
            self.prop, self.tier, self.evals, len(self.outcomes) + getattr(self, 'cstates', 0), self.transitions, wall, self.unreproduced))
        if self.violations:
            for what, path in self.violations[:3]:
                print('  ' + what.replace('\n', '\n    ')[:1200])
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        return 0

    # -- exploration by C harnesses linked against the tree
    def cexplore(self, group, exe, arglists, timeout=800, env=None):
        """every process prints "OK <executions> <transitions> [<states>]" or a line starting with BAD"""
        from concurrent.futures import ThreadPoolExecutor
        e = {'PATH': '/usr/bin:/bin', 'LANG': 'C.UTF-8', 'TZ': 'UTC', 'HOME': self.tmp, 'ASAN_OPTIONS': 'detect_leaks=0:exitcode=86:detect_odr_violation=0'}
        e.update(env or {})

        def one(args):
            try:
                r = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=self.tmp, stdin=subprocess.DEVNULL)
                return args, r.returncode, r.stdout.decode('latin-1'), r.stderr.decode('latin-1')
            except subprocess.TimeoutExpired as x:
                return args, 'timeout', (x.stdout or b'').decode('latin-1'), ''
        with ThreadPoolExecutor(NPROC) as ex:
            for args, rc, out, err in ex.map(one, arglists):
                ok = [l.split() for l in out.splitlines() if l.startswith('OK ')]
                bad = [l for l in out.splitlines() if l.startswith('BAD')]
                if ok and rc == 0 and not bad:
                    n, t = int(ok[0][1]), int(ok[0][2])
                    st = int(ok[0][3]) if len(ok[0]) > 3 else n
                    self.count(group, n, t)
                    self.cstates = getattr(self, 'cstates', 0) + st
                    self.groups[group].setdefault('cstates', 0)
                    self.groups[group]['cstates'] += st
                    for l in out.splitlines():
                        if l.startswith('SAMPLE'):
                            self.sample({'group': group, 'case': l[7:]})
                else:
                    self.violation('[%s] %s rc=%s %s\n%s' % (group, ' '.join(map(str, args)), rc, '\n'.join(bad)[:1500] or out[-300:], err[:2500]), {'cmd': [exe] + [str(a) for a in args], 'output': out[-4000:], 'stderr': err[-8000:]})

    # -- exploration of the simulated server
    def explore(self, group, config, cases, judge, workers=None, batch=24, timeout=60, isolate=False, outcome=None,
                max_violations=3, setup=None, realtime=None, env=None, lua=False):
        """cases: callable returning an iterator of (key, Script) (deterministic order; run in every shard)
        judge(key, result) -> None or a description of the mismatch
        config: str or callable(workdir)->str
        isolate: fresh server per case"""
        if os.environ.get('VC_ONLY') and os.environ['VC_ONLY'] not in group:
            return  # development only
        if self.violations and time.time() - self.t0 > 200:
            raise Enough('violations found, further exploration skipped')
        nw = workers or NPROC
        bdir = vbuild.build('asan')
        vbuild.lisim()
        q = mp.get_context('fork').Queue()
        procs = []
        for w in range(nw):
            p = mp.get_context('fork').Process(target=_shard, args=(self, q, w, nw, bdir, config, cases, judge, batch, timeout, isolate, outcome, max_violations, setup, realtime, env, lua))
            p.start()
            procs.append(p)
        self._collect(group, q, procs, nw)

    def drive(self, group, config, cases, fn, workers=None, timeout=60, max_violations=3, setup=None, env=None, per=3000):
        """explorations that react to what the server answers.
        cases: callable returning an iterator of keys; fn(sim, key, wd) -> (None or description of the mismatch, outcome).
        A mismatch is confirmed on a fresh server before it is reported."""
        if os.environ.get('VC_ONLY') and os.environ['VC_ONLY'] not in group:
            return  # development only
        if self.violations and time.time() - self.t0 > 200:
            raise Enough('violations found, further exploration skipped')
        nw = workers or NPROC
        bdir = vbuild.build('asan')
        vbuild.lisim()
        q = mp.get_context('fork').Queue()
        procs = []
        for w in range(nw):
            p = mp.get_context('fork').Process(target=_drive, args=(self, q, w, nw, bdir, config, cases, fn, timeout, max_violations, setup, env, per))
            p.start()
            procs.append(p)
        self._collect(group, q, procs, nw)

    def _collect(self, group, q, procs, nw):
        done = 0
        err = None
        while done < nw:
            try:
                m = q.get(timeout=5)
            except queue.Empty:
                dead = [p for p in procs if not p.is_alive() and p.exitcode not in (0, None)]
                if dead:
                    err = 'shard died'
                    break
                continue
            if m[0] == 'done':
                done += 1
                _, n, tr, outs, samples, unrep = m
                self.count(group, n, tr, outs)
                self.unreproduced += unrep
                for s in samples:
                    if len([x for x in self.samples if isinstance(x, dict) and x.get('group') == group]) < 2:
                        self.samples.append(s)
            elif m[0] == 'viol':
                if len(self.violations) < 20:
                    self.violation('[%s] %s' % (group, m[1]), m[2])
            elif m[0] == 'err':
                err = m[1]
                break
        for p in procs:
            if err:
                p.terminate()
            p.join()
        if err:
            raise RuntimeError('exploration %s failed: %s' % (group, err))


def _obs(res):
    h = hashlib.sha1()
    h.update(repr((sorted(res.data.items()), sorted(res.eof), sorted(res.rst), res.connects, res.info)).encode())
    return h.hexdigest()[:12]


def _kr(key):
    k = repr(key)
    return k if len(k) < 500 else k[:380] + '...' + k[-100:]


def _nops(raw):
    return max(1, raw.count(b'Q') + raw.count(b'S') // 2)


def _shard(ctx, q, w, nw, bdir, config, cases, judge, batch, timeout, isolate, outcome, maxv, setup, realtime, env, lua):
    try:
        wd = os.path.join(ctx.tmp, 'w%d-%d' % (w, os.getpid()))
        os.makedirs(wd, exist_ok=True)

        def fresh(t=timeout):
            if setup:
                setup(wd)
            cfg = config(wd) if callable(config) else config
            return Sim(cfg, wd, bdir=bdir, timeout=t, realtime=realtime, env=env, lua=lua)

        n = tr = unrep = viol = 0
        outs = set()
        samples = []
        sim = None
        judge0 = judge

        def judge(key, r):
            try:
                return judge0(key, r)
            except Exception:
                return 'result that cannot be interpreted: %s\nobserved %s' % (traceback.format_exc()[-700:], repr({k: v[:300] for k, v in r.data.items()})[:900])
        pend = []

        def report(key, msg, raws):
            nonlocal viol
            viol += 1
            cfg = config(wd) if callable(config) else config
            q.put(('viol', 'case %s: %s' % (_kr(key), msg), {'case': repr(key), 'config': cfg, 'scripts': [r.hex() for r in raws[-50:]], 'scripts_total': len(raws)}))

        def confirm(key, raw, hist, msg):
            """re-execute before reporting: alone, then with the complete history"""
            nonlocal unrep, viol
            for raws in ([raw], hist):
                try:
                    s = fresh(max(timeout * 3, 120))
                except SimDied as e:
                    report(key, 'server does not start: %s\n%s' % (e, e.log[-2500:]), raws)
                    return
                try:
                    r = None
                    for x in raws:
                        r = s.run(x)
                    m = judge(key, r)
                    if m:
                        report(key, m, raws)
                        return
                except SimDied as e:
                    report(key, '%s\n%s' % (e, e.log[-2500:]), raws)
                    if e.rc == 'timeout':
                        viol = maxv
                    return
                finally:
                    s.close()
                if len(hist) == 1:
                    break
            unrep += 1
            if os.environ.get('VC_DEBUG'):
                print('UNREPRODUCED', _kr(key), msg[:400], file=sys.stderr)

        def flush():
            nonlocal sim, n, tr, pend
            if not pend:
                return
            items, pend = pend, []
            while items:
                if sim is None:
                    try:
                        sim = fresh()
                    except SimDied as e:
                        try:
                            sim = fresh(timeout * 3)
                        except SimDied as e:
                            report('startup', 'server does not start: %s\n%s' % (e, e.log[-2500:]), [])
                            return
                base = len(sim.history)
                res = []
                died = None
                try:
                    if isolate:
                        res = [sim.run(items[0][1])]
                    else:
                        raws = [it[1] for it in items]
                        i = 0
                        import struct as st
                        while len(res) < len(raws):
                            while i < len(raws) and (i == len(res) or (i - len(res) < 16 and sum(len(x) for x in raws[len(res):i + 1]) < 65536)):
                                sim.history.append(raws[i])
                                try:
                                    sim.s.sendall(st.pack('<I', len(raws[i])) + raws[i])
                                except (BrokenPipeError, ConnectionResetError, TimeoutError):
                                    pass
                                i += 1
                            res.append(Result(sim._recv()))
                except SimDied as e:
                    died = e
                for (key, raw), r in zip(items, res):
                    n += 1
                    tr += _nops(raw)
                    m = judge(key, r)
                    o = outcome(key, r) if outcome else _obs(r)
                    outs.add(o)
                    if len(samples) < 1:
                        samples.append({'case': repr(key)[:600], 'observed': repr({k: v[:300] for k, v in r.data.items()})[:900]})
                    if m:
                        idx = items.index((key, raw))
                        confirm(key, raw, sim.history[:base + idx + 1], m)
                if died is not None:
                    k = len(res)
                    key, raw = items[k]
                    hist = sim.history[:base + k + 1]
                    sim.close()
                    sim = None
                    n += 1
                    confirm(key, raw, hist, str(died))
                    items = items[k + 1:]
                else:
                    items = items[len(res):]
                    if isolate:
                        sim.close()
                        sim = None
                if viol >= maxv:
                    return

        import struct
        for i, (key, sc) in enumerate(cases()):
            if i % nw != w:
                continue
            pend.append((key, sc.raw()))
            if len(pend) >= (1 if isolate else batch):
                flush()
                if sim is not None and len(sim.history) > 30000:
                    sim.close()
                    sim = None
                if viol >= maxv:
                    break
        if viol < maxv:
            flush()
        if sim is not None:
            sim.close()
        q.put(('done', n, tr, outs, samples, unrep))
        q.close()
        q.join_thread()
    except Exception:
        q.put(('err', traceback.format_exc()))
        q.close()
        q.join_thread()


def _drive(ctx, q, w, nw, bdir, config, cases, fn, timeout, maxv, setup, env, per):
    try:
        wd = os.path.join(ctx.tmp, 'w%d-%d' % (w, os.getpid()))
        os.makedirs(wd, exist_ok=True)

        def fresh(t=timeout):
            if setup:
                setup(wd)
            return Sim(config(wd) if callable(config) else config, wd, bdir=bdir, timeout=t, env=env)

        def one(sim, key):
            try:
                return fn(sim, key, wd)
            except SimDied:
                raise
            except Exception:
                return 'result that cannot be interpreted: ' + traceback.format_exc()[-900:], 'exception'

        n = tr = viol = unrep = 0
        outs = set()
        samples = []
        sim = None
        hist = []
        for i, key in enumerate(cases()):
            if i % nw != w:
                continue
            msg = o = None
            base = 0
            try:
                if sim is None:
                    hist = []
                    sim = fresh()
                base = len(sim.history)
                hist.append(key)
                msg, o = one(sim, key)
            except SimDied as e:
                msg = '%s\n%s' % (e, e.log[-2500:])
                if sim is not None:
                    sim.close()
                    sim = None
            n += 1
            if sim is not None:
                tr += len(sim.history) - base
            outs.add(o)
            if len(samples) < 1:
                samples.append({'case': repr(key)[:600], 'observed': repr(o)[:900]})
            if msg:
                again = None
                for keys in ([key], hist):
                    s = None
                    try:
                        s = fresh(max(timeout * 3, 120))
                        for k in keys:
                            again, _ = one(s, k)
                    except SimDied as e:
                        again = '%s\n%s' % (e, e.log[-2500:])
                    raws = [r.hex() for r in (s.history[-50:] if s else [])]
                    if s:
                        s.close()
                    if again or len(hist) == 1:
                        break
                if again:
                    viol += 1
                    q.put(('viol', 'case %s: %s' % (_kr(key), again), {'case': repr(key), 'config': config(wd) if callable(config) else config, 'scripts': raws}))
                else:
                    unrep += 1
                    if os.environ.get('VC_DEBUG'):
                        print('UNREPRODUCED', _kr(key), msg[:400], file=sys.stderr)
                if sim is not None:
                    sim.close()
                    sim = None
                if viol >= maxv:
                    break
            if sim is not None and len(sim.history) > per:
                sim.close()
                sim = None
        if sim is not None:
            sim.close()
        q.put(('done', n, tr, outs, samples, unrep))
        q.close()
        q.join_thread()
    except Exception:
        q.put(('err', traceback.format_exc()))
        q.close()
        q.join_thread()


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f) if x['property'] == prop]
