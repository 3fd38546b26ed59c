#!/usr/bin/env python3
"""Decides one property by seeded search over simulated runs.

    check.py C01 [--thorough] [--runs N] [--secs S] [--replay FILE] [--nobuild] [--seed0 K]

exit 0: held on everything explored; exit 1 + "VIOLATION property=<id> replay=<path>"; other: the check itself failed.
"""
import argparse, collections, hashlib, importlib, json, os, random, shutil, struct, subprocess, sys, tempfile, threading, time, queue
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, HERE + '/py')
sys.path.insert(0, HERE + '/wl')
sys.dont_write_bytecode = True
import build as simbuild
B = simbuild.B
REC = struct.Struct('<IiQ')
KINDS = ['mem', 'sync', 'pick', 'wake', 'clock', 'io', 'user', 'spurious']
FAULTS = {1: 'open_fail', 2: 'write_enospc', 3: 'write_eio', 4: 'write_short', 5: 'read_eio', 6: 'read_short', 7: 'close_eio', 8: 'fsync_eio', 9: 'eintr', 10: 'read_eof',
          32: 'net_delay', 33: 'net_rendezvous', 34: 'rank_stall', 35: 'net_late_capture'}

PFV = ('C15',)  # properties whose workload loads the flow engines


def env():
    e = {'HOME': B + '/home', 'PATH': '/usr/bin:/bin', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONWARNINGS': 'ignore',
         'MALLOC_ARENA_MAX': '1', 'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0:glibc.malloc.perturb=165', 'OPENBLAS_NUM_THREADS': '1', 'YSIM_THREADS': '8', 'MPLBACKEND': 'Agg', 'YSIM_BUILD': B, 'TMPDIR': B + '/tmp',
         'MPLCONFIGDIR': B + '/home', 'LD_PRELOAD': B + '/libysim.so', 'USER': 'sim', 'LOGNAME': 'sim', 'YADE_PREFIX': B + '/inst',
         'PYTHONPATH': ':'.join([HERE + '/py', HERE + '/wl', '/opt/vp/py3compat/modules', B + '/inst/lib/yade/py'])}
    return e


class Worker(object):
    def __init__(self, wl, core, scratch):
        self.dir = tempfile.mkdtemp(prefix='w', dir=scratch)
        r, w = os.pipe()
        os.set_inheritable(w, True)
        cmd = ['setarch', '-R', '/usr/bin/python3', HERE + '/py/zygote.py', self.dir, wl, '%04d' % w, '%04d' % core]
        if subprocess.call(['setarch', '-R', 'true'], stderr=subprocess.DEVNULL):
            cmd = cmd[2:]
        self.err = open(self.dir + '/zygote.err', 'wb')
        self.p = subprocess.Popen(cmd, env=env(), stdin=subprocess.PIPE, stdout=self.err, stderr=self.err, pass_fds=(w,), cwd=self.dir)
        os.close(w)
        self.r = r
        self.n = 1000000
        self.ready = False

    def wait_ready(self):
        if not self.ready:
            b = os.read(self.r, 6)
            if b != b'READY\n':
                raise RuntimeError('worker did not start: ' + open(self.dir + '/zygote.err', errors='replace').read()[-3000:])
            self.ready = True

    def run(self, seed, case, rec=None, timeout=60):
        self.wait_ready()
        self.n += 1
        n = self.n
        with open('%s/%08d.job' % (self.dir, n), 'w') as f:
            json.dump({'seed': seed, 'case': case, 'rec': rec is not None, 'timeout': timeout}, f)
        if rec is not None:
            with open('%s/%08d.rec' % (self.dir, n), 'wb') as f:
                f.write(b''.join(REC.pack(*r) for r in rec))
        self.p.stdin.write(n.to_bytes(8, 'little'))
        self.p.stdin.flush()
        b = os.read(self.r, 8)
        if len(b) != 8:
            raise RuntimeError('worker died: ' + open(self.dir + '/zygote.err', errors='replace').read()[-3000:])
        res = json.load(open('%s/%08d.res' % (self.dir, n)))
        os.unlink('%s/%08d.res' % (self.dir, n))
        o = '%s/%08d.orec' % (self.dir, n)
        if os.path.exists(o):
            d = open(o, 'rb').read()
            res['orec'] = [list(REC.unpack_from(d, i)) for i in range(0, len(d), 16)]
            # order of a run: recorded chronologically
            os.unlink(o)
        return res

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()
        os.close(self.r)
        self.err.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def bad(res):
    return res['verdict'] != 'ok'


def case_for(mod, prop, vseed, i, tier):
    h = hashlib.sha256(('%s/%d/%d' % (prop, vseed, i)).encode()).digest()
    seed = int.from_bytes(h[:7], 'little')
    rng = random.Random(seed)
    return seed, mod.generate(rng, tier)


def load_known(prop):
    f = VERIF + '/known_findings.json'
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))['findings'] if k['property'] == prop and k.get('status') == 'open']


def is_known(known, res):
    for k in known:
        if k['cls'] == res.get('cls') and (not k.get('msg_contains') or k['msg_contains'] in (res.get('msg') or '')):
            return k
    return None


class Search(object):
    def __init__(self, prop, tier, vseed, mod, scratch):
        self.prop, self.tier, self.vseed, self.mod, self.scratch = prop, tier, vseed, mod, scratch
        self.agg = collections.Counter()
        self.st = collections.Counter()
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.hashes, self.outs = set(), set()
        self.nontrivial = set()
        self.samples = []
        self.runs = 0
        self.known_hits = {}
        self.cpu = 0.
        self.wall = 0.
        self.todo = None

    def absorb(self, i, seed, case, res):
        self.runs += 1
        self.cpu += res['wall']
        self.st.update(res['st'])
        for k, v in res['faults'].items():
            self.faults[FAULTS.get(int(k), 'fault%s' % k)] += v
        self.probes.update(res.get('probes', {}))
        self.hashes.add(res['hash'])
        self.outs.add(res.get('out'))
        self.agg['evals'] += res.get('evals', 0)
        s = res['st']
        if res.get('evals', 0) > 0 and (s['preempt_mem'] + s['preempt_sync'] + s['stallpicks'] + s['clockjumps'] + s['spurious'] + sum(res['faults'].values()) + s['nrec'] + res.get('probes', {}).get('fault', 0)) > 0:
            self.nontrivial.add(res['hash'])
        if len(self.samples) < 3:
            c = json.dumps(case)
            self.samples.append({'seed': seed, 'case': c if len(c) < 1500 else c[:1500] + '...', 'hash': res['hash'], 'verdict': res['verdict'], 'switches': s['switches'], 'faults': res['faults']})

    def go(self, nruns, secs, known, cores):
        t0 = time.time()
        if self.todo is None:
            self.todo = iter(range(nruns))
        todo = self.todo
        lock = threading.Lock()
        failures = {}
        stop = [None]
        errors = []

        def thread(core):
            try:
                w = Worker(self.mod.__name__, core, self.scratch)
            except Exception as e:
                errors.append(e)
                return
            try:
                w.wait_ready()
                while True:
                    with lock:
                        if errors or time.time() - t0 + self.wall > secs or stop[0] is not None:
                            return
                        i = next(todo, None)
                    if i is None:
                        return
                    seed, case = case_for(self.mod, self.prop, self.vseed, i, self.tier)
                    res = w.run(seed, case, timeout=getattr(self.mod, 'TIMEOUT', 60))
                    with lock:
                        self.absorb(i, seed, case, res)
                        if bad(res):
                            k = is_known(known, res)
                            if k:
                                self.known_hits.setdefault(k['id'], (seed, res['msg']))
                            else:
                                failures[i] = (seed, case, res)
                                if stop[0] is None or i < stop[0]:
                                    stop[0] = i
            except Exception as e:
                errors.append(e)
            finally:
                w.close()
        ts = [threading.Thread(target=thread, args=(c,)) for c in cores]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors and not failures:
            raise errors[0]
        self.wall += time.time() - t0
        if failures:
            i = min(failures)
            return i, failures[i]
        return None


def ddmin(items, test, deadline):
    """smallest sublist (1-minimal if time allows) for which test() holds; test(items) holds"""
    n = 2
    if time.time() < deadline and test([]):
        return []
    while len(items) >= 2 and time.time() < deadline:
        k = max(1, len(items) // n)
        subsets = [items[j:j + k] for j in range(0, len(items), k)]
        for j in range(len(subsets)):
            if time.time() > deadline:
                return items
            comp = [x for q in range(len(subsets)) if q != j for x in subsets[q]]
            if len(comp) < len(items) and test(comp):
                items = comp
                n = max(n - 1, 2)
                break
        else:
            if n >= len(items):
                return items
            n = min(len(items), n * 2)
    return items


def shrink_lists(case):
    return [k for k in ('ops', 'bodies', 'engines', 'jobs', 'threads_ops') if isinstance(case.get(k), list) and len(case[k]) > 1]


def write_replay(prop, mod, seed, case, rec, res, mini):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = '%s/%s-%d.json' % (d, prop, seed)
    with open(path, 'w') as f:
        json.dump({'property': prop, 'workload': mod.__name__, 'seed': seed, 'case': case, 'decisions': rec,
                   'decisions_readable': [{'kind': KINDS[k] if k < len(KINDS) else k, 'at': i, 'choice': v} for k, v, i in (rec or [])][:200] if rec is not None else 'all (seeded search re-run)',
                   'violation': {'class': res['cls'], 'message': res['msg'], 'hash': res['hash'], 'log_tail': res.get('log', '')[-1500:]}, 'minimisation': mini}, f, indent=1)
    return path


def report(prop, tier, mod, seed, case, res, scratch, core, budget):
    """confirm in a fresh process, minimise, write the replay file, replay it in a fresh process"""
    cls = res['cls']
    to = getattr(mod, 'TIMEOUT', 60)
    if cls == 'hang':
        to *= 1.4

    def fresh(case, rec=None, s=seed):
        w = Worker(mod.__name__, core, scratch)
        try:
            return w.run(s, case, rec, timeout=to)
        finally:
            w.close()
    r2 = fresh(case)
    if not (bad(r2) and r2['cls'] == cls) and res.get('orec') and not res['st']['rec_overflow']:
        r2 = fresh(case, res['orec'])  # the decisions of the failing run itself
    if not (bad(r2) and r2['cls'] == cls):
        return None, 'not reproduced in a fresh process: %s %s -> %s %s' % (cls, res['hash'], r2['verdict'], r2.get('cls'))
    deadline = time.time() + budget
    w = Worker(mod.__name__, core, scratch)
    best_case, best_res = case, r2
    tested = [0]
    try:
        # 1. the case, searching runs (same seed)
        def try_case(c):
            tested[0] += 1
            try:
                r = w.run(seed, c, timeout=min(to, 30) if cls != 'hang' else to)
            except RuntimeError:
                return None
            return r if bad(r) and r['cls'] == cls else None
        if getattr(mod, 'SHRINK', True) and cls != 'hang':
            for key in shrink_lists(best_case):
                def t(items, key=key):
                    nonlocal best_case, best_res
                    c = dict(best_case)
                    c[key] = items
                    r = try_case(c)
                    if r:
                        best_case, best_res = c, r
                    return bool(r)
                ddmin(list(best_case[key]), t, time.time() + budget * 0.5)
        # 2. the decisions
        rec = best_res.get('orec', [])
        orig = len(rec)
        rep_ok = False
        if best_res['st']['rec_overflow'] == 0 and cls != 'hang':
            r = w.run(seed, best_case, rec, timeout=to)
            rep_ok = bad(r) and r['cls'] == cls
        if rep_ok:
            def t2(items):
                tested[0] += 1
                r = w.run(seed, best_case, items, timeout=min(to, 30))
                return bad(r) and r['cls'] == cls
            rec = ddmin(rec, t2, deadline)
    finally:
        w.close()
    final = fresh(best_case, rec if rep_ok else None) if cls != 'hang' else r2
    if not (bad(final) and final['cls'] == cls):
        best_case, rep_ok, rec = case, False, None
        final = fresh(case)
        if not (bad(final) and final['cls'] == cls):
            return None, 'minimised run did not reproduce'
    path = write_replay(prop, mod, seed, best_case, rec if rep_ok else None, final,
                        {'case_before': len(json.dumps(case)), 'case_after': len(json.dumps(best_case)), 'decisions_before': orig, 'decisions_after': len(rec or []) if rep_ok else orig, 'runs': tested[0]})
    return path, final


def replay(path, scratch, core):
    d = json.load(open(path))
    mod = importlib.import_module(d['workload'])
    w = Worker(d['workload'], core, scratch)
    try:
        r = w.run(d['seed'], d['case'], d['decisions'], timeout=getattr(mod, 'TIMEOUT', 60) * 2)
    finally:
        w.close()
    print('replay: verdict=%s class=%s hash=%s (recorded class=%s hash=%s)\n%s' % (r['verdict'], r.get('cls'), r['hash'], d['violation']['class'], d['violation']['hash'], r.get('msg', '')))
    if bad(r):
        print(r.get('log', ''))
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--secs', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--nobuild', action='store_true')
    ap.add_argument('--one', type=int, help='run only case number N, print the result')
    ap.add_argument('--keep-going', action='store_true', help='development: report every failing seed, no minimisation')
    ap.add_argument('--seed', type=int)
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    tier = 'thorough' if a.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    vseed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    if not a.nobuild:
        try:
            b = simbuild.build(pfv=prop in PFV)
        except simbuild.Fail as e:
            sys.stderr.write('BUILD FAILED: %s\n' % e)
            return 3
    else:
        b = {'rebuilt': 0}
    tb = time.time() - t0
    for d in ('home', 'tmp', 'home/.yade'):
        os.makedirs(B + '/' + d, exist_ok=True)
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else B + '/tmp'
    scratch = tempfile.mkdtemp(prefix='ysim', dir=base)
    cores = sorted(os.sched_getaffinity(0))[:8]
    try:
        if a.replay:
            return replay(a.replay, scratch, cores[0])
        mod = importlib.import_module(prop.lower())
        cfg = mod.BUDGET[tier]
        nruns, secs = a.runs or cfg[0], a.secs or cfg[1]
        known = load_known(prop)
        if a.one is not None:
            seed, case = case_for(mod, prop, vseed, a.one, tier)
            w = Worker(mod.__name__, cores[0], scratch)
            print(json.dumps(case))
            r = w.run(seed, case, timeout=getattr(mod, 'TIMEOUT', 60))
            r.pop('orec', None)
            log = r.pop('log', '')
            msg = r.pop('msg', '')
            print(r, '\n', msg, '\n', log)
            w.close()
            return 0
        if a.keep_going:
            return keep_going(prop, tier, vseed, mod, scratch, nruns, secs, cores, known)
        s = Search(prop, tier, vseed, mod, scratch)
        status, viol = 0, 0
        unrep = []
        while True:
            f = s.go(nruns, secs, known, cores)
            if not f:
                break
            i, (seed, case, res) = f
            print('run %d (seed %d) failed: %s: %s' % (i, seed, res['cls'], (res.get('msg') or '')[:2000]))
            if res['verdict'] == 'error' and res['cls'] == 'simulator':
                sys.stderr.write('the simulator failed: %s\n' % res.get('msg'))
                return 4
            path, fin = report(prop, tier, mod, seed, case, res, scratch, cores[0], 60 if tier == 'quick' else 240)
            if path:
                print('%s: %s' % (fin['cls'], (fin.get('msg') or '')[:2000]))
                print('VIOLATION property=%s replay=%s' % (prop, path))
                status, viol = 1, 1
                break
            print('that run could not be reproduced in a fresh process (%s), searching on' % fin)
            unrep.append(f)
        if unrep and not status:
            # violations were seen, but something outside of the simulator's control was part of them
            i, (seed, case, res) = unrep[0]
            path = write_replay(prop, mod, seed, case, res.get('orec'), res, {'reproduced': False})
            print('VIOLATION property=%s replay=%s' % (prop, path))
            status, viol = 1, 1
        for k in known:
            if k['id'] in s.known_hits or not k.get('must_reproduce', False):
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        wall = time.time() - t0
        cov = {'evaluations': s.runs, 'distinct_nontrivial': len(s.nontrivial), 'rule': mod.RULE + ' A run is one simulated execution of one generated case under one seeded schedule; non-trivial: at least one oracle evaluation and at least one non-default scheduling, clock, fault or workload decision; distinct: by the hash of the whole decision/switch trace.',
               'samples': s.samples, 'oracle_evaluations': s.agg['evals'], 'runs_per_hour': int(s.runs / max(s.wall, 1e-9) * 3600), 'seeds': 'sha256(%s/%d/i), i<%d' % (prop, vseed, nruns), 'seeds_completed': s.runs,
               'simulated_seconds': s.st['simns'] / 1e9, 'thread_switches': s.st['switches'], 'memory_access_preemptions': s.st['preempt_mem'], 'sync_point_preemptions': s.st['preempt_sync'],
               'clock_jumps': s.st['clockjumps'], 'spurious_wakeups': s.st['spurious'], 'stalled_thread_picks': s.st['stallpicks'], 'faults_injected': dict(s.faults), 'distinct_interleavings': len(s.hashes), 'distinct_outcomes': len(s.outs),
               'interleaving_measure': 'hash over (thread switched to, memory-access index, sync index) sequence and injected faults', 'probes': dict(s.probes),
               'components_real': getattr(mod, 'REAL', 'all of yade core, pkg/common, pkg/dem, python wrapper and yade python modules compiled from /repo'),
               'components_stub': getattr(mod, 'STUB', 'OpenMP runtime, pthread scheduling, clocks and sleeps (libysim)'), 'build_units_rebuilt': b['rebuilt'], 'build_s': round(tb, 1), 'search_wall_s': round(s.wall, 1)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump({'property': prop, 'tier': tier, 'seed': vseed, 'level': 'exploration', 'coverage': cov, 'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': viol}, open('%s/evidence/%s.json' % (VERIF, prop), 'w'), indent=1)
        print('%s %s: %d runs in %.0f s (%d oracle evaluations, %d distinct interleavings, %d distinct outcomes), build %.0f s: %s' % (prop, tier, s.runs, s.wall, s.agg['evals'], len(s.hashes), len(s.outs), tb, 'VIOLATED' if status else 'held'))
        zero = [p for p in getattr(mod, 'PROBES', []) if not s.probes.get(p)]
        if zero and not status:
            print('note: probes never hit: %s' % ', '.join(zero))
        return status
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def keep_going(prop, tier, vseed, mod, scratch, nruns, secs, cores, known):
    t0 = time.time()
    q = iter(range(nruns))
    lock = threading.Lock()
    out = []
    s = Search(prop, tier, vseed, mod, scratch)

    def th(core):
        w = Worker(mod.__name__, core, scratch)
        w.wait_ready()
        while time.time() - t0 < secs:
            with lock:
                i = next(q, None)
            if i is None:
                break
            seed, case = case_for(mod, prop, vseed, i, tier)
            r = w.run(seed, case, timeout=getattr(mod, 'TIMEOUT', 60))
            with lock:
                s.absorb(i, seed, case, r)
                if os.environ.get('DUMPH'):
                    print('H', i, r['hash'], file=open(os.environ['DUMPH'], 'a'))
                if bad(r) and not is_known(known, r):
                    out.append((i, r['cls'], (r.get('msg') or '')[-400:]))
        w.close()
    ts = [threading.Thread(target=th, args=(c,)) for c in cores]
    [t.start() for t in ts]
    [t.join() for t in ts]
    c = collections.Counter(o[1] for o in out)
    print('runs', s.runs, 'secs %.0f' % (time.time() - t0), 'failures', dict(c))
    print('probes', dict(s.probes), 'faults', dict(s.faults), 'evals', s.agg['evals'], 'interleavings', len(s.hashes), 'outcomes', len(s.outs))
    seen = collections.Counter()
    for i, k, m in sorted(out):
        seen[k] += 1
        if seen[k] <= (int(os.environ.get('SHOW', 4))):
            print('--', i, k, m)
    return 1 if out else 0


if __name__ == '__main__':
    sys.exit(main())
