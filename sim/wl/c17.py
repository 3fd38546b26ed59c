"""C17: yade-batch runs every requested simulation exactly once, with its own parameters, within the cores it was given, and ends."""
import os
from simctx import gen_policy
BUDGET = {'quick': (8000, 25), 'thorough': (300000, 1200)}
RULE = ('Cases: parameter tables of 1..8 lines (descriptions, =, *, comments, blank lines, per-line threads, script, affinity, repeat counts and environment variables, no newline at the end) or lists of scripts, options for cores, lines, threads, affinity, timing, log names; '
        'jobs take random simulated time, fail, end with the normal-exit mark, cannot write their log; threads of yade-batch are stalled at any line of its source for up to 3 simulated seconds; HTTP requests (status, logs, stop) arrive meanwhile, the connections to the jobs may be refused.')
PROBES = ['table', 'scripts', 'lines', 'threads-column', 'affinity', 'overload', 'force-threads', 'count', 'timing', 'env-column', 'script-column', 'same-description', 'equals', 'star', 'no-newline', 'job-failed', 'normal-exit-mark', 'no-log', 'stalled', 'http', 'http-stop', 'http-log', 'refused', 'plots', 'randomize', 'concurrent']
REAL = 'yade-batch (whole script, converted to Python 3 as the build does), TableParamReader, readParamsFromTable, Python threads'
STUB = 'the shell and the yade processes it starts (simulated jobs), HTTP server sockets (requests are given to the real handler), XML-RPC connection'
STALL = [0, .001, .2, .7, 3.]


def generate(rng, tier):
    use_table = rng.random() < .8
    c = {'threads': 1, 'pol': dict(gen_policy(rng), wake=0, clock=0, spur=0, gap=0), 'table': None, 'opts': [], 'maxJobs': rng.choice([1, 2, 3, 4, 8]), 'limits': [3000000, 400000000]}
    o = ['-j', str(c['maxJobs'])]
    if use_table:
        cols = ['a'] + [x for x in ('bb', 'c_') if rng.random() < .5]
        if rng.random() < .3:
            cols = [x + ('!' if rng.random() < .5 else '') for x in cols]
        elif rng.random() < .4:
            cols.append('description')
        sp = [x for x in ('!THREADS', '!SCRIPT', '!AFFINITY', '!COUNT', '!FOO', '!BAR') if rng.random() < .2]
        if '!THREADS' in sp and rng.random() < .3:
            sp[sp.index('!THREADS')] = '!OMP_NUM_THREADS'
        cols += sp
        rng.shuffle(cols)
        rows = []
        for i in range(rng.randint(1, 8)):
            row = []
            for h in cols:
                n = h.rstrip('!')
                if n in ('a', 'bb', 'c_'):
                    v = rng.choice([str(rng.randint(0, 99)), str(rng.randint(1, 9) / 8.), "'x%d'" % rng.randint(0, 9), 'pi', '1+%d' % rng.randint(0, 3), '*'])
                elif h == 'description':
                    v = rng.choice(['d%d' % rng.randint(0, 2), 'run-%d' % i, 'x' * rng.choice([5, 240])])
                elif h in ('!THREADS', '!OMP_NUM_THREADS'):
                    v = str(rng.choice([1, 1, 2, 3, 5, 9]))
                elif h == '!SCRIPT':
                    v = rng.choice(['one.py', 'two.py'])
                elif h == '!AFFINITY':
                    v = rng.choice(['True', 'False'])
                elif h == '!COUNT':
                    v = str(rng.choice([0, 1, 2, 3]))
                else:
                    v = rng.choice(['u', 'v7', '12'])
                if i and rng.random() < .15:
                    v = '='
                row.append(v)
            rows.append(row)
        lay = []
        for i in range(len(rows) + 1):
            while rng.random() < .2:
                lay.append(rng.choice(['#', '', '  ', '# a b c', '   # x']))
            lay.append(i)
        c['table'] = {'cols': cols, 'rows': rows, 'layout': lay, 'newline': rng.random() < .75, 'comment': rng.random() < .2}
        if rng.random() < .3:
            ls = []
            for _ in range(rng.randint(1, 3)):
                a = rng.randint(1, len(lay) + 1)
                ls.append(str(a) if rng.random() < .5 else '%d-%d' % (a, a + rng.choice([0, 0, 1, 2, 4])))
            c['lines'] = ','.join(ls)
            o += ['-l', c['lines']]
        c['script'] = None if '!SCRIPT' in cols and rng.random() < .5 else 'sim.py'
    else:
        c['scripts'] = [rng.choice(['sim.py', 'one.py', 'two.py', 'three.py']) + (rng.choice(['', '', '/1', '/2', '/5'])) for _ in range(rng.randint(1, 6))]
    c['defThreads'] = 1
    if rng.random() < .2:
        c['defThreads'] = rng.choice([1, 2, 3, 6])
        o += ['--job-threads', str(c['defThreads'])]
    for f, p in (('--force-threads', .2), ('--cpu-affinity', .25), ('--randomize', .2)):
        if rng.random() < p:
            o.append(f)
    c['timing'] = rng.choice([0, 0, 0, 0, 1, 2, 3])
    if c['timing']:
        o += ['--timing', str(c['timing'])]
    c['timingOut'] = bool(c['timing']) and rng.random() < .5
    c['logfmt'] = rng.choice(['$.@.log', '$.@.log', '$.%.log', '@.log', 'fix.log', '$.%.@.txt', 'sub/@.log' if rng.random() < .3 else '@.log'])
    o += ['--log', c['logfmt'], '--plot-update', str(rng.choice([0, 0, 1, 4])), '--plot-timeout', str(rng.choice([0, 2]))]
    c['opts'] = o
    c['jobs'] = [{'dur': rng.choice([.01, .3, .6, 1.1, 2.5, 7., 20.]), 'rc': rng.choice([0, 0, 0, 0, 256, 9, 11]), 'mark': rng.random() < .2, 'rpc': rng.choice([0, .1, .5, 50]), 'refuse': rng.random() < .2, 'plot': rng.random() < .3} for _ in range(12)]
    c['stall'] = rng.choice([0, .002, .01, .05])
    c['http'] = [[round(rng.choice([.05, .5, 1.5]) * rng.random(), 3), rng.choice(['/', '/', '/', 'log', 'log', 'script', 'table', 'askforstop', 'stop', 'plots', '/favicon.ico', '/log', '/nonsense', '/jobs/999/log']), rng.randrange(20)] for _ in range(rng.choice([0, 0, 4, 12]))]
    return c


def execute(case, ctx):
    import pickle, base64, sys, re, io, shlex, time, math, threading, logging, builtins, _thread as real_thread, types
    import yade, yade.utils, yade.config, yade.remote
    from yade import params as yparams
    import http.server, xmlrpc.client, socket
    K = ctx.check
    logging.disable(logging.CRITICAL)
    os.chdir(ctx.scratch)
    mods = os.path.dirname(os.path.dirname(os.path.abspath(yade.__file__)))
    script = os.path.join(mods, 'batch', 'yade_batch_script.py')
    T = case['table']
    # --- inputs and the model of what has to be run
    expect = []  # dicts: line, script, threads, values, env, affinity
    force, aff0, maxJobs = '--force-threads' in case['opts'], '--cpu-affinity' in case['opts'], case['maxJobs']
    count0 = case['timing']
    for f in ('sim.py', 'one.py', 'two.py', 'three.py'):
        open(f, 'w').write('print(1)\n')
    argv = ['yade-batch'] + case['opts'] + ['--disable-pynotify', '--executable', '/bin/yade-sim']
    if case['timingOut']:
        argv += ['--timing-output', 'timing.out']
    if T:
        ctx.probe('table')
        prev, descs = None, {}
        text, lineof = [], {}
        for n, x in enumerate(T['layout']):
            if isinstance(x, str):
                text.append(x)
            else:
                text.append('\t '.join(T['cols'] if x == 0 else T['rows'][x - 1]) + (' # note' if T['comment'] else ''))
                lineof[x] = n + 1
        open('params.tbl', 'w').write('\n'.join(text) + ('\n' if T['newline'] else ''))
        if not T['newline']:
            ctx.probe('no-newline')
        lines = {}
        for i, row in enumerate(T['rows']):
            row = [(prev[k] if v == '=' else v) for k, v in enumerate(row)]
            prev = row
            lines[lineof[i + 1]] = dict(zip([h if h[0] == '!' or 'description' in T['cols'] else h.rstrip('!') for h in T['cols']], row))
        if any('=' in r for r in T['rows']):
            ctx.probe('equals')
        if case.get('lines'):
            ctx.probe('lines')
            use = []
            for x in case['lines'].split(','):
                a, b = (x.split('-') + [x])[:2] if '-' in x else (x, x)
                use += [l for l in range(int(a), int(b) + 1) if l in lines]
        else:
            use = sorted(lines)
        argv += ['params.tbl'] + ([case['script']] if case['script'] else [])
        for l in use:
            r = lines[l]
            cnt = int(r['!COUNT']) if '!COUNT' in r else count0
            th = int(r.get('!THREADS', r.get('!OMP_NUM_THREADS', case['defThreads'])))
            if force:
                th = min(th, maxJobs)
            vals = {k: (None if v == '*' else eval(v, dict(math.__dict__))) for k, v in r.items() if k in ('a', 'bb', 'c_')}
            e = {'line': l, 'script': r.get('!SCRIPT', case['script']), 'threads': th, 'vals': vals, 'env': {k[1:]: r[k] for k in ('!FOO', '!BAR') if k in r}, 'aff': eval(r['!AFFINITY']) if '!AFFINITY' in r else aff0, 'runs': 0, 'want': max(cnt, 1)}
            same = [x for x in expect if x['line'] == l]
            if same:
                same[0]['want'] += e['want']
            else:
                expect.append(e)
            for k, p in (('!THREADS', 'threads-column'), ('!OMP_NUM_THREADS', 'threads-column'), ('!COUNT', 'count'), ('!FOO', 'env-column'), ('!SCRIPT', 'script-column')):
                if k in r:
                    ctx.probe(p)
            if '*' in r.values():
                ctx.probe('star')
            d = r.get('description')
            if d in descs:
                ctx.probe('same-description')
            descs[d] = 1 if d else 0
    else:
        ctx.probe('scripts')
        use = []
        argv += case['scripts']
        for i, s in enumerate(case['scripts']):
            n, _, t = s.partition('/')
            th = int(t or case['defThreads'])
            expect.append({'line': None, 'script': n, 'threads': min(th, maxJobs) if force else th, 'vals': {}, 'env': {}, 'aff': aff0, 'runs': 0, 'want': max(count0, 1)})
    for n, p in (('--randomize', 'randomize'), ('--force-threads', 'force-threads'), ('--timing', 'timing')):
        if n in case['opts']:
            ctx.probe(p)
    # --- seams
    bad, running, started, logs, alllogs = [], [], [0], {}, {}
    t0 = time.monotonic()
    total = sum(e['want'] for e in expect)
    durs = sum(case['jobs'][i % len(case['jobs'])]['dur'] for i in range(max(total, 1)))
    limit = [t0 + durs + 2. * total + 30]
    lock = real_thread.allocate_lock()
    depth = threading.local()

    def attempt(f):
        def g(*a, **k):
            try:
                return f(*a, **k)
            except (SystemExit, KeyboardInterrupt):
                raise
            except BaseException as e:
                bad.append(e)
                raise
        return g

    def tracer(frame, event, arg):
        if frame.f_code.co_filename != script:
            return None
        if event == 'line' and not getattr(depth, 'off', False):
            if case['stall'] and limit[0] < t0 + durs + 2. * total + 400:
                v = ctx.choose(len(STALL), case['stall'])
                if v:
                    ctx.probe('stalled')
                    limit[0] += 2 * STALL[v]
                    time.sleep(STALL[v])
            if frame.f_code.co_name == 'runJobs' or frame.f_code.co_name == '<module>':
                if bad:
                    raise bad[0]
                if time.monotonic() > limit[0]:
                    bad.append(None)
                    ctx.fail('never-ends', 'yade-batch still goes on after %.0f simulated seconds; jobs started %d of %d, running %r' % (time.monotonic() - t0, started[0], total, [r['cmd'] for r in running]))
        return tracer

    class Quiet(object):
        def __enter__(self):
            depth.off = True

        def __exit__(self, *a):
            depth.off = False

    class Pickles(object):  # tags are strings: pickles are bytes in Python 3 (an artefact of the conversion)
        def __enter__(self):
            self.o = pickle.dumps, pickle.loads
            d, l = self.o
            pickle.dumps = lambda x: base64.b64encode(d(x)).decode()
            pickle.loads = lambda x: l(base64.b64decode(x))

        def __exit__(self, *a):
            pickle.dumps, pickle.loads = self.o

    @attempt
    def system(cmd):
        n = started[0]
        started[0] += 1
        J = case['jobs'][n % len(case['jobs'])]
        try:
            lex = shlex.shlex(cmd, posix=True, punctuation_chars='<>')
            lex.whitespace_split, lex.commenters = True, ''
            tok = list(lex)
        except ValueError as e:
            ctx.fail('command', 'malformed command %r' % cmd)
        env = {}
        while tok and re.match(r'^\w+=', tok[0]):
            k, v = tok.pop(0).split('=', 1)
            env[k] = v
        K(tok and tok[0] == '/bin/yade-sim', 'command', lambda: 'unexpected command %r' % cmd)
        K('>' in tok[:-3] and tok[-3:] == ['2', '>', '&1'], 'command', lambda: 'the output is not redirected: %r' % cmd)
        log = tok[tok.index('>') + 1]
        args = tok[1:tok.index('>')]
        K('-x' in args and len(args) > args.index('-x') + 1, 'command', lambda: 'no -x SCRIPT in %r' % cmd)
        scr = args[args.index('-x') + 1]
        th = [int(a[10:]) for a in args if a.startswith('--threads=')]
        cores = [int(c) for a in args if a.startswith('--cores=') for c in a[8:].split(',')]
        batch = env.get('YADE_BATCH')
        K(batch is not None, 'command', lambda: 'YADE_BATCH is not set in %r' % cmd)
        # which of the requested simulations is it?
        if T:
            m = re.match(r'^params\.tbl:(-?\d+)$', batch)
            cand = [e for e in expect if m and e['line'] == int(m.group(1))]
        else:
            nt = len(cores) or (th and th[0])
            cand = sorted([e for e in expect if e['script'] == scr and batch == '' and e['threads'] == nt], key=lambda e: e['runs'] - e['want'])
        K(len(cand) > 0, 'not-requested', lambda: 'a simulation was started which was not requested: %r' % cmd)
        e = cand[0]
        e['runs'] += 1
        K(e['runs'] <= e['want'], 'run-twice', lambda: 'started %d times instead of %d: %r' % (e['runs'], e['want'], cmd))
        K(e['script'] == scr, 'wrong-script', lambda: 'line %s has to run %s: %r' % (e['line'], e['script'], cmd))
        for k, v in e['env'].items():
            K(env.get(k) == v, 'environment', lambda: 'line %s sets %s=%s: %r' % (e['line'], k, v, cmd))
        over = e['threads'] > maxJobs
        if e['aff'] and not over:
            ctx.probe('affinity')
            K(len(cores) == e['threads'] and len(set(cores)) == len(cores) and all(0 <= c < maxJobs for c in cores), 'cores', lambda: '%d cores of %d have to be assigned: %r' % (e['threads'], maxJobs, cmd))
        else:
            K(th == [e['threads']], 'threads', lambda: '%d threads were requested: %r' % (e['threads'], cmd))
        busy = sum(r['n'] for r in running)
        K(not running or busy + e['threads'] <= maxJobs, 'too-many-cores', lambda: '%d cores are in use, %d more were started, the maximum is %d: %r' % (busy, e['threads'], maxJobs, cmd))
        for r in running:
            K(not set(cores) & set(r['cores']), 'core-shared', lambda: 'cores %r are in use already (%r): %r' % (cores, r['cores'], cmd))
        if over:
            ctx.probe('overload')
        if running:
            ctx.probe('concurrent')
        K(log not in alllogs, 'log-overwritten', lambda: 'log %s is written by two jobs' % log)
        R = {'n': e['threads'], 'cores': cores, 'cmd': cmd, 'log': log, 'url': 'http://localhost:%d' % (21000 + n), 'alive': True, 'J': J, 'stop': False, 'cookie': 'ck%04d' % n}
        alllogs[log] = R
        running.append(R)
        logs[R['url']] = R
        try:
            try:
                f = open(log, 'w')
            except OSError:
                ctx.probe('no-log')
                R['rc'] = 512
                time.sleep(.01)
                return 512
            f.write("Welcome to Yade\nTCP python prompt on localhost:9000, auth cookie `%s'\n" % R['cookie'])
            f.flush()
            end = time.monotonic() + J['dur']
            told = J['rpc'] >= 50
            while time.monotonic() < end and not R['stop']:
                if not told and time.monotonic() > end - J['dur'] + J['rpc']:
                    told = True
                    f.write('XMLRPC info provider on %s\n' % R['url'])
                    f.flush()
                time.sleep(min(.2, max(.001, end - time.monotonic())))
            if T:
                with lock:
                    with Quiet(), Pickles():
                        yade.utils.readParamsFromTable(tableFileLine=batch, noTableOk=False, a=-1, bb=-2, c_=-3)
                        got = {k: getattr(yade.params.table, k) for k in ('a', 'bb', 'c_')}
                want = {'a': -1, 'bb': -2, 'c_': -3}
                want.update({k: v for k, v in e['vals'].items() if v is not None})
                K(got == want, 'wrong-parameters', lambda: 'the simulation of line %d got %r, the table says %r' % (e['line'], got, want))
            f.write('working\n')
            if J['mark']:
                f.write('Yade: normal exit.\n')
            f.close()
            R['rc'] = J['rc']
            if J['rc']:
                ctx.probe('normal-exit-mark' if J['mark'] else 'job-failed')
            return J['rc']
        finally:
            R['alive'] = False
            running.remove(R)

    class Thread(types.ModuleType):
        def __getattr__(self, n):
            return getattr(real_thread, n)

        def start_new_thread(self, fn, args=()):
            def body():
                sys.settrace(tracer)
                try:
                    fn(*args)
                except BaseException:
                    pass  # python prints the traceback and goes on
                finally:
                    sys.settrace(None)
            return real_thread.start_new_thread(body, ())

    class Proxy(object):
        def __init__(self, url, **k):
            self.R = logs.get(url)

        def _call(self):
            if self.R is None or not self.R['alive'] or self.R['J']['refuse']:
                ctx.probe('refused')
                raise ConnectionRefusedError('refused')

        def basicInfo(self):
            self._call()
            return dict(iter=10, dt=1., stopAtIter=20, speed=1., realtime=1., time=1., id='x', threads='1', numBodies=3, numIntrs=4)

        def plot(self):
            self._call()
            if not self.R['J']['plot']:
                return None
            ctx.probe('plots')
            return xmlrpc.client.Binary(b'PNG')

        def stop(self):
            self._call()
            self.R['stop'] = True
            ctx.probe('http-stop')
            return True

    class Conn(object):
        def __init__(self, req):
            self.req, self.out = req, []

        def makefile(self, mode, *a):
            return io.BytesIO(self.req)

        def sendall(self, b):
            self.out.append(b if isinstance(b, str) else bytes(b).decode('utf-8', 'replace'))
        write = sendall

        def flush(self):
            pass

        def close(self):
            pass
        closed = False

    class Server(object):
        def __init__(self, addr, handler):
            class H(handler):
                def setup(self):
                    handler.setup(self)
                    self.wfile = self.request

                def finish(self):
                    pass

                def log_message(self, *a):
                    pass
            self.H = H

        def serve_forever(self):
            for dt, what, num in case['http']:
                time.sleep(dt)
                path = what if what[0] == '/' else '/jobs/%d/%s' % (num % max(total, 1), what)
                c = Conn(('GET %s HTTP/1.0\r\n\r\n' % path).encode())
                ctx.probe('http')
                try:
                    self.H(c, ('127.0.0.1', 4), self)
                except Exception:
                    pass  # socketserver reports and goes on
                out = ''.join(c.out)
                if what == 'log':
                    ctx.probe('http-log')
                try:
                    for R in list(alllogs.values()):
                        K(R['cookie'] not in out, 'cookie-shown', lambda: '%s shows the password of the console of a job' % path)
                except BaseException as e:
                    bad.append(e)

    class FakeOmega(object):
        n = [0]

        def tmpFilename(self):
            self.n[0] += 1
            return os.path.join(ctx.scratch, 'tmp%d' % self.n[0])

        def exitNoBacktrace(self, rc=0):
            raise SystemExit(rc)
    sys.modules['_thread'] = Thread('_thread')
    os.system = system
    http.server.HTTPServer = Server
    xmlrpc.client.ServerProxy = Proxy
    yade.Omega = FakeOmega
    os.environ.pop('YADE_BATCH', None)
    import random
    random.seed(5)
    ns = {'__name__': '__main__', '__file__': script, 'file': open}
    sys.argv = argv
    out, sys.stdout = sys.stdout, io.StringIO()
    err, sys.stderr = sys.stderr, io.StringIO()
    code = compile(open(script).read(), script, 'exec')
    rc, exc = None, None
    try:
        sys.settrace(tracer)
        exec(code, ns)
    except SystemExit as e:
        rc = e.code
    except BaseException as e:
        exc = e
    finally:
        sys.settrace(None)
        text, sys.stdout, sys.stderr = sys.stdout.getvalue(), out, err
    bad = [b for b in bad if b is not None] or bad
    if bad and bad[0] is not None:
        raise bad[0]
    if exc is not None:
        from simctx import Violation
        if isinstance(exc, Violation):
            raise exc
        if use == [] and T:
            return
        import traceback
        ctx.fail('batch-failed', 'yade-batch %s: %s' % (' '.join(argv[1:]), ''.join(traceback.format_exception_only(type(exc), exc)).strip()))
    # let the threads which still write the last summary come to their end
    time.sleep(20)
    if bad and bad[0] is not None:
        raise bad[0]
    for e in expect:
        K(e['runs'] == e['want'], 'not-run', lambda: 'line %s (%s) was run %d times instead of %d' % (e['line'], e['script'], e['runs'], e['want']))
    for j in ns['jobs']:
        R = alllogs[j.log]
        K(j.status == 'DONE', 'unfinished', lambda: 'job %d is %s at the end' % (j.num, j.status))
        for n in re.findall(r'href="jobs/(\d+)/', j.hrefCommand):
            K(int(n) == j.num, 'link', lambda: 'job %d links to job %s: %s' % (j.num, n, j.hrefCommand))
        if os.path.exists(j.log):
            s = open(j.log).read()
            ok = R['rc'] == 0 or R['J']['mark']
            want = 'status  : %d (%s)' % (0 if ok else R['rc'], 'OK' if ok else 'FAILED')
            K(s.count('JOB SUMMARY') == 1 and want in s and 'working' in s, 'summary', lambda: 'log of job %d, which ended with status %d: %r' % (j.num, R['rc'], s[-400:]))
    if case['timingOut'] and use and exc is None:
        ns['out'].flush()
        rows = [l.split('\t') for l in open('timing.out') if not l.startswith('#')]
        got = {int(r[0]): int(r[1]) for r in rows}
        if T:
            K(got == {e['line']: e['want'] for e in expect}, 'timing', lambda: 'the timing table has %r' % got)
    ctx.mix((sorted((e['line'] or 0, e['script'], e['runs']) for e in expect), len(alllogs)))
