"""C18: remote console and information server: who may run what, exactly once, and who sees the answer."""
import re
from simctx import gen_policy
BUDGET = {'quick': (6000, 25), 'thorough': (400000, 1500)}
TIMEOUT = 60
RULE = ('Cases: 1..5 clients of a simulated network (local and remote addresses, addresses used again, right and wrong cookies) send 0..7 commands each (statements, expressions, blocks, long lines, big outputs, commands which fail, are malformed, or last) '
        'politely, all at once, or cut into pieces at random places; segments are delayed, merged and split, sends are partial, receivers slow; clients leave with exit, ^D, half-closed, closed, reset or silent connections, also in the middle of a line; ports are busy; the process prints from other threads and runs a simulation meanwhile; '
        'information requests arrive in between.')
PROBES = ['local', 'remote', 'wrong-cookie', 'address-again', 'split', 'coalesced', 'partial-send', 'slow-reader', 'half-close', 'close', 'reset', 'silent', 'exit', 'eot', 'block', 'long', 'big', 'error', 'syntax', 'sleep', 'overlap', 'busy-port', 'rpc', 'rpc-stop', 'main-prints', 'delayed', 'tail']
REAL = 'py/remote.py (console, info provider, port search), yade core and wrapper'
STUB = 'sockets, listening servers and their accept loop (simulated), clocks and thread scheduling (libysim); socketserver.BaseRequestHandler and the XML-RPC dispatcher are real'
KINDS = ['print', 'print', 'expr', 'block', 'error', 'syntax', 'long', 'big', 'sleep', 'sleep', 'blank', 'iter']


def generate(rng, tier):
    n = rng.choice([1, 2, 2, 3, 4, 5])
    cl = []
    crowd = rng.random() < .35  # several clients at work at the same time
    for i in range(n):
        ip = rng.choice(['127.0.0.1'] * 6 + ['127.0.0.7', '192.168.1.5', '10.0.0.1', '127.0.1.1'])
        c = {'ip': ip, 'port': rng.choice([40000, 40001, 40000 + i * 10]), 'cookie': rng.choice(['right'] * 6 + ['wrong', 'none', 'prefix', 'empty', 'command']), 'at': round(rng.choice([0, 0, .5, 3, 20]) * rng.random(), 3),
             'cmds': [[rng.choice(KINDS), rng.randrange(1000)] for _ in range(rng.randint(0, 7))], 'mode': rng.choice(['polite', 'polite', 'all', 'pieces', 'pieces']), 'eol': rng.choice(['\n', '\n', '\r\n']),
             'end': rng.choice(['exit', 'exit', 'quit', 'eot', 'half', 'close', 'reset', 'silent']), 'cut': [rng.randrange(1, 40) for _ in range(8)], 'gap': rng.choice([0, 0, .01, .5]), 'slow': rng.choice([0, 0, 0, 1]), 'window': rng.choice([3000, 20000, 10 ** 9]), 'tail': rng.random() < .5}
        if crowd:
            c.update(ip='127.0.0.1', port=40000 + i, cookie='right', at=round(rng.random() * .5, 3), gap=0, cmds=[[rng.choice(['sleep', 'sleep', 'print', 'expr', 'block', 'error', 'big']), rng.randrange(1000)] for _ in range(rng.randint(2, 7))])
        cl.append(c)
    return {'threads': 1, 'pol': gen_policy(rng), 'limits': [3000000, 2000000000], 'clients': cl, 'busy': [rng.choice([0, 0, 1, 3]), rng.choice([0, 0, 2])], 'short': rng.choice([0, 0, .3, .9]), 'merge': rng.choice([0, .5, 1]), 'stall': rng.choice([0, .02, .1, .3]),
            'delay': rng.choice([0, .2, 2.]), 'prints': rng.choice([0, 6]), 'rpc': [[round(rng.random() * 8, 3), rng.choice(['basicInfo', 'basicInfo', 'stop', 'nothing'])] for _ in range(rng.choice([0, 0, 3, 6]))], 'run': rng.random() < .6, 'bodies': rng.randrange(4)}


def execute(case, ctx):
    import sys, time, threading, builtins, socketserver, xmlrpc.server, socket, io, os, _thread
    import yade, yade.remote as remote, yade.runtime
    K = ctx.check
    O = yade.O
    O.reset()
    import yade.wrapper as W
    from yade import utils
    for i in range(case['bodies']):
        O.bodies.append(utils.sphere((i, 0, 0), .3))
    O.engines = [W.ForceResetter(), W.NewtonIntegrator(), W.PyRunner(command='__import__("time").sleep(.05)', iterPeriod=1)]
    O.dt = 1e-6
    type(O.tags).__contains__ = lambda t, k: t.has_key(k)  # python 3: an artefact of the conversion
    src = os.path.abspath(remote.__file__)
    bad, quit = [], [False]
    log, overlap = [], [0]
    busy = set(range(9000, 9000 + case['busy'][0])) | set(range(21000, 21000 + case['busy'][1]))
    if busy:
        ctx.probe('busy-port')
    servers = {}

    class Stdout(object):
        def __init__(self):
            self.text = []

        def write(self, s):
            self.text.append(s)
            return len(s)

        def flush(self):
            pass
        encoding = 'utf-8'

    def tracer(frame, event, arg):
        if frame.f_code.co_filename != src:
            return None
        if event == 'line' and case['stall'] and ctx.choose(2, case['stall']):
            time.sleep(.003)
        return tracer

    def thread(f, *a):
        def body():
            sys.settrace(tracer)
            try:
                f(*a)
            except BaseException as e:
                if not isinstance(e, (OSError, SystemExit)):
                    bad.append(e)
            finally:
                sys.settrace(None)
        t = threading.Thread(target=body)
        t.daemon = True
        t.start()
        return t

    class Sock(object):
        """the server's end of a simulated connection"""
        def __init__(self, addr, window):
            self.addr, self.window = addr, window
            self.inq, self.out, self.read = [], '', 0  # segments (time, text); what was sent; how much of it the client has read
            self.fin = self.rst = self.closed = False
            self.cl = False
            self.calls, self.waiting = 0, False

        # client side
        def push(self, text):
            d = case['delay'] * ctx.choose(4, .3) if case['delay'] else 0
            if d:
                ctx.probe('delayed')
            t = max([time.monotonic() + d] + [x[0] for x in self.inq[-1:]])
            self.inq.append((t, text))

        # server side
        def recv(self, n=1024, *a):
            while True:
                if self.rst:
                    raise ConnectionResetError(104, 'reset')
                if self.inq and self.inq[0][0] <= time.monotonic():
                    s = self.inq.pop(0)[1]
                    while case['merge'] and self.inq and self.inq[0][0] <= time.monotonic() and ctx.choose(2, case['merge']):
                        s += self.inq.pop(0)[1]
                        ctx.probe('coalesced')
                    if len(s) > n:
                        self.inq.insert(0, (0, s[n:]))
                        s = s[:n]
                        ctx.probe('split')
                    return s
                if not self.inq and (self.fin or self.closed):
                    self.calls += 1
                    if self.calls > 200:
                        bad.append(AssertionError('endless'))
                        raise ConnectionResetError(104, 'reset')
                    return ''
                if quit[0]:
                    raise ConnectionResetError(104, 'end of the run')
                self.waiting = not self.inq
                time.sleep(.02)
                self.waiting = False

        def send(self, s, *a):
            s = s if isinstance(s, str) else bytes(s).decode()
            while len(self.out) - self.read >= self.window and not (self.rst or self.cl or quit[0]):
                ctx.probe('slow-reader')
                time.sleep(.02)
            if self.rst or self.closed or self.cl or quit[0]:
                raise BrokenPipeError(32, 'broken pipe')
            k = min(len(s), max(1, self.window - (len(self.out) - self.read)))
            if k > 1 and case['short'] and ctx.choose(2, case['short']):
                k = 1 + ctx.choose(k)
                ctx.probe('partial-send')
            self.out += s[:k]
            return k

        def sendall(self, s, *a):
            while s:
                s = s[self.send(s):]

        def makefile(self, mode='r', *a, **k):
            return File(self)

        def getpeername(self):
            return self.addr

        def fileno(self):
            return 99

        def settimeout(self, t):
            pass

        def setblocking(self, t):
            pass

        def shutdown(self, how):
            pass

        def close(self):
            self.closed = True

    class File(object):
        def __init__(self, s):
            self.s, self.b = s, ''

        def readline(self, *a):
            while '\n' not in self.b:
                d = self.s.recv(1024)
                if not d:
                    r, self.b = self.b, ''
                    return r
                self.b += d
            r, x, self.b = self.b.partition('\n')
            return r + x

        def __iter__(self):
            return iter(self.readline, '')

        def write(self, s):
            self.s.sendall(s)
            return len(s)

        def flush(self):
            pass

        def close(self):
            pass
        closed = False

    class Server(object):
        """socketserver.ThreadingTCPServer on the simulated network"""
        def __init__(self, addr, handler, *a, **k):
            if not 0 <= addr[1] <= 65535:
                raise OverflowError('port must be 0-65535')
            if addr[1] in busy:
                raise OSError(98, 'Address already in use')
            busy.add(addr[1])
            self.server_address, self.handler, self.queue, self.threads = addr, handler, [], []
            servers[addr[1]] = self

        def connect(self, s):
            self.queue.append(s)

        def serve_forever(self, *a):
            while not quit[0]:
                if self.queue:
                    s = self.queue.pop(0)
                    s.thread = thread(self.process, s)
                time.sleep(.02)

        def process(self, s):
            try:
                self.handler(s, s.addr, self)
            except Exception:
                pass  # reported by handle_error()
            finally:
                s.closed = True

    class Rpc(xmlrpc.server.SimpleXMLRPCDispatcher):
        def __init__(self, addr, *a, **k):
            if addr[1] in busy:
                raise OSError(98, 'Address already in use')
            busy.add(addr[1])
            xmlrpc.server.SimpleXMLRPCDispatcher.__init__(self, k.get('allow_none', False))
            servers[addr[1]] = self
            self.queue = []

        def serve_forever(self, *a):
            while not quit[0]:
                if self.queue:
                    q = self.queue.pop(0)
                    try:
                        q['ret'] = self._dispatch(q['method'], ())
                    except Exception as e:
                        q['exc'] = e
                    q['done'] = True
                time.sleep(.02)

    def LOG(c, k, n=0):
        log.append((c, k, n))

    def SLEEP(c, k, dt):
        log.append((c, k, 0))
        overlap[0] += 1
        if overlap[0] > 1:
            ctx.probe('overlap')
        print('<%d.%d:a>' % (c, k))
        t = time.monotonic() + dt
        while time.monotonic() < t and not quit[0]:
            time.sleep(.05)
        print('<%d.%d:b>' % (c, k))
        overlap[0] -= 1

    def command(c, k, kind, x):
        """text of the command, what has to be in the answer, argument recorded (None: nothing is executed)"""
        t = '<%d.%d:' % (c, k)
        if kind == 'print':
            return "LOG(%d,%d);print('%sp>')" % (c, k, t), [t + 'p>'], 0
        if kind == 'expr':
            return "LOG(%d,%d) or '%se>'" % (c, k, t), [t + 'e>'], 0
        if kind == 'block':
            return "for i in range(3):\n    if i==1: LOG(%d,%d)\n    print('%s%%d>'%%i)\n" % (c, k, t), [t + '%d>' % i for i in range(3)], 0
        if kind == 'error':
            return "LOG(%d,%d);raise KeyError('%sx>')" % (c, k, t), [t + 'x>'], 0
        if kind == 'syntax':
            return 'LOG(%d,%d) x y' % (c, k), [], None
        if kind == 'long':
            n = 1024 - 30 + x * 4
            return "LOG(%d,%d,len('%s'));print('%sl>')" % (c, k, 'a' * n, t), [t + 'l>'], n
        if kind == 'big':
            return "LOG(%d,%d);print('%sb>'+'b'*%d+'%sc>')" % (c, k, t, 20000 + x * 40, t), [t + 'b>' + 'b' * (20000 + x * 40) + t + 'c>'], 0
        if kind == 'sleep':
            return 'SLEEP(%d,%d,%g)' % (c, k, .1 + x % 7 * .4), [t + 'a>', t + 'b>'], 0
        if kind == 'iter':
            return "LOG(%d,%d);print('%si%%d>'%%(O.iter*0))" % (c, k, t), [t + 'i0>'], 0
        return '', [], None

    def client(ci, c, srv):
        time.sleep(c['at'])
        addr, t00 = (c['ip'], c['port']), time.monotonic()
        while any(o['s'].addr == addr and not (o['s'].closed and not o['s'].inq) for o in conns):
            if quit[0]:
                return
            time.sleep(.1)
            if time.monotonic() > t00 + 30:
                addr = (c['ip'], 41000 + ci)
        if any(o['s'].addr == addr for o in conns):
            ctx.probe('address-again')
        s = Sock(addr, c['window'])
        me = {'s': s, 'c': c, 'i': ci, 'read': '', 'sent': 0, 'delivered': False, 't': time.monotonic()}
        conns.append(me)
        srv.connect(s)
        local = c['ip'].startswith('127.0.0.')
        ctx.probe('local' if local else 'remote')
        e = c['eol']
        ck = srv.cookie
        first = {'right': ck + e, 'wrong': 'abcdef' + e, 'none': '', 'prefix': ck[:3] + e, 'empty': e, 'command': ''}[c['cookie']]
        if c['cookie'] != 'right':
            ctx.probe('wrong-cookie')
        me['ok'] = local and c['cookie'] == 'right'
        me['exp'] = []
        lines = []
        for k, (kind, x) in enumerate(c['cmds']):
            txt, answers, arg = command(ci, k, kind, x)
            me['exp'].append((k, kind, answers, arg))
            lines += [l + e for l in txt.split('\n')]
            if kind in PROBES:
                ctx.probe(kind)
        end = {'exit': 'exit' + e, 'quit': 'quit' + e, 'eot': '\x04'}.get(c['end'], '')
        if c.get('tail') and c['end'] in ('half', 'close', 'reset', 'silent'):  # leaves in the middle of a line
            ctx.probe('tail')
            end = "LOG(%d,99);print('<%d.99:t>')" % (ci, ci)

        def look():
            if not c['slow']:
                me['read'] += s.out[len(me['read']):]
            else:
                me['read'] += s.out[len(me['read']):][:400]
            s.read = len(me['read'])

        def wait(dt, until=None):
            t = time.monotonic() + dt
            while not quit[0] and not (until and until()):
                look()
                if time.monotonic() >= t or (s.closed and s.out == me['read']):
                    break
                time.sleep(.03)

        if c['mode'] == 'polite':
            wait(60, lambda: 'cookie' in me['read'])
            if first:
                s.push(first)
                wait(60, lambda: '>>> ' in me['read'])
            for l in lines:
                k = len(re.findall('>>> $|\\.\\.\\. $|>>> |\\.\\.\\. ', me['read']))
                s.push(l)
                wait(30, lambda: len(re.findall('>>> |\\.\\.\\. ', me['read'])) > k)
            if end:
                s.push(end)
        else:
            text = first + ''.join(lines) + end
            if c['mode'] == 'all':
                s.push(text)
            else:
                ctx.probe('split')
                j = 0
                while text:
                    n = c['cut'][j % len(c['cut'])] * (1 if len(text) < 3000 else 60)
                    j += 1
                    s.push(text[:n])
                    text = text[n:]
                    wait(c['gap'])
        me['delivered'] = True
        ctx.probe({'quit': 'exit', 'half': 'half-close'}.get(c['end'], c['end']))
        if c['end'] == 'half':
            s.fin = True
        elif c['end'] == 'close':
            wait(.3)
            s.fin = s.cl = True
        elif c['end'] == 'reset':
            wait(.3)
            s.rst = True
        me['left'] = time.monotonic()
        wait(1e9)
        me['done'] = True

    old = sys.stdout, sys.displayhook, sys.stderr, socketserver.ThreadingTCPServer, xmlrpc.server.SimpleXMLRPCServer, threading.excepthook
    out = Stdout()
    conns = []
    builtins.LOG, builtins.SLEEP = LOG, SLEEP
    sys.stdout, sys.stderr = out, Stdout()
    socketserver.ThreadingTCPServer, xmlrpc.server.SimpleXMLRPCServer = Server, Rpc
    hook = sys.displayhook
    start = _thread.start_new_thread
    try:
        _thread.start_new_thread = lambda f, a=(): thread(f, *a)
        remote.runServers()
        _thread.start_new_thread = start
        srv, rpc = servers.get(9000 + case['busy'][0]), servers.get(21000 + case['busy'][1])
        K(srv is not None and rpc is not None, 'ports', lambda: 'servers listen on %r instead of the first free ports from 9000 and 21000' % sorted(servers))
        K(any(('`' + srv.cookie + "'") in x for x in sys.stderr.text + out.text) and yade.runtime.cookie == srv.cookie, 'cookie', 'the cookie was not told to the user')
        if case['run']:
            O.run()
        th = [thread(client, i, c, srv) for i, c in enumerate(case['clients'])]
        t0 = time.monotonic()
        said, calls = 0, sorted(case['rpc'])
        pend, stopped = [], None

        def gone(m):
            if m['s'].closed:
                return m.get('done')
            # clients who do not leave: nothing is left to be done for them
            return m['s'].waiting and len(m['read']) == len(m['s'].out) and (m['c']['end'] == 'silent' or (m['c']['cookie'] in ('none', 'command') and m['c']['end'] not in ('close', 'reset', 'half', 'exit', 'quit')))

        def idle():
            return said >= case['prints'] and not calls and not pend and len(conns) == len(case['clients']) and all('left' in m and gone(m) for m in conns)

        quiet = 0
        while quiet < 12:
            K(not bad, 'endless-session', lambda: 'a session goes on after its client has gone: %r' % bad)
            K(time.monotonic() < t0 + 6000, 'never-ends', lambda: 'after %.0f simulated seconds there are still sessions of clients which have left: %r' % (time.monotonic() - t0, [(m['i'], m['c']['ip'], m['c']['cookie'], m['c']['end'], 'left' in m) for m in conns if not gone(m)]))
            if said < case['prints']:
                print('main %d' % said)
                ctx.probe('main-prints')
                said += 1
            while calls and calls[0][0] <= time.monotonic() - t0:
                q = {'method': calls.pop(0)[1], 'it': O.iter, 'run': O.running, 'done': False}
                ctx.probe('rpc-stop' if q['method'] == 'stop' else 'rpc')
                rpc.queue.append(q)
                pend.append(q)
            for q in [q for q in pend if q['done']]:
                pend.remove(q)
                if q['method'] == 'basicInfo':
                    K('ret' in q, 'info', lambda: 'basicInfo failed: %r' % q.get('exc'))
                    r = q['ret']
                    K(q['it'] <= r['iter'] <= O.iter and r['numBodies'] == case['bodies'] and r['dt'] == 1e-6, 'info', lambda: 'wrong information %r (iteration %d..%d)' % (r, q['it'], O.iter))
                elif q['method'] == 'stop':
                    K('ret' in q, 'info', lambda: 'stop failed: %r' % q.get('exc'))
                    stopped = time.monotonic()
                else:
                    K('exc' in q, 'info', lambda: 'unknown method answered %r' % q.get('ret'))
            K(stopped is None or not O.running or time.monotonic() < stopped + 400, 'info', 'stop() did not stop the simulation')
            quiet = quiet + 1 if idle() and overlap[0] == 0 else 0
            time.sleep(.25)
        while stopped is not None and O.running:
            K(time.monotonic() < stopped + 400, 'info', 'stop() did not stop the simulation')
            time.sleep(1)
        # faults have stopped: a well-behaved client is served
        last = len(case['clients'])
        c = {'ip': '127.0.0.1', 'port': 50000, 'cookie': 'right', 'at': 0, 'cmds': [['print', 1], ['block', 1], ['expr', 1]], 'mode': 'polite', 'eol': '\n', 'end': 'exit', 'cut': [5], 'gap': 0, 'slow': 0, 'window': 10 ** 9}
        thread(client, last, c, srv)
        t1 = time.monotonic()
        while not (len(conns) > last and conns[last].get('done')):
            K(not bad, 'endless-session', lambda: repr(bad))
            K(time.monotonic() < t1 + 3000, 'not-served', 'a new client is not served')
            time.sleep(.25)
        time.sleep(1)
        quit[0] = True
        K(sys.stdout is out and sys.displayhook is hook, 'stdout', lambda: 'the output of the process stays redirected (%r, %r)' % (sys.stdout, sys.displayhook))
    finally:
        quit[0] = True
        sys.stdout, sys.displayhook, sys.stderr, socketserver.ThreadingTCPServer, xmlrpc.server.SimpleXMLRPCServer, threading.excepthook = old
        _thread.start_new_thread = start
        O.pause()
        time.sleep(1)
    text = ''.join(out.text)
    for k in range(case['prints']):
        K('main %d' % k in text, 'stdout', lambda: 'what the process printed itself (main %d) did not get to its stdout' % k)
    K('<' not in re.sub('<[^>]*at 0x[^>]*>', '', text) or not re.search(r'<\d+\.\d+:', text), 'stdout', lambda: 'the output of a command was printed by the process')
    for m in conns:
        i, c, s = m['i'], m['c'], m['s']
        who = 'client %d (%s, cookie %s, %s, leaves with %s)' % (i, c['ip'], c['cookie'], c['mode'], c['end'])
        got = [(k, n) for a, k, n in log if a == i]
        want = [(k, arg) for k, kind, ans, arg in m['exp'] if arg is not None] if m['ok'] else []
        if not m['ok']:
            K(not got, 'not-allowed', lambda: 'commands were executed for %s: %r' % (who, got))
        K(got == want[:len(got)], 'wrong-commands', lambda: '%s: executed %r, sent %r' % (who, got, want))
        heard = m['read']
        if m['ok'] and c['end'] not in ('close', 'reset'):
            K(got == want, 'lost-commands', lambda: '%s: executed %r, sent %r' % (who, got, want))
            pos = 0
            for k, kind, ans, arg in m['exp']:
                for a in ans:
                    p = heard.find(a, pos)
                    K(p >= 0, 'answer', lambda: '%s: the answer to command %d (%s) lacks %r (in this order)' % (who, k, kind, a[:30] + a[-30:]))
                    pos = p + len(a)
            n = sum(kind == 'syntax' for k, kind, ans, arg in m['exp'])
            K(heard.count('SyntaxError') == n, 'answer', lambda: '%s: %d errors reported for %d malformed commands' % (who, heard.count('SyntaxError'), n))
        K(not any(int(x) != i for x in re.findall(r'<(\d+)\.\d+:', heard)), 'wrong-receiver', lambda: '%s got the output of other clients: %r' % (who, [x for x in re.findall(r'<(\d+)\.\d+:', heard) if int(x) != i][:3]))
        K(not re.search(r'main \d', heard), 'wrong-receiver', lambda: '%s got what the process printed' % who)
        if not c['ip'].startswith('127.0.0.'):
            K('>>>' not in heard, 'not-allowed', lambda: 'a prompt was given to %s' % who)
        if not m['ok']:
            K('>>>' not in heard, 'not-allowed', lambda: 'a prompt was given to %s' % who)
    ctx.mix((len(log), [len(m['read']) for m in conns]))
