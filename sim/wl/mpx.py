"""Distributed runs: the ranks of an MPI job as forked processes over the simulated network (mpisim.c), compared with one single process."""
import ctypes, json, math, os, sys, traceback

COM = [[False, False], [True, False], [True, True]]  # OPTIMIZE_COM, USE_CPP_MPI


def r6(x):
    return round(x, 6)


def gen_net(rng):
    """swarm: every run has its own mix of network behaviour"""
    return {'switch': rng.choice([0, .05, .3, .7]), 'delay': rng.choice([0, 0, .02, .15, .5]), 'rndv': rng.choice([0, 0, .05, .4, 1.]),
            'late': rng.choice([0, .1, .6]), 'stall': rng.choice([0, 0, .02, .1])}


def fork_ref(ctx, name, f):
    """f() in a forked process (no MPI); its result"""
    pid = os.fork()
    if pid == 0:
        try:
            json.dump(f(), open(name + '.json', 'w'))
            os._exit(0)
        except BaseException:
            open(name + '.err', 'w').write(traceback.format_exc())
            os._exit(3)
    st = os.waitpid(pid, 0)[1]
    if st:
        if os.path.exists(name + '.err'):
            ctx.fail('reference', 'the single-process run failed: ' + open(name + '.err').read()[-1500:])
        code(ctx, st, 'the single-process run')
    return json.load(open(name + '.json'))


def code(ctx, st, who):
    if os.WIFSIGNALED(st):
        import signal
        ctx.fail('crash:' + signal.Signals(os.WTERMSIG(st)).name, '%s died with signal %d' % (who, os.WTERMSIG(st)))
    os._exit(os.WEXITSTATUS(st))  # the simulator's own verdicts (deadlock, no progress, memory error): the message is in the shared page


def fork_ranks(ctx, n, net, limit, f):
    """f(rank) in n forked processes; the list of results"""
    from ysimlib import L
    L.ysim_mpi_setup(n, *([ctypes.c_double(net[k]) for k in ('switch', 'delay', 'rndv', 'late', 'stall')] + [ctypes.c_uint64(limit)]))
    pids = {}
    sys.stdout.flush()
    for r in range(n):
        pid = os.fork()
        if pid == 0:
            try:
                L.ysim_mpi_begin(r)
                sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'py', 'fake'))
                import __main__
                __main__.sys = sys
                res = f(r)
                json.dump(res, open('rank%d.json' % r, 'w'))
                sys.stdout.flush()
                L.ysim_mpi_end()
                os._exit(0)
            except BaseException:
                open('rank%d.err' % r, 'w').write(traceback.format_exc())
                os._exit(74)
        pids[pid] = r
    first = None
    while pids:
        pid, st = os.wait()
        r = pids.pop(pid, None)
        if st and first is None:
            first = (r, st)
            for p in pids:  # like mpirun: the others are ended
                os.kill(p, 9)
    errs = [r for r in range(n) if os.path.exists('rank%d.err' % r)]
    if errs:
        ctx.fail('rank-failed', 'rank %d: %s' % (errs[0], open('rank%d.err' % errs[0]).read()[-1500:]))
    if first:
        code(ctx, first[1], 'rank %d' % first[0])
    ctx.probe('messages', L.ysim_mpi_stat(0))
    return [json.load(open('rank%d.json' % r)) for r in range(n)]


def leftover(ctx):
    from ysimlib import L
    n = L.ysim_mpi_pending()
    if n:
        o = (ctypes.c_int * 4)()
        L.ysim_mpi_pending_info(0, o)
        return n, 'rank %d -> rank %d, tag %d, %d bytes' % tuple(o)
    return 0, ''


def state(b):
    s = b.state
    return [s.pos[0], s.pos[1], s.pos[2], s.vel[0], s.vel[1], s.vel[2], s.angVel[0], s.angVel[1], s.angVel[2]] + [s.ori[k] for k in range(4)]


def differ(a, b, tol):
    """largest deviation of two states beyond the tolerance, or None"""
    for k in range(9):
        d = abs(a[k] - b[k])
        if not d <= tol * max(1., abs(a[k]), abs(b[k])):
            return k, a[k], b[k]
    q = abs(sum(a[9 + k] * b[9 + k] for k in range(4)))
    if not abs(q - 1) < 1e-6:
        return 9, a[9:], b[9:]
