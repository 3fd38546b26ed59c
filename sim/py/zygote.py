"""Worker: imports yade once under libysim, then forks one fresh process per simulated run.

Protocol: 8-byte little-endian job numbers on stdin; job N is DIR/N.job (N with 8 digits: allocation sizes must not depend on it) (JSON), its decision list (replay) DIR/N.rec,
the result is DIR/N.res (JSON, atomically renamed) and the job number is echoed on fd 3.
"""
import os, sys, time
D = sys.argv[1]
WL = sys.argv[2]
out_fd = int(sys.argv[3])
core = int(sys.argv[4])
try:
    os.sched_setaffinity(0, {core})
except OSError:
    pass
import json, random, importlib, signal, traceback, select, shutil, resource, ctypes
import ysimlib, simctx
from ysimlib import L
wl = importlib.import_module(WL)
NEEDS = getattr(wl, 'IMPORTS', ['yade'])
for so in getattr(wl, 'PRELOAD', []):
    ctypes.CDLL(os.environ['YSIM_BUILD'] + '/' + so, mode=ctypes.RTLD_GLOBAL)  # a plugin: its classes register themselves when it is loaded
if 'yade' in NEEDS:
    import yade, yade.utils, yade.wrapper
    import vp_iter
    vp_iter.patch()
if hasattr(wl, 'prepare'):
    wl.prepare()
P, S = ysimlib.new_shared()
import gc
gc.collect()
gc.freeze()


def child(n, job):
    scratch = job['scratch']
    lf = os.open(D + '/%08d.log' % n, os.O_CREAT | os.O_TRUNC | os.O_WRONLY, 0o600)
    os.dup2(lf, 1)
    os.dup2(lf, 2)
    if not getattr(wl, 'MULTIPROCESS', False):
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    os.chdir(scratch)
    ctx = simctx.Ctx(scratch)
    case = job['case']
    random.seed(job['seed'])
    res = {'verdict': 'ok'}
    if job.get('rec'):
        L.ysim_replay_file((D + '/%08d.rec' % n).encode())
    gc.disable()
    L.ysim_set_threads(case.get('threads', 2))
    L.ysim_start(P, job['seed'] & 0xffffffffffffffff)
    ctx.policy(case.get('pol', {}))
    lim = case.get('limits', [400000, 150000000])
    L.ysim_limits(lim[0], lim[1])
    try:
        wl.execute(case, ctx)
    except simctx.Violation as e:
        res = {'verdict': 'violation', 'cls': e.kind, 'msg': e.msg}
    except BaseException as e:
        tb = traceback.format_exc()
        res = {'verdict': 'error', 'cls': 'exception:' + type(e).__name__, 'msg': tb[-1500:]}
    L.ysim_stop()
    res.update(evals=ctx.evals, probes=ctx.probes, out=ctx.state.hexdigest()[:16], known=ctx.known)
    with open(D + '/%08d.tmp' % n, 'w') as f:
        json.dump(res, f)
    os.rename(D + '/%08d.tmp' % n, D + '/%08d.chd' % n)
    os._exit(0)


EXITS = {71: 'deadlock', 72: 'livelock', 73: 'memory-error', 79: 'simulator'}


def manager(n):
    t0 = time.time()
    with open(D + '/%08d.job' % n) as f:
        job = json.load(f)
    job['scratch'] = D + '/s%08d' % n
    os.makedirs(job['scratch'])
    L.ysim_shared_clear(P)
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            child(n, job)
        finally:
            os._exit(99)
    pfd = os.pidfd_open(pid)
    po = select.poll()
    po.register(pfd, select.POLLIN)
    to = job.get('timeout', 60)
    r = po.poll(to * 1000)
    res = {}
    if not r:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        res = {'verdict': 'violation', 'cls': 'hang', 'msg': 'no result after %d s of real time' % to}
    else:
        st = os.waitpid(pid, 0)[1]
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        if os.path.exists(D + '/%08d.chd' % n):
            with open(D + '/%08d.chd' % n) as f:
                res = json.load(f)
            os.unlink(D + '/%08d.chd' % n)
        elif os.WIFSIGNALED(st):
            res = {'verdict': 'violation', 'cls': 'crash:%s' % signal.Signals(os.WTERMSIG(st)).name, 'msg': 'the process died with ' + signal.Signals(os.WTERMSIG(st)).name}
        else:
            c = os.WEXITSTATUS(st)
            k = EXITS.get(c, 'exit%d' % c)
            res = {'verdict': 'violation' if c in (71, 72, 73) else 'error', 'cls': k, 'msg': S.msg.decode('utf-8', 'replace')}
    if hasattr(wl, 'postprocess'):
        wl.postprocess(res, job)
    res['hash'] = '%016x' % S.hash
    res['st'] = {k: getattr(S, k) for k in 'switches syncs mems steps simns mutexblocks preempt_mem preempt_sync conflicts parallel_regions chunks threads_created spurious clockjumps stallpicks nrec rec_overflow'.split()}
    res['faults'] = {str(i): S.faults[i] for i in range(64) if S.faults[i]}
    res['wall'] = time.time() - t0
    if res['verdict'] != 'ok':
        with open(D + '/%08d.log' % n, 'rb') as f:
            f.seek(0, 2)
            f.seek(max(0, f.tell() - 3000))
            res['log'] = f.read().decode('utf-8', 'replace')
        nr = S.nrec
        with open(D + '/%08d.orec' % n, 'wb') as f:
            f.write(ctypes.string_at(P + ysimlib.Shared.rec.offset, nr * ctypes.sizeof(ysimlib.Rec)))
    shutil.rmtree(job['scratch'], ignore_errors=True)
    for e in ('.log', '.job', '.rec'):
        try:
            os.unlink(D + '/%08d%s' % (n, e))
        except OSError:
            pass
    with open(D + '/%08d.tmp' % n, 'w') as f:
        json.dump(res, f)
    os.rename(D + '/%08d.tmp' % n, D + '/%08d.res' % n)


os.write(out_fd, b'READY\n')
N = L.ysim_serve(out_fd)
try:
    manager(N)
except BaseException:
    traceback.print_exc()
finally:
    os._exit(0)
