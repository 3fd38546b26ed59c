"""C06: saving and loading are honest about disk faults: success means a complete, loadable file; a damaged file is refused; the simulation in memory survives."""
import os, json
from simctx import gen_policy
import ysc, deep
BUDGET = {'quick': (9000, 45), 'thorough': (300000, 1500)}
FORMATS = ['.yade', '.yade.gz', '.yade.bz2', '.xml', '.xml.gz', '.xml.bz2']
RULE = ('Cases: a random scene, then 1..5 operations out of: save (each of %d formats, or a memory-saved simulation written to a file) with faults on the file (open failure, ENOSPC, EIO, short writes, EINTR, failing close, a disk with only k bytes left), '
        'kill of the process after exactly k written bytes, truncation of a good file at a random byte, load with read faults (EIO, short reads, EINTR, premature end). ' % len(FORMATS))
FK = {'open': 1, 'enospc': 2, 'eio': 3, 'wshort': 4, 'reio': 5, 'rshort': 6, 'close': 7, 'eintr': 9, 'reof': 10}
SOFT = {4, 6, 9}
PROBES = ['save-ok', 'save-failed', 'save-soft-only', 'load-ok', 'load-failed', 'torn', 'torn-complete', 'disk-full', 'truncated', 'tmpToFile', 'restored-after-failure'] + ['fmt' + f for f in FORMATS]
STUB = 'OpenMP runtime, pthread scheduling, clocks (libysim); the disk: system calls on files of the run pass through a fault injector, the bytes go to a scratch directory'
TIMEOUT = 60


def generate(rng, tier):
    sc = ysc.gen_scene(rng, n=rng.choice([1, 2, 3, 5, 9, 20, 60]) if rng.random() < .9 else 150, clumps=False)
    ops = []
    for _ in range(rng.randint(1, 5)):
        k = rng.choice(['save', 'save', 'save', 'disk', 'disk', 'crash', 'crash', 'trunc', 'load', 'load', 'tmp'])
        op = {'k': k, 'fmt': rng.choice(FORMATS)}
        if k in ('save', 'tmp'):
            op['kinds'] = [f for f in ('open', 'enospc', 'eio', 'wshort', 'close', 'eintr') if rng.random() < .4]
            op['p'] = rng.choice([.02, .1, .3, 1.])
            op['budget'] = rng.choice([1, 1, 2, 5, 50])
            if op['p'] == 1. and op['budget'] > 5:
                op['budget'] = 5
        elif k == 'load':
            op['kinds'] = [f for f in ('open', 'reio', 'rshort', 'reof', 'eintr') if rng.random() < .4]
            op['p'] = rng.choice([.02, .1, .3, 1.])
            op['budget'] = rng.choice([1, 1, 2, 5])
        else:
            # position: fraction of the full size, or a distance from the end, or from the start
            op['pos'] = rng.choice([['f', rng.random()], ['f', rng.random()], ['e', rng.randint(0, 40)], ['s', rng.randint(0, 40)], ['e', rng.randint(0, 5000)], ['f', 1 - rng.random() * .02]])
        ops.append(op)
    return {'threads': 1, 'pol': {}, 'scene': sc, 'ops': ops, 'n1': rng.choice([0, 1, 5, 12]), 'limits': [400000, 150000000]}


def where(pos, size):
    if pos[0] == 'f':
        return int(pos[1] * size)
    return max(0, size - pos[1]) if pos[0] == 'e' else min(size, pos[1])


def execute(case, ctx):
    import yade.wrapper as W
    import random
    from ysimlib import L
    O = W.Omega()
    random.seed(1)
    O.reset()
    ysc.build(case['scene'], O, W)
    O.engines = list(O.engines) + [W.PyRunner(command='pass', iterPeriod=2, label='pyr')]
    if case['n1']:
        O.run(case['n1'], True)
    d0 = deep.scene(O)
    dj = json.dumps(d0, sort_keys=True)
    pre = ctx.scratch + '/cp'

    def same(what):
        d = deep.diff(d0, deep.scene(O))
        ctx.check(d is None, what[0], lambda: what[1] + ': ' + d)

    def loadable(f):
        """(in a child process, no faults) the file loads and is the simulation: '' or what is wrong"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    O.load(f)
                    m = deep.diff(d0, deep.scene(O)) or ''
                except BaseException as e:
                    m = 'refused: %s' % e
                os.write(w, m.encode()[:2000] + b'\0')
            finally:
                os._exit(0)
        os.close(w)
        b = b''
        while True:
            x = os.read(r, 4096)
            if not x:
                break
            b += x
        os.close(r)
        st = os.waitpid(pid, 0)[1]
        return b[:-1].decode() if b[-1:] == b'\0' else 'crash of the loading process (status %d)' % st

    def good(fmt):
        f = ctx.scratch + '/good' + fmt
        if not os.path.exists(f):
            O.save(f)
        return f

    good('.yade')

    def kinds(f0):
        return set(k for k in range(1, 12) if ctx.faultcount(k) > f0.get(k, 0))
    n = 0
    for op in case['ops']:
        n += 1
        fmt = op['fmt']
        ctx.probe('fmt' + fmt)
        f = '%s%d%s' % (pre, n, fmt)
        before = {k: ctx.faultcount(k) for k in range(1, 12)}
        err = None
        if op['k'] in ('save', 'disk', 'tmp'):
            sub = op['k']
            if sub == 'tmp':
                if not fmt.startswith('.yade'):
                    fmt = '.yade' + fmt[4:]
                    f = '%s%d%s' % (pre, n, fmt)
                O.saveTmp('m%d' % n)
            if sub == 'disk':
                L.ysim_io(pre.encode(), 0., 0, 0, where(op['pos'], os.path.getsize(good(fmt))))
            else:
                m = 0
                for k in op['kinds']:
                    m |= 1 << FK[k]
                L.ysim_io(pre.encode(), op['p'], m, op['budget'], -1)
            try:
                if sub == 'tmp':
                    O.tmpToFile(f, 'm%d' % n)
                else:
                    O.save(f)
            except Exception as e:
                err = str(e)
            L.ysim_io(b'', 0., 0, 0, -1)
            ks = kinds(before)
            if ks:
                ctx.probe('fault')
            if sub == 'disk' and ks:
                ctx.probe('disk-full')
            same(('save-changed-simulation', 'saving (%s, faults %s) changed the simulation in memory' % (fmt, sorted(ks))))
            if err is None:
                ctx.probe('save-ok')
                if sub == 'tmp':
                    ctx.probe('tmpToFile')
                if ks and ks <= SOFT:
                    ctx.probe('save-soft-only')
                m = loadable(f)
                ctx.check(not m, 'save-reported-success', lambda: 'O.%s to %s reported success (faults injected: %s), but the file does not hold the simulation: %s' % ('tmpToFile' if sub == 'tmp' else 'save', fmt, sorted(ks), m))
            else:
                ctx.probe('save-failed')
                ctx.check(ks - SOFT or (sub == 'disk' and ks), 'spurious-save-error', lambda: 'O.save to %s failed without a reason (%s): %s' % (fmt, sorted(ks), err))
        elif op['k'] == 'crash':
            size = os.path.getsize(good(fmt))
            at = where(op['pos'], size)
            pid = os.fork()
            if pid == 0:
                try:
                    L.ysim_io(pre.encode(), 0., 0, 0, -1)
                    L.ysim_crash_after(at)
                    O.save(f)
                finally:
                    os._exit(0)
            st = os.waitpid(pid, 0)[1]
            ctx.check(os.WIFEXITED(st), 'crash', lambda: 'the saving process died with status %d' % st)
            ctx.probe('fault')
            ctx.probe('torn' if os.WEXITSTATUS(st) == 77 else 'torn-complete')
            if os.path.exists(f):
                m = loadable(f)
                ctx.check(not m or m.startswith('refused'), 'torn-file-accepted', lambda: 'file %s cut off after %d of %d bytes by a crash was loaded: %s' % (fmt, at, size, m))
        elif op['k'] == 'trunc':
            with open(good(fmt), 'rb') as g:
                data = g.read()
            at = where(op['pos'], len(data))
            with open(f, 'wb') as g:
                g.write(data[:at])
            ctx.probe('truncated')
            ctx.probe('fault')
            try:
                O.load(f)
            except Exception as e:
                err = str(e)
            after_load(O, ctx, case, d0, err, 'file %s truncated after %d of %d bytes' % (fmt, at, len(data)), good('.yade'), same)
        elif op['k'] == 'load':
            g = good(fmt)
            os.link(g, f)
            m = 0
            for k in op['kinds']:
                m |= 1 << FK[k]
            L.ysim_io(pre.encode(), op['p'], m, op['budget'], -1)
            try:
                O.load(f)
            except Exception as e:
                err = str(e)
            L.ysim_io(b'', 0., 0, 0, -1)
            ks = kinds(before)
            if ks:
                ctx.probe('fault')
            if err is not None:
                ctx.check(ks - SOFT, 'spurious-load-error', lambda: 'O.load of an intact %s file failed without a reason (%s): %s' % (fmt, sorted(ks), err))
            after_load(O, ctx, case, d0, err, 'loading %s with read faults %s' % (fmt, sorted(ks)), good('.yade'), same)
    # life goes on
    O.run(2, True)
    ctx.check(O.iter == case['n1'] + 2, 'unusable', 'the simulation does not continue after the faults')
    O.reset()
    ctx.mix((len(case['ops']), sorted(ctx.probes)))


def after_load(O, ctx, case, d0, err, what, good, same):
    if err is None:
        ctx.probe('load-ok')
        d = deep.diff(d0, deep.scene(O))
        ctx.check(d is None, 'damaged-file-accepted', lambda: '%s: loaded without an error, but is not the simulation: %s' % (what, d))
        return
    ctx.probe('load-failed')
    # refused: what is there now is nothing or what was there before, usable, and a good file still loads
    n = len([b for b in O.bodies])
    ctx.check(n == 0 or deep.diff(d0, deep.scene(O)) is None, 'half-loaded', lambda: '%s: error reported (%s), but a part of a simulation (%d bodies) remains' % (what, err, n))
    if case['n1'] % 2:
        O.step()
    else:
        O.run(1, True)
    O.load(good)
    ctx.probe('restored-after-failure')
    same(('no-recovery', what + ': a good file loaded afterwards is not the simulation'))
