"""C07: run control. A client thread drives O.run/pause/wait/step/reset/load against the background simulation thread."""
from simctx import gen_policy
BUDGET = {'quick': (15000, 45), 'thorough': (400000, 1500)}
RULE = ('Cases: a random history (3..14 client calls: run(n), run(n,wait), run(), wait, pause, step, sleep, stopAtIter, stopAtTime, saveTmp/loadTmp, reset, resetThisScene, engine replacement) against a scene of 1..5 Python engines, some of which pause, '
        'raise, save or replace the engines at a chosen iteration; client and background thread are interleaved by the seeded scheduler, sleeping threads may be delayed arbitrarily.')
PROBES = ['run-wait', 'run-bg', 'pause-client', 'pause-loop', 'raise', 'raise-reported', 'raise-step', 'stopAtTime', 'stopAtIter', 'reset-running', 'reset-idle', 'load-running', 'load-idle', 'engines-loop', 'engines-idle', 'wait-idle', 'poll', 'step', 'wait-after-pause', 'stop-loop', 'stop-client']
REAL = 'ThreadRunner, ThreadWorker, SimulationFlow, Omega, Scene, pyOmega, PyRunner, Python interpreter and its GIL'


def generate(rng, tier):
    ops = []
    n = rng.randint(3, 14)
    for _ in range(n):
        k = rng.choice(['runw', 'runw', 'runw', 'run', 'run', 'run', 'runinf', 'wait', 'poll', 'pause', 'pause', 'step', 'step', 'sleep', 'sleep', 'stopiter', 'stoptime', 'savetmp', 'loadtmp', 'reset', 'resetthis', 'engines', 'inloop', 'inloop', 'inloop', 'inloop', 'stopbg'])
        if k in ('runw', 'run'):
            ops.append([k, rng.choice([1, 1, 2, 3, 5, 9])])
        elif k == 'runinf':
            ops.append([k])
            if rng.random() < .5:
                ops.insert(-1, ['inloop', rng.randint(0, 6), rng.choice(['pause', 'stop1', 'stop3'])])
        elif k == 'sleep':
            ops.append([k, rng.choice([0, 1e-4, 1e-3, .01])])
        elif k == 'inloop':
            ops.append([k, rng.randint(0, 6), rng.choice(['pause', 'pause', 'raise', 'raise', 'save', 'engines', 'sleep', 'stop1', 'stop2', 'stop4'])])
        elif k == 'stopiter':
            ops.append([k, rng.randint(1, 6)])
        elif k == 'stopbg':
            ops.append(['runinf'])
            ops.append(['sleep', rng.choice([0, 1e-4, 1e-3])])
            ops.append([k, rng.choice([1, 5, 30, 200])])
        elif k == 'stoptime':
            ops.append([k, rng.choice([.5, 1, 1.5, 2.25, 3.7, 5])])
        elif k == 'engines':
            ops.append([k, rng.randint(1, 5)])
        else:
            ops.append([k])
    return {'threads': rng.choice([1, 1, 2]), 'pol': dict(gen_policy(rng), wake=rng.choice([0, .05, .3]), sync=rng.choice([.02, .1, .3, .6])), 'ops': ops, 'ne': rng.randint(1, 5), 'dt': rng.choice([1e-3, .1, .3, .7]), 'limits': [400000, 60000000]}


class World(object):
    pass


def execute(case, ctx):
    import sys, time
    import yade.wrapper as W
    sys.setswitchinterval(1e-4)
    O = W.Omega()
    G = World()
    import __main__
    __main__.G = G
    G.pl_seen = 0
    G.unrep = False
    G.stopAtIter = 0
    G.t_iter = G.t_time = G.maybe = None
    G.log = []     # [engine index, engine-set generation, iter]
    G.plan = {}    # (iter) -> [action]
    G.gen = 0
    G.ne = {0: case['ne']}
    G.world = 0
    G.raised = []
    G.paused_by_loop = 0
    G.next_gen = None
    G.pending = []
    G.throwers = {}

    def runner(i, ne, gen, world):
        return W.PyRunner(command='G.hit(%d,%d,%d,%d)' % (i, ne, gen, world), iterPeriod=1, initRun=True)

    def new_engines(ne):
        G.gen += 1
        g = G.gen
        G.ne[g] = ne
        e = [runner(i, ne, g, G.world) for i in range(ne)]
        thrower = W.ForceRecorder(file='', iterPeriod=1, initRun=True, dead=True)  # raises when it runs
        G.throwers[g] = thrower
        e.insert(min(1, ne - 1) + 1, thrower)
        return e, g

    def hit(i, ne, gen, world):
        it = O.iter
        G.log.append((world, it, gen, i))
        if world != G.world:
            return
        if i == 0 and gen != G.assigned:
            G.wrong = 'iteration %d ran engine list #%d, the last one assigned to O.engines was #%d' % (it, gen, G.assigned)
        if i == min(1, ne - 1):
            acts = G.plan.pop(it, None)
            for a in acts or ():
                if a == 'pause':
                    G.paused_by_loop += 1
                    O.pause()
                elif a == 'raise':
                    G.raised.append(it)
                    G.throwers[gen].dead = False
                elif a == 'save':
                    O.saveTmp('loop')
                elif a.startswith('stop'):
                    O.stopAtIter = it + int(a[4:])
                    G.stopAtIter = G.t_iter = it + int(a[4:])
                    ctx.probe('stop-loop')
                elif a == 'sleep':
                    time.sleep(.01)
                elif a == 'engines':
                    e, g = new_engines(ne % 3 + 1)
                    O.engines = e
                    G.assigned = g
                    G.pending.append((it, g))
                    ctx.probe('engines-loop')
        G.done = (world, it, gen, i)
    G.hit = hit

    def setup():
        G.world += 1
        e, g = new_engines(case['ne'])
        O.engines = e
        G.assigned = g
        G.wrong = None
        O.dt = case['dt']
        G.plan = {}
        G.raised = []
        G.pending = []
        G.inrun = False
        G.log = []

    def check_log(upto):
        """every completed iteration ran every engine exactly once, in order, in one piece"""
        log = list(G.log)
        cur = None
        ctx.check(not G.wrong, 'stale-engines', lambda: G.wrong)
        for (w, it, gen, i) in log:
            ctx.check(w == G.world, 'stale-step', lambda: 'an engine of a scene that was reset or replaced ran at iter %d' % it)
            if cur is None or (it, gen) != (cur[0], cur[1]):
                if cur is not None:
                    ctx.check(cur[2] == G.ne[cur[1]] or (cur[0] in G.raised and gen != cur[1] and it == cur[0]), 'partial-step', lambda: 'iteration %d ran only %d of %d engines: %r' % (cur[0], cur[2], G.ne[cur[1]], log[-20:]))
                    ctx.check(it == cur[0] + 1 or cur[0] in G.raised, 'iteration-order', lambda: 'iteration %d followed by %d (failures %r): %r' % (cur[0], it, G.raised, log[-20:]))
                cur = [it, gen, 0]
            ctx.check(i == cur[2], 'engine-order', lambda: 'engine %d of %d ran out of order or twice in iteration %d: %r' % (i, G.ne[gen], it, log[-20:]))
            cur[2] += 1
        if cur:
            complete = cur[2] == G.ne[cur[1]]
            ctx.check(complete or cur[0] in G.raised, 'partial-step', lambda: 'iteration %d stopped after %d of %d engines: %r' % (cur[0], cur[2], G.ne[cur[1]], log[-20:]))
            ctx.check(upto == cur[0] + 1 or (upto == cur[0] and cur[0] in G.raised), 'iter-count', lambda: 'O.iter=%d but the last executed iteration was %d: %r' % (upto, cur[0], log[-20:]))

    def quiet(where):
        """the simulation is stopped: nothing moves any more"""
        ctx.check(not O.running, 'still-running', lambda: where + ': O.running is True')
        n, it = len(G.log), O.iter
        check_log(it)
        time.sleep(.05)
        ctx.check(len(G.log) == n and O.iter == it and not O.running, 'runs-after-stop', lambda: '%s: the simulation had stopped at iter %d, then ran on to %d (%d engine calls)' % (where, it, O.iter, len(G.log) - n))
        return it

    O.reset()
    setup()
    bg = False          # a background run has been requested and not been waited for
    paused = None       # iter read after a client pause
    saved = None
    nr = 0              # failures already reported or consumed

    def disarm():
        for t in G.throwers.values():
            t.dead = True

    def finished(start, where, threw):
        """a run that must have stopped by itself; returns nothing"""
        nonlocal nr
        it = quiet(where)
        reasons = []
        fails = G.raised[nr:]
        nr = len(G.raised)
        if fails:
            disarm()
            ctx.check(len(set(fails)) == 1, 'ran-on-after-failure', lambda: '%s: engine failures at %r in one run' % (where, fails))
            ctx.check(threw, 'exception-lost', lambda: '%s: an engine raised in iteration %d, no exception reached the caller' % (where, fails[0]))
            ctx.check(it == fails[0], 'iter-count', lambda: '%s: failed in iteration %d but O.iter=%d' % (where, fails[0], it))
            ctx.probe('raise-reported')
            return
        ctx.check(not threw, 'spurious-exception', lambda: where + ': exception although no engine failed')
        if G.pl_seen < G.paused_by_loop:
            reasons.append('loop pause')
        if paused is not None:
            ctx.check(it <= paused + 1, 'pause-ignored', lambda: '%s: O.pause() returned at iter %d, the simulation went on to %d' % (where, paused, it))
            reasons.append('client pause')
        target = tgt()
        if it == G.maybe:
            return
        if target is not None:
            ctx.check(it <= target or start >= target, 'overshoot', lambda: '%s: was to stop at %d, stopped at %d' % (where, target, it))
            if it == target:
                return
        ctx.check(reasons, 'early-stop', lambda: '%s: stopped at iter %d instead of %r' % (where, it, target))

    def tgt():
        c = [x for x in (G.t_iter, G.t_time) if x is not None]
        return min(c) if c else None

    start = 0
    stop_extra = []

    def eff_target(n):
        """first stop condition reached from now on"""
        G.t_iter = G.t_time = G.maybe = None
        if n:
            G.stopAtIter = O.iter + n
        if getattr(G, 'stopAtIter', 0) > O.iter:
            G.t_iter = G.stopAtIter
        st = O.stopAtTime
        if st > 0:
            t = O.time
            i = O.iter
            if t < st:
                while t < st and i < O.iter + 20000:
                    t += O.dt
                    i += 1
                if t >= st:
                    G.t_time = i
                    ctx.probe('stopAtTime')

    def settle(why, poll=False):
        """make the world quiescent: wait for the background run"""
        nonlocal bg, paused, nr
        if not bg:
            return
        if tgt() is None and paused is None:
            for _ in range(6):  # does it stop by itself?
                if not O.running:
                    break
                time.sleep(.002)
        if tgt() is None and paused is None and O.running:
            O.pause()
            paused = O.iter
        threw = False
        try:
            if poll:  # the client only watches O.running
                while O.running:
                    time.sleep(.003)
                threw = G.unrep = len(G.raised) > nr
                ctx.probe('poll')
            else:
                O.wait()
        except Exception:
            threw = True
        # a failure may have hit before the wait began
        finished(start, 'after O.wait() (%s)' % why, threw)
        bg, paused = False, None
        G.t_iter = G.t_time = None

    for op in case['ops']:
        k = op[0]
        if k in ('runw', 'run', 'runinf', 'step'):
            settle(k)
            start = O.iter
            G.pl_seen = G.paused_by_loop
            nr = len(G.raised)
            if k == 'step':
                threw = False
                try:
                    O.step()
                except Exception:
                    threw = True
                fails = G.raised[nr:]
                nr = len(G.raised)
                ctx.check(threw == bool(fails), 'exception-lost' if fails else 'spurious-exception', lambda: 'O.step(): engine failures %r, exception %r' % (fails, threw))
                if fails:
                    ctx.probe('raise-step')
                    disarm()
                ctx.check(O.iter == start + (0 if fails else 1), 'step-count', lambda: 'O.step() from iter %d came to %d' % (start, O.iter))
                quiet('after O.step()')
                ctx.probe('step')
                continue
            if k == 'runinf':
                eff_target(None)
                O.run()
                bg = True
                ctx.probe('run-bg')
            elif k == 'run':
                eff_target(op[1])
                O.run(op[1])
                bg = True
                ctx.probe('run-bg')
            else:
                eff_target(op[1])
                threw = False
                try:
                    O.run(op[1], True)
                except Exception:
                    threw = True
                finished(start, 'after O.run(%d,wait=True)' % op[1], threw)
                G.t_iter = G.t_time = None
                ctx.probe('run-wait')
        elif k == 'wait':
            ctx.probe('wait-idle' if not bg else 'wait-after-pause' if paused is not None else 'wait')
            if bg:
                settle('wait')
            else:
                try:
                    O.wait()
                except Exception:
                    ctx.check(G.unrep, 'spurious-exception', 'idle O.wait() raised an exception')
                G.unrep = False
        elif k == 'poll':
            settle('poll', True)
        elif k == 'pause':
            O.pause()
            if bg:
                if paused is None:
                    paused = O.iter
                ctx.probe('pause-client')
        elif k == 'sleep':
            time.sleep(op[1])
        elif k == 'inloop':
            settle('inloop') if False else None
            if not bg:
                G.plan.setdefault(O.iter + op[1], []).append(op[2])
            elif op[2] in ('pause', 'sleep', 'save'):
                G.plan.setdefault(O.iter + op[1] + 1, []).append(op[2])
            ctx.probe('pause-loop' if op[2] == 'pause' else op[2])
        elif k == 'stopiter':
            settle(k)
            O.stopAtIter = O.iter + op[1]
            G.stopAtIter = O.stopAtIter
            ctx.probe('stopAtIter')
        elif k == 'stopbg':
            v = O.iter + op[1]
            if bg and G.t_iter is None and paused is None and not any(o[0] == 'inloop' and o[2].startswith('stop') for o in case['ops']):
                O.stopAtIter = v
                if O.iter < v:  # set in time: must stop there
                    G.t_iter = v
                    ctx.probe('stop-client')
                else:  # too late, or just in time
                    G.maybe = v
                G.stopAtIter = v
        elif k == 'stoptime':
            settle(k)
            v = O.time + op[1] * O.dt
            O.stopAtTime = v
            ctx.check(abs(O.stopAtTime - v) < 1e-12, 'stopAtTime-value', lambda: 'O.stopAtTime=%r reads back %r' % (v, O.stopAtTime))
        elif k == 'savetmp':
            settle(k)
            O.saveTmp('x')
            saved = (G.world, O.iter)
        elif k == 'engines':
            settle(k)
            e, g = new_engines(op[1])
            sub = O.subStep
            O.engines = e
            G.assigned = g
            ctx.check([x.command for x in O.engines if hasattr(x, 'command')] == [x.command for x in e if hasattr(x, 'command')], 'engines-readback', 'O.engines does not read back what was assigned')
            ctx.probe('engines-idle')
        elif k in ('reset', 'resetthis', 'loadtmp'):
            if k == 'loadtmp' and saved is None:
                continue
            ctx.probe(('reset' if k != 'loadtmp' else 'load') + ('-running' if bg else '-idle'))
            w0 = G.world
            G.plan = {}
            # nothing of the old world may run after the call returned
            if k == 'reset':
                O.reset()
            elif k == 'resetthis':
                O.resetThisScene()
            else:
                O.loadTmp('x')
            n = len(G.log)
            it = O.iter
            ctx.check(not O.running, 'still-running', lambda: 'O.%s() left the simulation running' % k)
            ctx.check(it == (0 if k != 'loadtmp' else saved[1]), 'restart-iter', lambda: 'O.iter=%d right after O.%s()' % (it, k))
            time.sleep(.05)
            ctx.check(len(G.log) == n and O.iter == it, 'runs-after-stop', lambda: 'engines ran after O.%s() returned' % k)
            bg, paused = False, None
            G.t_iter = G.t_time = None
            setup()
            nr = 0
            G.stopAtIter = O.stopAtIter
    settle('end')
    O.reset()
    ctx.mix([x[1:] for x in G.log])
