"""C08: periodic engines run in exactly the steps in which they are due, for any clock and history."""
import os
from simctx import gen_policy
BUDGET = {'quick': (20000, 25), 'thorough': (600000, 1500)}
RULE = ('Cases: 1..5 periodic engines (Python commands, some inside a parallel group, a force recorder writing a file) with random iterPeriod/virtPeriod/realPeriod/nDo/initRun/firstIterRun, and a random history of foreground and background steps, '
        'wall-clock changes between and inside steps (advancing, standing still, jumping back and forth), time-step changes, changed periods, disabled engines, resetTime, save/load; times are dyadic so that the expected firings are exact.')
PROBES = ['iter', 'virt', 'real', 'nDo-reached', 'initRun', 'firstIterRun', 'clock-back', 'clock-forward', 'clock-in-step', 'resetTime', 'reload', 'dead', 'change', 'recorder', 'fired', 'skipped', 'parallel', 'background']
STUB = 'OpenMP runtime, pthread scheduling, clocks (libysim: the wall clock moves only when the workload says so)'


def spec(rng):
    e = {'iter': rng.choice([0, 0, 1, 2, 3, 5]) if rng.random() < .7 else -3, 'virt': rng.choice([0, 0, 1, 2, 3, 5]) * .5 if rng.random() < .7 else -1., 'real': rng.choice([0, 0, 1, 2, 4, 7]) if rng.random() < .6 else -1}
    e['nDo'] = rng.choice([-1, -1, -1, 0, 1, 2, 4])
    e['init'] = rng.random() < .4
    e['first'] = rng.choice([0, 0, 0, 0, 1, 2, 5])
    return e


def generate(rng, tier):
    eng = [dict(spec(rng), kind=rng.choice(['py', 'py', 'py', 'rec', 'adv']), par=rng.random() < .15) for _ in range(rng.randint(1, 5))]
    for e in eng:
        if e['kind'] == 'adv':
            e['adv'] = rng.choice([1, 3, 40, -5])
        if e['kind'] != 'py':
            e['par'] = False
    ops = []
    for _ in range(rng.randint(2, 14)):
        k = rng.choice(['step', 'step', 'step', 'step', 'bg', 'bg', 'clock', 'clock', 'clock', 'dt', 'change', 'dead', 'resetTime', 'reload', 'file'])
        if k in ('step', 'bg'):
            ops.append([k, rng.choice([1, 1, 2, 3, 7])])
        elif k == 'clock':
            ops.append([k, rng.choice([1, 2, 4, 8, 64, -1, -10, -1000, 3600 * 64])])
        elif k == 'dt':
            ops.append([k, rng.choice([.25, .5, 1, 2])])
        elif k == 'change':
            ops.append([k, rng.randrange(8), rng.choice(['iter', 'virt', 'real', 'nDo']), rng.choice([0, 1, 2, 4, 9])])
        elif k == 'dead':
            ops.append([k, rng.randrange(8)])
        elif k == 'reload':
            ops.append([k])
        elif k == 'file':
            ops.append(['reload', rng.choice(['.yade.gz', '.xml'])])
        else:
            if rng.random() < .4:
                ops.append([k])
    ops.append(['step', 3])
    return {'threads': rng.choice([1, 2, 3]), 'pol': gen_policy(rng), 'engines': eng, 'ops': ops, 'dt': rng.choice([.25, .5, 1])}


U = 15625000  # 1/64 s


def execute(case, ctx):
    import yade.wrapper as W
    from ysimlib import L
    import __main__
    O = W.Omega()
    O.reset()
    L.ysim_clock_manual(1)
    L.ysim_clock_jump(-(L.ysim_realtime_ns() % 1000000000))
    O.dt = case['dt']
    O.bodies.append(W.Body())
    fired = []

    def hook(i):
        fired.append((O.iter, i))
        if case['engines'][i]['kind'] == 'adv':
            L.ysim_clock_jump(case['engines'][i]['adv'] * U)
            ctx.probe('clock-in-step')
    __main__.c08 = hook
    f = ctx.scratch + '/rec.txt'
    el, par = [], []
    # the wall clock is seen by the engines when they are made
    now0 = L.ysim_realtime_ns()
    M = []
    for i, e in enumerate(case['engines']):
        kw = dict(iterPeriod=int(e['iter']), virtPeriod=float(e['virt']), realPeriod=e['real'] / 64., nDo=e['nDo'], initRun=e['init'], firstIterRun=e['first'])
        if e['kind'] == 'rec':
            g = W.ForceRecorder(file=f + str(i), ids=[0], **kw)
            ctx.probe('recorder')
        else:
            g = W.PyRunner(command='import __main__; __main__.c08(%d)' % i, **kw)
        (par if e['par'] else el).append((i, g))
        M.append(dict(iter=int(e['iter']), virt=float(e['virt']), real=e['real'] * U, nDo=e['nDo'], init=e['init'], first=e['first'], vl=0., rl=now0, il=0, n=0, dead=False, runs=0, rec=[]))
        for k in ('iter', 'virt', 'real'):
            if e[k] > 0:
                ctx.probe(k)
    order = [i for i, g in el]
    if par:
        order += [i for i, g in par]
        ctx.probe('parallel')
        O.engines = [W.ForceResetter()] + [g for i, g in el] + [W.ParallelEngine([g for i, g in par])]
    else:
        O.engines = [W.ForceResetter()] + [g for i, g in el]
    del el, g

    def eng(i):
        if par:
            ip = [j for j, _ in par]
            if i in ip:
                sl = O.engines[len(O.engines) - 1].slaves
                return sl[ip.index(i)]
        return O.engines[1 + order.index(i)]

    def due(m, it, t, now):
        """the documented rule"""
        if m['first'] > 0 and m['n'] == 0:
            if it != m['first']:
                return False
            go = True
        else:
            if it < m['il']:
                m['n'] = 0
            go = (m['nDo'] < 0 or m['n'] < m['nDo']) and ((m['virt'] > 0 and t - m['vl'] >= m['virt']) or (m['real'] > 0 and now - m['rl'] >= m['real']) or (m['iter'] > 0 and it - m['il'] >= m['iter']))
            if not go:
                if m['n'] == 0:
                    m.update(vl=t, rl=now, il=it, n=1)
                    return m['init']
                return False
        m.update(vl=t, rl=now, il=it, n=m['n'] + 1)
        return True
    clk = [now0]
    par_i = [j for j, _ in par]
    del par[:]
    par = par_i and [(j, None) for j in par_i]
    state = {'it': 0, 't': 0.}

    def model_steps(n):
        out = []
        for _ in range(n):
            it, t = state['it'], state['t']
            for i in order:
                m = M[i]
                if m['dead']:
                    continue
                if due(m, it, t, clk[0]):
                    m['runs'] += 1
                    ctx.probe('fired')
                    if m['nDo'] > 0 and m['n'] == m['nDo']:
                        ctx.probe('nDo-reached')
                    if case['engines'][i]['kind'] == 'rec':
                        m['rec'].append(it)
                    else:
                        out.append((it, i))
                        if case['engines'][i]['kind'] == 'adv':
                            clk[0] += case['engines'][i]['adv'] * U
                else:
                    ctx.probe('skipped')
            state['it'] += 1
            state['t'] += O.dt
        return out

    def compare(what, want):
        serial = lambda l: [x for x in l if x[1] not in par_i]
        parl = lambda l: sorted(x for x in l if x[1] in par_i)
        ctx.check(serial(fired) == serial(want) and parl(fired) == parl(want), 'wrong-firing', lambda: '%s: periodic engines ran at (iteration, engine) %s, due were %s' % (what, fired, want))
        del fired[:]
        for i, m in enumerate(M):
            e = eng(i)
            ctx.check(e.nDone == m['n'] and e.iterLast == m['il'], 'wrong-count', lambda: '%s: engine %d has nDone=%d, iterLast=%d; expected %d, %d' % (what, i, e.nDone, e.iterLast, m['n'], m['il']))
            ctx.check(m['nDo'] <= 0 or True, 'x')
    for op in case['ops']:
        k = op[0]
        if k in ('step', 'bg'):
            want = model_steps(op[1])
            if k == 'step':
                for _ in range(op[1]):
                    O.step()
            else:
                O.run(op[1], True)
                ctx.probe('background')
            compare(op, want)
        elif k == 'clock':
            L.ysim_clock_jump(op[1] * U)
            clk[0] += op[1] * U
            ctx.probe('clock-back' if op[1] < 0 else 'clock-forward')
        elif k == 'dt':
            O.dt = op[1]
        elif k == 'change':
            i = op[1] % len(M)
            e = eng(i)
            if op[2] == 'iter':
                M[i]['iter'] = e.iterPeriod = op[3]
            elif op[2] == 'virt':
                M[i]['virt'] = e.virtPeriod = op[3] * .5
            elif op[2] == 'real':
                e.realPeriod = op[3] / 64.
                M[i]['real'] = op[3] * U
            else:
                M[i]['nDo'] = e.nDo = op[3]
            ctx.probe('change')
        elif k == 'dead':
            i = op[1] % len(M)
            M[i]['dead'] = not M[i]['dead']
            e = eng(i)
            e.dead = M[i]['dead']
            ctx.probe('dead')
        elif k == 'resetTime':
            O.resetTime()
            state.update(it=0, t=0.)
            ctx.probe('resetTime')
        elif k == 'reload':
            e = None
            if len(op) > 1:
                O.save(ctx.scratch + '/s' + op[1])
                O.load(ctx.scratch + '/s' + op[1])
            else:
                O.saveTmp('q')
                O.loadTmp('q')
            ctx.probe('reload')
    for e in case['engines']:
        if e['init']:
            ctx.probe('initRun')
        if e['first']:
            ctx.probe('firstIterRun')
    e = None
    import gc
    O.engines = []
    gc.collect()
    O.reset()
    for i, e in enumerate(case['engines']):
        if e['kind'] == 'rec':
            rows = []
            if os.path.exists(f + str(i)):
                rows = [l.split() for l in open(f + str(i))]
                rows = [int(r[0]) for r in rows if r and r[0].lstrip('-').isdigit()]
            ctx.check(rows == M[i]['rec'], 'wrong-record', lambda: 'recorder %d wrote rows for iterations %s, was due at %s' % (i, rows, M[i]['rec']))
    ctx.mix([(m['runs'], m['n'], m['il']) for m in M])
