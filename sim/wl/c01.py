"""C01: every force/torque contribution of a step is counted exactly once, for any thread count and interleaving."""
from simctx import gen_policy
BUDGET = {'quick': (12000, 40), 'thorough': (400000, 1500)}
RULE = ('Cases: 3..330 bodies, 1..8 OpenMP threads, a random engine list (ForceEngine/TorqueEngine/GravityEngine/RadialForceEngine, plain or as ParallelEngine groups), and a '
        'random history of steps (foreground and background), permanent-force changes, direct additions, body insertions and removals, resets; all values are small integers so that the expected sums are exact.')
PROBES = ['big', 'parallel', 'perm', 'append', 'erase', 'background', 'small-perm-after-big', 'resetall']


def vec(rng, m=9):
    return [rng.randint(-m, m) for _ in range(3)]


def generate(rng, tier):
    big = rng.random() < .45
    nb = rng.randint(110, 330) if big else rng.randint(2, 14)
    n = nb + 12

    def ids(k=None):
        k = k or rng.randint(1, 5)
        return [rng.choice([rng.randrange(nb), rng.randrange(nb), 0, nb - 1, nb // 2]) for _ in range(k)]

    def eng():
        t = rng.choice(['F', 'F', 'F', 'T', 'T', 'G', 'R'])
        if t in 'FT':
            return [t, ids(), vec(rng)]
        if t == 'G':
            return [t, rng.choice([0, 0, 1, 2]), vec(rng)]
        return [t, ids(), rng.randint(1, 9)]
    engines = []
    nest = rng.random() < .04  # an engine which is parallel itself inside a parallel group: known finding
    for _ in range(rng.randint(1, 3)):
        if rng.random() < .75:
            engines.append(['P', rng.randint(1, 8), [[e for e in [eng() for _ in range(rng.randint(1, 3))] if e[0] != 'G' or nest] or [['F', ids(), vec(rng)]] for _ in range(rng.randint(2, 5))]])
        else:
            engines.append(eng())
    ops = []
    for _ in range(rng.randint(3, 14)):
        r = rng.random()
        if r < .4:
            ops.append(['step', rng.randint(1, 3), rng.random() < .4])
        elif r < .55:
            ops.append(['perm', rng.choice(['F', 'T']), rng.randrange(n), vec(rng)])
        elif r < .7:
            ops.append(['add', rng.choice(['F', 'T']), rng.randrange(n), vec(rng)])
        elif r < .8:
            ops.append(['append', rng.randint(1, 3)])
        elif r < .86:
            ops.append(['erase', rng.randrange(n)])
        elif r < .9:
            ops.append(['reset', rng.random() < .5])
        elif r < .95:
            ops.append(['set', rng.randrange(8), vec(rng)])
        else:
            ops.append(['dead', rng.randrange(8)])
    ops.append(['step', 1, False])
    return {'threads': rng.choice([1, 2, 2, 3, 4, 8]), 'pol': gen_policy(rng), 'nb': nb, 'engines': engines, 'ops': ops, 'sync': rng.random() < .5}


def nested(case):
    return any(e[0] == 'P' and any(x[0] == 'G' for g in e[2] for x in g) for e in case['engines'])


def postprocess(res, job):
    if res['verdict'] != 'ok' and nested(job['case']):
        res.update(verdict='violation', cls='nested-omp', msg='an engine which uses OpenMP inside a parallel group: %s: %s' % (res['cls'], res.get('msg', '')))


def execute(case, ctx):
    from yade.wrapper import Omega, Body, ForceResetter, ForceEngine, TorqueEngine, GravityEngine, RadialForceEngine, ParallelEngine, Sphere, State
    from minieigen import Vector3
    O = Omega()
    O.reset()
    O.dt = 1e-3
    Z = Vector3(0, 0, 0)

    def newbody():
        b = Body()
        b.shape = Sphere(radius=1)
        b.state.mass = 1 + (len(O.bodies) % 3)
        b.mask = 1 + (len(O.bodies) % 2)
        b.dynamic = True
        k = len(O.bodies)
        b.state.pos = Vector3(3 if k % 2 else -4, 0, 0)
        O.bodies.append(b)
    for _ in range(case['nb']):
        newbody()
    if case['nb'] > 100:
        ctx.probe('big')
    flat = []

    def mk(e):
        if e[0] == 'F':
            o = ForceEngine(ids=e[1], force=Vector3(*e[2]))
        elif e[0] == 'T':
            o = TorqueEngine(ids=e[1], moment=Vector3(*e[2]))
        elif e[0] == 'G':
            o = GravityEngine(gravity=Vector3(*e[2]), mask=e[1])
        else:
            o = RadialForceEngine(ids=e[1], fNorm=e[2], axisPt=Vector3(0, 0, 0), axisDir=Vector3(0, 0, 1))
        flat.append([e, o])
        return o
    el = [ForceResetter()]
    for e in case['engines']:
        if e[0] == 'P':
            p = ParallelEngine([[mk(x) for x in g] for g in e[2]])
            p.ompThreads = e[1]
            el.append(p)
            ctx.probe('parallel')
        else:
            el.append(mk(e))
    O.engines = el
    # reference: plain sums
    f, t, pf, pt = {}, {}, {}, {}
    alive = lambda i: 0 <= i < len(O.bodies) and O.bodies[i] is not None

    def model_step():
        f.clear()
        t.clear()
        for e, o in flat:
            if o.dead:
                continue
            if e[0] == 'F':
                for i in e[1]:
                    if alive(i):
                        f[i] = f.get(i, Z) + Vector3(*e[2])
            elif e[0] == 'T':
                for i in e[1]:
                    if alive(i):
                        t[i] = t.get(i, Z) + Vector3(*e[2])
            elif e[0] == 'G':
                for i in range(len(O.bodies)):
                    b = O.bodies[i]
                    if b is not None and (e[1] == 0 or (b.mask & e[1])):
                        f[i] = f.get(i, Z) + Vector3(*e[2]) * b.state.mass
            else:
                for i in e[1]:
                    if alive(i):
                        f[i] = f.get(i, Z) + Vector3(1 if i % 2 else -1, 0, 0) * e[2]

    def compare(what):
        for sync in ((True, False) if case['sync'] else (False, True)):
            for i in range(len(O.bodies)):
                if O.bodies[i] is None:
                    continue
                for nm, get, d, p in (('force', O.forces.f, f, pf), ('torque', O.forces.t, t, pt)):
                    want = d.get(i, Z) + p.get(i, Z)
                    got = get(i, sync)
                    ctx.check(got == want, 'wrong-' + nm, lambda: 'after %s: %s of body %d (sync=%s) is %s, the contributions sum to %s' % (what, nm, i, sync, got, want))
        for i in range(len(O.bodies)):
            if O.bodies[i] is not None:
                ctx.check(O.forces.permF(i) == pf.get(i, Z), 'wrong-perm', lambda: 'after %s: permanent force of body %d is %s, set to %s' % (what, i, O.forces.permF(i), pf.get(i, Z)))
                ctx.check(O.forces.permT(i) == pt.get(i, Z), 'wrong-perm', lambda: 'after %s: permanent torque of body %d is %s, set to %s' % (what, i, O.forces.permT(i), pt.get(i, Z)))
    for op in case['ops']:
        k = op[0]
        if k == 'step':
            for _ in range(op[1]):
                model_step()
            if op[2]:
                ctx.probe('background')
                O.run(op[1], True)
            else:
                for _ in range(op[1]):
                    O.step()
        elif k == 'perm':
            if not alive(op[2]):
                continue
            ctx.probe('perm')
            if max(list(pf) + [0]) > op[2] + 100:
                ctx.probe('small-perm-after-big')
            (O.forces.setPermF if op[1] == 'F' else O.forces.setPermT)(op[2], Vector3(*op[3]))
            (pf if op[1] == 'F' else pt)[op[2]] = Vector3(*op[3])
        elif k == 'add':
            if not alive(op[2]):
                continue
            (O.forces.addF if op[1] == 'F' else O.forces.addT)(op[2], Vector3(*op[3]))
            d = f if op[1] == 'F' else t
            d[op[2]] = d.get(op[2], Z) + Vector3(*op[3])
        elif k == 'append':
            ctx.probe('append')
            for _ in range(op[1]):
                newbody()
        elif k == 'erase':
            if alive(op[1]) and sum(1 for b in O.bodies if b) > 1:
                ctx.probe('erase')
                O.bodies.erase(op[1])
                for d in (f, t, pf, pt):
                    d.pop(op[1], None)
                O.forces.setPermF(op[1], Z)  # the slot of an erased body may keep its permanent force: not part of the property
        elif k == 'reset':
            O.forces.reset(op[1])
            f.clear()
            t.clear()
            if op[1]:
                ctx.probe('resetall')
                pf.clear()
                pt.clear()
        elif k == 'set' and flat:
            e, o = flat[op[1] % len(flat)]
            if e[0] == 'F':
                e[2] = op[2]
                o.force = Vector3(*op[2])
        elif k == 'dead' and flat:
            o = flat[op[1] % len(flat)][1]
            o.dead = not o.dead
        compare(op)
    ctx.mix(sorted((i, tuple(v)) for i, v in f.items()))
