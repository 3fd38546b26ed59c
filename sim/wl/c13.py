"""C13: a simulation split over MPI ranks evolves as the same simulation in one process does."""
import os, sys
import mpx
from mpx import r6
BUDGET = {'quick': (4000, 40), 'thorough': (200000, 1500)}
MULTIPROCESS = True
TIMEOUT = 90
TOL = 1e-7
RULE = ('Cases: 3..30 spheres (1D rows, 2D sheets, 3D clusters) with a floor, a moving plate or a dynamic box kept by the master, 2..6 ranks, subdomains assigned by slices, interleaved or at random, both implementations (mpy, mpf), '
        'all communication modes, ghost bodies erased or kept, runs without and with merge/split at collider updates, merges between runs, velocities changed on the master between merge and split.  '
        'Network decisions per run: message delays, buffered or synchronous sends, receive buffers filled late, stalled ranks, which rank runs next.')
PROBES = ['mpy', 'mpf', 'com0', 'com1', 'com2', 'run', 'merge', 'paused', 'merged', 'ghosts', 'wallforce', 'moving', 'dynamic', 'messages', 'kick', 'friction']
REAL = 'yade core, pkg/common, pkg/dem, core/Subdomain, python wrapper, py/mpy.py and py/mpf.py from /repo, one process per rank'
STUB = 'MPI library and mpi4py (mpisim.c and sim/py/fake: messages reliable and non-overtaking per sender, receiver and tag, nothing else promised), clocks'


def generate(rng, tier):
    n = rng.choice([2, 2, 3, 3, 4, 5, 6])
    nb = rng.choice([3, 5, 8, 12, 20, 30])
    if nb < n - 1:
        nb = n + 2
    shape = rng.choice(['row', 'sheet', 'sheet', 'cluster'])
    d = 1.
    sp = rng.choice([.97, 1., 1.1])
    k = nb if shape == 'row' else int(nb ** .5 + .999) if shape == 'sheet' else int(nb ** (1 / 3.) + .999)
    dims = {'row': (nb, 1, 1), 'sheet': (k, k, 1), 'cluster': (k, k, k)}[shape]
    cells = [(i, j, l) for i in range(dims[0]) for j in range(dims[1]) for l in range(dims[2])][:nb]
    v = rng.choice([.5, 3., 10.])
    bodies = []
    for c in cells:
        bodies.append([r6(c[a] * sp + rng.uniform(-.03, .03) + (.02 * c[1] if a == 0 else 0)) for a in range(3)] + [r6(.5 * rng.uniform(.9, 1.))] + [r6(rng.uniform(-v, v)) for _ in range(3)])
    mode = rng.choice(['slice', 'slice', 'inter', 'random', 'lone'])
    w = n - 1
    if mode == 'slice':
        ax = rng.choice([0, 0, 1])
        o = sorted(range(nb), key=lambda i: bodies[i][ax])
        sd = [0] * nb
        for p, i in enumerate(o):
            sd[i] = 1 + p * w // nb
    elif mode == 'inter':
        sd = [1 + i % w for i in range(nb)]
    elif mode == 'lone':  # one body each, the last worker has the rest
        sd = [min(i + 1, w) for i in range(nb)]
    else:
        sd = list(range(1, w + 1)) + [rng.randint(1, w) for _ in range(nb - w)]
        rng.shuffle(sd)
    masterspheres = []
    if rng.random() < .15:  # the master keeps ordinary bodies of its own, too
        masterspheres = [i for i in range(nb) if sd.count(sd[i]) > 1 and rng.random() < .2][:3]
    c = {'n': n, 'bodies': bodies, 'sd': sd, 'mod': rng.choice(['mpy', 'mpf']), 'com': rng.choice([0, 1, 2, 2]), 'erase': rng.random() < .7, 'net': mpx.gen_net(rng),
         'floor': rng.choice(['none', 'box', 'box', 'moving', 'dynamic']), 'wallfirst': rng.random() < .5, 'verlet': rng.choice([.01, .05, .2]), 'g': rng.choice([0, 10, 100]),
         'dt': rng.choice([1e-4, 1e-3]), 'friction': 0, 'threads': 1, 'pol': {}, 'limits': [4000000, 3000000000], 'master': masterspheres}
    for i in masterspheres:
        if sd.count(sd[i]) > 1:
            sd[i] = 0
    if rng.random() < .4:
        c['ops'] = [['run', rng.choice([1, 3, 10, 40]), False]]
        c['friction'] = rng.choice([0, .5])
    else:
        c['ops'] = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            # a run without merge/split is only for a freshly split scene
            c['ops'].append(['run', rng.choice([1, 2, 5, 15, 40]), rng.random() < .7 or bool(c['ops']) and c['ops'][-1][0] == 'run'])
            if rng.random() < .5:
                c['ops'].append(['merge'])
                if rng.random() < .5:
                    c['ops'].append(['kick', rng.randrange(nb), [r6(rng.uniform(-v, v)) for _ in range(3)]])
            elif not c['ops'][-1][2]:
                c['ops'].append(['merge'])
    if rng.random() < .7:
        c['ops'].append(['merge'])
    return c


def build(O, W, utils, case, mpi):
    O.reset()
    mat = O.materials.append(W.FrictMat(young=1e6, poisson=.3, frictionAngle=case['friction'], density=1000))
    ids = {}

    def wall():
        f = case['floor']
        if f == 'none':
            return
        i = O.bodies.append(utils.box((0, -.75, 0), (50, .25, 50), fixed=True, material=mat))
        b = O.bodies[i]
        if f == 'moving':
            b.state.vel = (0, 2., 0)
        elif f == 'dynamic':
            b.state.mass = 20.
            b.state.inertia = (5, 5, 5)
            b.state.blockedDOFs = 'xzXYZ'
            b.state.vel = (0, 1., 0)
        ids['wall'] = i
    if case['wallfirst']:
        wall()
    ids['s'] = []
    for k, q in enumerate(case['bodies']):
        i = O.bodies.append(utils.sphere(q[:3], q[3], material=mat))
        O.bodies[i].state.vel = q[4:7]
        if mpi and case['sd']:
            O.bodies[i].subdomain = case['sd'][k]
        ids['s'].append(i)
    if not case['wallfirst']:
        wall()
    O.engines = [W.ForceResetter(), W.InsertionSortCollider([W.Bo1_Sphere_Aabb(), W.Bo1_Box_Aabb()], verletDist=case['verlet'], label='collider'),
                 W.InteractionLoop([W.Ig2_Sphere_Sphere_ScGeom(), W.Ig2_Box_Sphere_ScGeom()], [W.Ip2_FrictMat_FrictMat_FrictPhys()], [W.Law2_ScGeom_FrictPhys_CundallStrack()]),
                 W.NewtonIntegrator(gravity=(0, -case['g'], 0), damping=0, label='newton')]
    O.dt = case['dt']
    O.trackEnergy = False
    return ids


def snapshot(O, ids, mine=None):
    r = {'iter': O.iter, 'time': O.time, 'st': {}}
    for k, i in enumerate(ids['s'] + ([ids['wall']] if 'wall' in ids else [])):
        b = O.bodies[i]
        if b is None or (mine is not None and b.subdomain != mine):
            continue
        r['st'][str(k)] = mpx.state(b)
        if mine == 0 and not r.get('nof'):
            r.setdefault('f', {})[str(k)] = list(O.forces.f(i)) + list(O.forces.t(i))
    return r


def rank(case, r):
    import yade, yade.wrapper as W, yade.utils as utils
    import importlib
    mp = importlib.import_module('yade.' + case['mod'])
    O = mp.O
    import __main__
    __main__.O = O
    mp.OPTIMIZE_COM, mp.USE_CPP_MPI = mpx.COM[case['com']]
    mp.ERASE_REMOTE = case['erase']
    mp.YADE_TIMING = False
    mp.ACCUMULATE_FORCES = True
    if 'ndim' in case:
        mp.NDIM, mp.REASSIGN_SUBDOMAINS = case['ndim'], case['reassign']
    ids = build(O, W, utils, case, True) if r == 0 else None
    nb = len(case['bodies'])
    if r > 0:  # the ids of the bodies are the same everywhere, the bodies come from the master
        off = 1 if case['wallfirst'] and case['floor'] != 'none' else 0
        ids = {'s': [off + k for k in range(nb)]}
        if case['floor'] != 'none':
            ids['wall'] = 0 if off else nb
    out = []
    for op in case['ops']:
        rec = {'op': op}
        if op[0] == 'run':
            rec['before'] = O.iter
            mp.mpirun(op[1], op[2])
            rec['mine'] = snapshot(O, ids, r)
            rec['ghosts'] = {}
            if r > 0:
                for src, l in enumerate(O.subD.mirrorIntersections):
                    if src != r:
                        for i in l:
                            b = O.bodies[i]
                            if b is not None and not b.isSubdomain:
                                k = ids['s'].index(i) if i in ids['s'] else nb
                                rec['ghosts'][str(k)] = mpx.state(b)
        elif op[0] == 'merge':
            mp.mergeScene()
            if r == 0:
                rec['merged'] = snapshot(O, ids)
        elif op[0] == 'kick' and r == 0:
            O.bodies[ids['s'][op[1]]].state.vel = op[2]
        out.append(rec)
    return out


def balance(case, ctx, j, owner):
    nb, w = len(case['bodies']), case['n'] - 1
    cnt = [0] * case['n']
    for k in owner:
        if int(k) < nb:
            cnt[owner[k][0]] += 1
    ctx.check(cnt[0] == 0, 'unassigned', lambda: 'after operation %d %s the master has %d spheres, it should have none' % (j, case['ops'][j], cnt[0]))
    ctx.check(max(cnt[1:]) - min(cnt[1:]) <= 1, 'unbalanced', lambda: 'after operation %d %s the workers have %s spheres' % (j, case['ops'][j], cnt[1:]))


def execute(case, ctx):
    n = case['n']
    ctx.probe(case['mod'])
    ctx.probe('com%d' % case['com'])
    if case.get('reassign'):
        ctx.probe('reassign')
    if 'ndim' in case:
        ctx.probe('workers%d' % (n - 1))
    res = mpx.fork_ranks(ctx, n, case['net'], 400000, lambda r: rank(case, r))
    # all ranks agree on where they are
    iters = []
    for j, op in enumerate(case['ops']):
        if op[0] != 'run':
            continue
        its = [res[r][j]['mine']['iter'] for r in range(n)]
        ctx.check(len(set(its)) == 1, 'ranks-disagree', lambda: 'after operation %d %s the ranks are at iterations %s' % (j, op, its))
        ts = [res[r][j]['mine']['time'] for r in range(n)]
        ctx.check(max(ts) - min(ts) < 1e-12, 'ranks-disagree', lambda: 'after operation %d %s the ranks are at times %s' % (j, op, ts))
        b = res[0][j]['before']
        if op[2]:
            ctx.check(its[0] == b + op[1], 'wrong-iter', lambda: 'mpirun(%d, mergeSplit=True) from iteration %d ended at %d' % (op[1], b, its[0]))
        else:
            ctx.check(b < its[0] <= b + op[1], 'wrong-iter', lambda: 'mpirun(%d) from iteration %d ended at %d' % (op[1], b, its[0]))
            if its[0] < b + op[1]:
                ctx.probe('paused')
        iters.append(its[0])

    def ref():
        import yade, yade.wrapper as W, yade.utils as utils
        import __main__
        O = W.Omega()
        ids = build(O, W, utils, case, False)
        out, it = [], iter(iters)
        for op in case['ops']:
            if op[0] == 'run':
                t = next(it)
                while O.iter < t:
                    O.step()
            elif op[0] == 'kick':
                O.bodies[ids['s'][op[1]]].state.vel = op[2]
            s = snapshot(O, ids)
            s['f'] = {str(k): list(O.forces.f(i)) + list(O.forces.t(i)) for k, i in enumerate(ids['s'] + ([ids['wall']] if 'wall' in ids else []))}
            s['real'] = O.interactions.countReal()
            out.append(s)
        return out
    R = mpx.fork_ref(ctx, 'ref', ref)
    nb = len(case['bodies'])
    names = ['x', 'y', 'z', 'vx', 'vy', 'vz', 'wx', 'wy', 'wz', 'orientation']
    for j, op in enumerate(case['ops']):
        ref = R[j]
        if op[0] == 'run':
            owner = {}
            for r in range(n):
                for k, s in res[r][j]['mine']['st'].items():
                    ctx.check(k not in owner, 'owned-twice', lambda: 'body %s is moved by ranks %d and %d' % (k, owner[k][0], r))
                    owner[k] = (r, s)
            for k in ref['st']:
                ctx.check(k in owner, 'body-lost', lambda: 'after operation %d %s no rank has body %s (assigned to rank %s)' % (j, op, k, '?' if not case['sd'] else case['sd'][int(k)] if int(k) < nb else 0))
                r, s = owner[k]
                df = mpx.differ(s, ref['st'][k], TOL)
                ctx.check(df is None, 'trajectory', lambda: 'after operation %d %s (iteration %d) body %s of rank %d: %s is %r, in one process %r' % (j, op, ref['iter'], k, r, names[df[0]], df[1], df[2]))
            if 'ndim' in case:
                balance(case, ctx, j, owner)
            for r in range(1, n):
                for k, s in res[r][j]['ghosts'].items():
                    ctx.probe('ghosts')
                    df = mpx.differ(s, owner[k][1], 1e-12)
                    ctx.check(df is None, 'ghost', lambda: 'after operation %d %s rank %d sees body %s of rank %d with %s=%r, there it is %r' % (j, op, r, k, owner[k][0], names[df[0]], df[1], df[2]))
            for k, f in res[0][j]['mine'].get('f', {}).items():
                g = ref['f'][k]
                sc = max(1., max(abs(x) for x in g))
                if any(g):
                    ctx.probe('wallforce')
                ctx.check(all(abs(x - y) <= 1e-6 * sc for x, y in zip(f, g)), 'master-force', lambda: 'after operation %d %s (iteration %d) the force and torque on body %s of the master is %r, in one process %r' % (j, op, ref['iter'], k, f, g))
        elif op[0] == 'merge':
            m = res[0][j]['merged']
            ctx.probe('merged')
            for k in ref['st']:
                df = mpx.differ(m['st'][k], ref['st'][k], TOL)
                ctx.check(df is None, 'merged', lambda: 'merged at iteration %d: body %s has %s=%r, in one process %r' % (ref['iter'], k, names[df[0]], df[1], df[2]))
    p, info = mpx.leftover(ctx)
    ctx.check(p == 0, 'message-not-received', lambda: '%d messages were sent and never received, the first: %s' % (p, info))
    for op in case['ops']:
        ctx.probe(op[0])
    if case['friction']:
        ctx.probe('friction')
    if case['floor'] in ('moving', 'dynamic'):
        ctx.probe(case['floor'])
    ctx.mix([s['iter'] for s in R])
