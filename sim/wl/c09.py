"""C09: clumps are rigid bodies: consistent membership, mass and inertia of the members, motion by the sum of all member forces."""
from simctx import gen_policy
import ysc
BUDGET = {'quick': (12000, 25), 'thorough': (400000, 1500)}
RULE = ('Cases: 4..14 spheres of random sizes, some clumped, and a random history of clumping, adding bodies, clumps or members of clumps to clumps, releasing and erasing members and clumps, forces on members and clumps, kicks, runs (foreground and background, 1..6 threads, contacts with friction, gravity), save/load. '
        'After every operation membership, mass, centroid and inertia are compared with a model; in every step the motion of every clump with the sum of the forces on it and its members, and the members with a rigid motion.')
PROBES = ['clump', 'appendClumped', 'add-standalone', 'add-clump', 'add-member', 'release', 'release-refused', 'erase-member', 'erase-clump', 'erase-all', 'last-member', 'force', 'spin', 'reload', 'contacts', 'update', 'bg']


def gen_sphere(rng):
    return [ysc.r6(rng.uniform(0, 1.)) for _ in range(3)] + [ysc.r6(rng.uniform(.05, .2))] + [ysc.r6(rng.uniform(-3, 3)) for _ in range(3)]


def generate(rng, tier):
    n = rng.choice([4, 6, 9, 14])
    ops = []
    for _ in range(rng.randint(3, 20)):
        k = rng.choice(['run', 'run', 'run', 'bg', 'clump', 'clump', 'clump', 'appendClumped', 'add', 'add', 'add', 'release', 'release', 'emember', 'eclump', 'eall', 'force', 'force', 'kick', 'reload', 'update'])
        if k in ('run', 'bg'):
            ops.append([k, rng.choice([1, 1, 2, 6])])
        elif k == 'appendClumped':
            ops.append([k, [gen_sphere(rng) for _ in range(rng.randint(1, 4))]])
        elif k in ('force', 'kick'):
            ops.append([k, rng.randrange(1000), [ysc.r6(rng.uniform(-9, 9)) for _ in range(3)], [ysc.r6(rng.uniform(-3, 3)) for _ in range(3)]])
        else:
            ops.append([k, [rng.randrange(1000) for _ in range(rng.randint(1, 4))], rng.randrange(1000)])
    ops.append(['run', 2])
    return {'threads': rng.choice([1, 1, 2, 3, 6]), 'pol': gen_policy(rng), 'spheres': [gen_sphere(rng) for _ in range(n)], 'ops': ops, 'dt': rng.choice([1e-4, 1e-3]), 'verlet': rng.choice([0, .02, .2]), 'g': rng.choice([0, 0, -10])}


def execute(case, ctx):
    import yade.wrapper as W
    from yade import utils
    from minieigen import Vector3, Matrix3
    import __main__, warnings
    warnings.simplefilter('ignore')
    O = W.Omega()
    O.reset()
    O.materials.append(W.FrictMat(young=1e4, poisson=.3, frictionAngle=.5, density=1000))
    C = {}       # clump id: set of members
    B = set()    # bodies which are not clumps
    st = {'stale': set(), 'rest': set()}
    g = Vector3(0, case['g'], 0)

    def mk(s):
        b = utils.sphere(Vector3(*s[:3]), s[3])
        b.state.vel = Vector3(*s[4:7])
        return b
    for s in case['spheres']:
        B.add(O.bodies.append(mk(s)))
    O.engines = [W.ForceResetter(), W.InsertionSortCollider([W.Bo1_Sphere_Aabb()], verletDist=case['verlet']), W.InteractionLoop([W.Ig2_Sphere_Sphere_ScGeom()], [W.Ip2_FrictMat_FrictMat_FrictPhys()], [W.Law2_ScGeom_FrictPhys_CundallStrack()]),
                 W.PyRunner(command='import __main__; __main__.c09a()', iterPeriod=1, initRun=True), W.NewtonIntegrator(damping=0, gravity=g), W.PyRunner(command='import __main__; __main__.c09b()', iterPeriod=1, initRun=True)]
    O.dt = case['dt']
    bad, pre, frc = [], {}, []

    def outer(a, b):
        return Matrix3(*[a[i] * b[j] for i in range(3) for j in range(3)])

    def tensor(q, I):
        R = q.toRotationMatrix()
        return R * Matrix3(I[0], 0, 0, 0, I[1], 0, 0, 0, I[2]) * R.transpose()

    def inmember():
        return {m: c for c, ms in C.items() for m in ms}

    def check(what):
        K = ctx.check
        mem = inmember()
        ids = {b.id for b in O.bodies}
        K(ids == B | set(C), 'bodies', lambda: '%s: bodies %s, expected %s' % (what, sorted(ids), sorted(B | set(C))))
        for i in B:
            b = O.bodies[i]
            K(not b.isClump and b.isClumpMember == (i in mem) and b.isStandalone == (i not in mem) and b.clumpId == mem.get(i, -1), 'membership', lambda: '%s: body %d belongs to clump %d (member %s), expected %d' % (what, i, b.clumpId, b.isClumpMember, mem.get(i, -1)))
        for c, ms in C.items():
            b = O.bodies[c]
            K(b.isClump and set(b.shape.members.keys()) == ms, 'membership', lambda: '%s: clump %d has members %s, expected %s' % (what, c, sorted(b.shape.members.keys()), sorted(ms)))
            s = b.state
            # rigid: members where the clump says
            for m, (p, q) in b.shape.members.items():
                x = O.bodies[m].state
                d = (s.pos + s.ori * p - x.pos).norm()
                K(d < 1e-9, 'not-rigid', lambda: '%s: member %d of clump %d is %g away from its place in the clump' % (what, m, c, d))
            if c in st['stale']:
                continue
            M = sum(O.bodies[m].state.mass for m in ms)
            K(abs(s.mass - M) < 1e-9 * M, 'mass', lambda: '%s: clump %d has mass %g, its members %g' % (what, c, s.mass, M))
            X = sum((O.bodies[m].state.mass * O.bodies[m].state.pos for m in ms), Vector3.Zero) / M
            K((X - s.pos).norm() < 1e-9, 'centroid', lambda: '%s: clump %d is at %s, the centroid of its members is %s' % (what, c, s.pos, X))
            I = Matrix3.Zero
            for m in ms:
                x = O.bodies[m].state
                d = x.pos - X
                I += tensor(x.ori, x.inertia) + x.mass * (d.dot(d) * Matrix3.Identity - outer(d, d))
            J = tensor(s.ori, s.inertia)
            K((I - J).norm() < 1e-8 * max(I.norm(), 1e-9), 'inertia', lambda: '%s: clump %d has inertia %s, its members %s' % (what, c, J, I))

    def before():
        try:
            if bad:
                return
            for i, f, t in frc:
                O.forces.addF(i, f)
                O.forces.addT(i, t)
            check('iteration %d' % O.iter)
            pre.clear()
            if O.interactions.countReal():
                ctx.probe('contacts')
            for b in O.bodies:
                if not b.isClumpMember:
                    F, T = O.forces.f(b.id), O.forces.t(b.id)
                    if b.id in C:
                        for m in C[b.id]:
                            F += O.forces.f(m)
                            T += O.forces.t(m) + (O.bodies[m].state.pos - b.state.pos).cross(O.forces.f(m))
                    s = b.state
                    pre[b.id] = (Vector3(s.pos), Vector3(s.vel), Vector3(s.angVel), F, T, tensor(s.ori, s.inertia), s.mass, b.id in C and bool(b.aspherical))
        except BaseException as e:
            bad.append(e)

    def after():
        try:
            if bad:
                return
            K = ctx.check
            dt = O.dt
            for i, (x, v, w, F, T, I, m, asph) in pre.items():
                s = O.bodies[i].state
                what = 'iteration %d: %s %d' % (O.iter, 'clump' if i in C else 'body', i)
                a = F / m + g
                K((s.vel - v - a * dt).norm() < 1e-9 * (1 + v.norm() + a.norm()), 'motion', lambda: '%s: velocity %s became %s, expected %s' % (what, v, s.vel, v + a * dt))
                K((s.pos - x - s.vel * dt).norm() < 1e-9 * (1 + x.norm()), 'motion', lambda: '%s: position %s became %s with velocity %s' % (what, x, s.pos, s.vel))
                if w.norm() == 0 and (i not in C or i in st['rest']):  # from rest: only the torque counts
                    e = I.inverse() * T * dt
                    K((s.angVel - e).norm() < (1e-3 if asph else 1e-9) * (1e-6 + e.norm()), 'rotation', lambda: '%s: at rest with torque %s, angular velocity became %s, expected %s' % (what, T, s.angVel, e))
                    if T.norm() > 0:
                        ctx.probe('spin')
            for c, ms in C.items():
                s = O.bodies[c].state
                for m in ms:
                    x = O.bodies[m].state
                    v = s.vel + s.angVel.cross(x.pos - s.pos)
                    K((x.vel - v).norm() < 1e-9 * (1 + v.norm()) and (x.angVel - s.angVel).norm() < 1e-9 * (1 + s.angVel.norm()), 'not-rigid', lambda: 'iteration %d: member %d of clump %d has velocity %s, rigid motion gives %s' % (O.iter, m, c, x.vel, v))
            st['rest'].clear()
            check('iteration %d, after the integrator' % O.iter)
        except BaseException as e:
            bad.append(e)
    __main__.c09a, __main__.c09b = before, after

    def props(c):
        st['stale'].discard(c)
        st['rest'].add(c)
    for op in case['ops']:
        k = op[0]
        mem = inmember()
        alone = sorted(B - set(mem))
        cl = sorted(C)
        if k in ('run', 'bg'):
            if k == 'run':
                for _ in range(op[1]):
                    O.step()
            else:
                O.run(op[1], True)
                ctx.probe('bg')
            frc = []
            if bad:
                raise bad[0]
            continue
        if k == 'clump':
            ids = sorted({alone[a % len(alone)] for a in op[1]}) if alone else []
            if len(ids) < 2:
                continue
            c = O.bodies.clump(ids)
            C[c] = set(ids)
            props(c)
            ctx.probe('clump')
        elif k == 'appendClumped':
            c, ids = O.bodies.appendClumped([mk(s) for s in op[1]])
            ctx.check(len(ids) == len(op[1]), 'bodies', 'appendClumped returned %s' % ids)
            B.update(ids)
            C[c] = set(ids)
            props(c)
            ctx.probe('appendClumped')
        elif k == 'add' and cl:
            c = cl[op[2] % len(cl)]
            cand = sorted((B | set(C)) - {c} - C[c])
            if not cand:
                continue
            ids = []
            new = set(C[c])
            for a in op[1]:
                i = cand[a % len(cand)]
                if i in new or i in cl and i not in C or i in C and i not in ids and C[i] <= new or i in ids:
                    continue
                ids.append(i)
                if i in C:
                    old = i
                    ctx.probe('add-clump')
                elif i in mem:
                    old = mem[i]
                    ctx.probe('add-member')
                else:
                    new.add(i)
                    ctx.probe('add-standalone')
                    continue
                new |= C.pop(old)
                st['stale'].discard(old)
                if op[2] % 3 == 0:  # again: refused, the others are added all the same
                    ids.append(sorted(new)[0])
            if not ids:
                continue
            O.bodies.addToClump(ids, c)
            C[c] = new
            props(c)
        elif k == 'release' and mem:
            i = sorted(mem)[op[1][0] % len(mem)]
            c = mem[i]
            if len(C[c]) == 1:
                continue
            O.bodies.releaseFromClump(i, c)
            if len(C[c]) > 2:
                C[c].discard(i)
                props(c)
                ctx.probe('release')
            else:
                ctx.probe('release-refused')
        elif k == 'emember' and mem:
            i = sorted(mem)[op[1][0] % len(mem)]
            c = mem[i]
            O.bodies.erase(i)
            B.discard(i)
            C[c].discard(i)
            st['stale'].add(c)  # mass and inertia stay until they are updated
            ctx.probe('erase-member')
            if not C[c]:
                del C[c]
                st['stale'].discard(c)
                ctx.probe('last-member')
        elif k in ('eclump', 'eall') and cl:
            c = cl[op[2] % len(cl)]
            O.bodies.erase(c, k == 'eall')
            if k == 'eall':
                B -= C[c]
            del C[c]
            st['stale'].discard(c)
            ctx.probe('erase-clump' if k == 'eclump' else 'erase-all')
        elif k == 'update':
            O.bodies.updateClumpProperties(discretization=0)
            for c in C:
                props(c)
            ctx.probe('update')
        elif k == 'force':
            ids = sorted(B | set(C))
            if ids:
                frc.append((ids[op[1] % len(ids)], Vector3(*op[2]), Vector3(*op[3])))
                ctx.probe('force')
        elif k == 'kick':
            ids = sorted(set(alone) | set(C))
            if ids:
                i = ids[op[1] % len(ids)]
                s = O.bodies[i].state
                s.vel = Vector3(*op[2])
                if i not in C:
                    s.angVel = Vector3(*op[3])
        elif k == 'reload':
            O.saveTmp('c09')
            O.loadTmp('c09')
            ctx.probe('reload')
        frc = [f for f in frc if f[0] in B or f[0] in C]
        check('after %s' % k)
    O.reset()
    ctx.mix((sorted((c, tuple(sorted(m))) for c, m in C.items()), sorted(B)))
