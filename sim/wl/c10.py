"""C10: Newton's second law: every step moves every body exactly by the forces on it, within its constraints, and the tracked energies say so."""
import math
from simctx import gen_policy
import ysc
BUDGET = {'quick': (12000, 25), 'thorough': (400000, 1500)}
RULE = ('Cases: 1..12 bodies (spheres, aspherical bodies, clumps), aperiodic or in a periodic cell with changing velocity gradient, random damping, gravity, integrator mask, blocked degrees of freedom, energy tracking; a random history of forces, moves, kicks, '
        'changed constraints, damping, gravity, time step, energy tracking, velocity gradient, added and erased bodies, save/load and runs (foreground or background, 1..6 threads). After the integrator of every step velocities, positions, orientations, angular momentum and tracked energies are compared with a reference integration.')
PROBES = ['force', 'blocked', 'nondynamic', 'damped', 'undamped', 'mask', 'gravity', 'rotation', 'aspherical', 'clump', 'periodic', 'velGrad-change', 'energy', 'move', 'rot', 'append', 'erase', 'reload', 'bg', 'spin']


def v3(rng, a):
    return [ysc.r6(rng.uniform(-a, a)) for _ in range(3)]


def gen_body(rng):
    asph = rng.random() < .35
    m = ysc.r6(rng.uniform(.5, 5))
    I = [ysc.r6(m * rng.uniform(.05, .2)) for _ in range(3)] if asph else [ysc.r6(m * .08)] * 3
    return {'pos': v3(rng, 2), 'vel': v3(rng, rng.choice([0, 1, 5])), 'w': v3(rng, rng.choice([0, 3])), 'm': m, 'I': I, 'asph': asph, 'ori': v3(rng, 2), 'mask': rng.choice([1, 1, 2, 3]),
            'blk': gen_blk(rng) if rng.random() < .4 else '', 'damp': rng.random() < .85}


def gen_blk(rng):
    return rng.choice(['xyzXYZ', 'xyzXYZ', ''.join(c for c in 'xyzXYZ' if rng.random() < .5), 'XYZ', 'xyz', 'x', 'Z'])


def generate(rng, tier):
    n = rng.choice([1, 2, 4, 8, 12])
    per = rng.random() < .35
    ops = []
    for _ in range(rng.randint(3, 18)):
        k = rng.choice(['run', 'run', 'run', 'run', 'bg', 'force', 'force', 'force', 'move', 'rot', 'kick', 'block', 'block', 'dynamic', 'isdamped', 'damping', 'gravity', 'mask', 'dt', 'append', 'erase', 'reload', 'energy', 'clump', 'aspherical', 'exact', 'kinsplit'] + ['velgrad', 'velgrad', 'homo'] * per)
        if k in ('run', 'bg'):
            ops.append([k, rng.choice([1, 1, 2, 5])])
        elif k in ('force', 'kick', 'move', 'rot'):
            ops.append([k, rng.randrange(1000), v3(rng, 9 if k in ('force', 'kick') else .3), v3(rng, 3), rng.random() < .3])
        elif k == 'block':
            ops.append([k, rng.randrange(1000), gen_blk(rng)])
        elif k in ('dynamic', 'isdamped', 'erase', 'aspherical'):
            ops.append([k, rng.randrange(1000), rng.random() < .5])
        elif k == 'damping':
            ops.append([k, rng.choice([0, .1, .4, .9])])
        elif k == 'gravity':
            ops.append([k, v3(rng, 10) if rng.random() < .8 else [0, 0, 0]])
        elif k == 'mask':
            ops.append([k, rng.choice([-1, 0, 1, 2])])
        elif k == 'dt':
            ops.append([k, rng.choice([1e-4, 1e-3, 5e-3])])
        elif k == 'append':
            ops.append([k, gen_body(rng)])
        elif k == 'velgrad':
            ops.append([k, [[ysc.r6(rng.uniform(-3, 3)) if rng.random() < .5 else 0 for _ in range(3)] for _ in range(3)] if rng.random() < .8 else [[0] * 3] * 3])
        elif k == 'homo':
            ops.append([k, rng.choice([0, 1, 2])])
        elif k == 'clump':
            ops.append([k, [rng.randrange(1000) for _ in range(rng.randint(2, 4))]])
        else:
            ops.append([k])
    ops.append(['run', 2])
    return {'threads': rng.choice([1, 1, 2, 3, 6]), 'pol': gen_policy(rng), 'bodies': [gen_body(rng) for _ in range(n)], 'ops': ops, 'per': per, 'cell': [ysc.r6(rng.uniform(3, 6)) for _ in range(3)],
            'dt': rng.choice([1e-4, 1e-3, 5e-3]), 'damping': rng.choice([0, 0, .2, .6]), 'g': rng.choice([[0, 0, 0], v3(rng, 10)]), 'energy': rng.random() < .6}


def execute(case, ctx):
    import yade.wrapper as W
    from minieigen import Vector3, Matrix3, Quaternion
    import __main__
    O = W.Omega()
    O.reset()
    O.materials.append(W.FrictMat(density=1000))
    K = ctx.check
    newton = lambda: [e for e in O.engines if isinstance(e, W.NewtonIntegrator)][0]
    if case['per']:
        O.periodic = True
        O.cell.setBox(Vector3(*case['cell']))
        ctx.probe('periodic')

    def add(d):
        b = W.Body()
        b.shape = W.Sphere(radius=.1)
        b.mat = O.materials[0]
        b.state.pos, b.state.vel, b.state.mass, b.state.inertia = Vector3(*d['pos']), Vector3(*d['vel']), d['m'], Vector3(*d['I'])
        if d['asph']:
            b.aspherical = True
            a = Vector3(*d['ori'])
            b.state.ori = Quaternion(a / a.norm(), a.norm()) if a.norm() > 0 else Quaternion.Identity
        else:
            b.state.angVel = Vector3(*d['w'])
        b.state.blockedDOFs = d['blk']
        b.state.isDamped = d['damp']
        b.mask = d['mask']
        return O.bodies.append(b)
    for d in case['bodies']:
        add(d)
    O.engines = [W.ForceResetter(), W.PyRunner(command='import __main__; __main__.c10a()', iterPeriod=1, initRun=True), W.NewtonIntegrator(damping=case['damping'], gravity=Vector3(*case['g'])), W.PyRunner(command='import __main__; __main__.c10b()', iterPeriod=1, initRun=True)]
    O.dt = case['dt']
    O.trackEnergy = case['energy']
    bad, pre, plan, st = [], {}, [], {'G': Matrix3.Zero, 'cur': Matrix3.Zero, 'first': True, 'E': {}, 'moved': False}
    moves = {}

    def tensor(q, I):
        R = q.toRotationMatrix()
        return R * Matrix3(I[0], 0, 0, 0, I[1], 0, 0, 0, I[2]) * R.transpose()

    def sgn(x):
        return (x > 0) - (x < 0)

    def all_bodies():
        return [O.bodies[i] for i in range(len(O.bodies)) if O.bodies[i] is not None]

    def before():
        try:
            if bad:
                return
            moves.clear()
            for k, i, f, t in plan:
                if O.bodies[i] is None:
                    continue
                f, t = Vector3(*f), Vector3(*t)
                if k == 'force':
                    O.forces.addF(i, f)
                    O.forces.addT(i, t)
                elif not O.bodies[i].isClump and not O.bodies[i].isClumpMember:
                    m = moves.setdefault(i, [Vector3.Zero, Vector3.Zero])
                    if k == 'move':
                        O.forces.addMove(i, f)
                        m[0] = m[0] + f
                    else:
                        O.forces.addRot(i, f)
                        m[1] = m[1] + f
            pre.clear()
            if O.periodic:
                st['nextG'] = Matrix3(O.cell.nextVelGrad) if O.cell.velGradChanged or O.cell.nextVelGrad.norm() > 0 else Matrix3(O.cell.velGrad)
            st['E0'] = {k: O.energy[k] for k in O.energy.keys()} if O.trackEnergy else {}
            for b in all_bodies():
                if b.isClumpMember:
                    continue
                i = b.id
                F, T = O.forces.f(i), O.forces.t(i)
                if b.isClump:
                    for m in b.shape.members.keys():
                        F += O.forces.f(m)
                        T += O.forces.t(m) + (O.bodies[m].state.pos - b.state.pos).cross(O.forces.f(m))
                s = b.state
                pre[i] = dict(x=Vector3(s.pos), v=Vector3(s.vel), w=Vector3(s.angVel), L=Vector3(s.angMom), q=Quaternion(s.ori), F=F, T=T)
        except BaseException as e:
            bad.append(e)

    def near(a, b, scale, tol=1e-9):
        return (a - b).norm() <= tol * (1e-3 + scale)

    def after():
        try:
            if bad:
                return
            dt, nw = O.dt, newton()
            g, D, per = nw.gravity, nw.damping, O.periodic
            G0 = st['G']
            homo = O.cell.homoDeform if per else 0
            dG = (st['nextG'] - G0) if per else Matrix3.Zero
            kin = rot = grav = damp = 0.
            for i, p in pre.items():
                b = O.bodies[i]
                s = b.state
                what = 'iteration %d: %s %d' % (O.iter, 'clump' if b.isClump else 'body', i)
                F, T, v, w, x = p['F'], p['T'], p['v'], p['w'], p['x']
                blk = s.blockedDOFs
                rb = any(c in blk for c in 'XYZ')
                asph = nw.exactAsphericalRot and b.aspherical and not rb
                fl = v - G0 * x if per else v
                if blk:
                    ctx.probe('blocked' if blk != 'xyzXYZ' else 'nondynamic')
                # energies: state before the step
                kin += .5 * s.mass * fl.dot(fl)
                rot += .5 * w.dot(tensor(p['q'], s.inertia) * w) if b.aspherical else .5 * sum(s.inertia[a] * w[a] ** 2 for a in range(3))
                grav += -g.dot(v) * s.mass * dt
                if D and s.isDamped:
                    damp += D * dt * sum(abs(fl[a] * F[a]) + abs(w[a] * T[a]) for a in range(3))
                ve, we = Vector3(v), Vector3(w)
                if blk != 'xyzXYZ':
                    a = Vector3(*[0 if 'xyz'[c] in blk else F[c] / s.mass + g[c] for c in range(3)])
                    if D and s.isDamped:
                        a = Vector3(*[a[c] * (1 - D * sgn(a[c] * (fl[c] + .5 * dt * a[c]))) for c in range(3)])
                        ctx.probe('damped')
                    elif D:
                        ctx.probe('undamped')
                    if per and homo > 1:
                        a += G0 * v
                    ve += a * dt
                    if not asph:
                        al = Vector3(*[0 if 'XYZ'[c] in blk else T[c] / s.inertia[c] for c in range(3)])
                        if D and s.isDamped:
                            al = Vector3(*[al[c] * (1 - D * sgn(al[c] * (w[c] + .5 * dt * al[c]))) for c in range(3)])
                        we += al * dt
                elif per and homo > 1:
                    ve += G0 * v * dt
                xe = x + (moves[i][0] if i in moves else Vector3.Zero)
                if per and homo:
                    ve += dG * xe
                    if not asph:
                        R = .5 * (dG - dG.transpose())
                        we += Vector3(-R[1, 2], R[0, 2], -R[0, 1])
                        if we != w:
                            ctx.probe('spin')
                moving = nw.mask <= 0 or bool(nw.mask & b.mask)
                if not moving:
                    ctx.probe('mask')
                if moving:
                    xe += ve * dt
                sc = v.norm() + ve.norm()
                K(near(s.vel, ve, sc), 'velocity', lambda: '%s (blocked %r): velocity %s became %s, expected %s' % (what, blk, v, s.vel, ve))
                K(near(s.pos, xe, x.norm() + ve.norm() * dt), 'position', lambda: '%s: position %s became %s, expected %s' % (what, x, s.pos, xe))
                K(abs(s.ori.norm() - 1) < 1e-9, 'orientation', lambda: '%s: the norm of the orientation is %g' % (what, s.ori.norm()))
                r = moves[i][1] if i in moves else Vector3.Zero
                if not asph:
                    K(near(s.angVel, we, w.norm() + we.norm()), 'angular-velocity', lambda: '%s (blocked %r): angular velocity %s became %s, expected %s' % (what, blk, w, s.angVel, we))
                    q = Quaternion(p['q'])
                    if moving:
                        if we.norm() > 0:
                            q = Quaternion(we / we.norm(), we.norm() * dt) * q
                            ctx.probe('rotation')
                        if r.norm() > 0:
                            q = Quaternion(r / r.norm(), r.norm()) * q
                    d = (q.toRotationMatrix() - s.ori.toRotationMatrix()).norm()
                    K(d < 1e-9, 'orientation', lambda: '%s: the orientation is off by %g' % (what, d))
                else:
                    ctx.probe('aspherical')
                    M = T
                    if D and s.isDamped:
                        M = Vector3(*[T[c] * (1 - D * sgn(T[c] * w[c])) for c in range(3)])
                    L = p['L'] + M * dt
                    K(near(s.angMom, L, p['L'].norm() + L.norm()), 'angular-momentum', lambda: '%s: angular momentum %s became %s, expected %s' % (what, p['L'], s.angMom, L))
                    # orientation: fine integration of the rigid body with constant angular momentum
                    q = Quaternion(p['q'])
                    h = dt / 8
                    for _ in range(8):
                        def om(q):
                            R = q.toRotationMatrix()
                            l = R.transpose() * L
                            return R * Vector3(*[l[c] / s.inertia[c] for c in range(3)])
                        o = om(q)
                        if o.norm() > 0:
                            qm = Quaternion(o / o.norm(), o.norm() * h / 2) * q
                            o = om(qm)
                            q = Quaternion(o / o.norm(), o.norm() * h) * q
                    wmax = L.norm() / min(s.inertia[c] for c in range(3))
                    if r.norm() > 0:
                        q = Quaternion(r / r.norm(), r.norm()) * q
                    d = (q.toRotationMatrix() - s.ori.toRotationMatrix()).norm()
                    tol = 20 * (wmax * dt) ** 2 + 3 * M.norm() * dt * dt / min(s.inertia[c] for c in range(3)) + 1e-9
                    K(d < tol, 'orientation', lambda: '%s: the orientation of the aspherical body is off by %g (allowed %g)' % (what, d, tol))
                    if r.norm() == 0:
                        R = s.ori.toRotationMatrix()
                        l = R.transpose() * L
                        o = R * Vector3(*[l[c] / s.inertia[c] for c in range(3)])
                        K((o - s.angVel).norm() < 20 * wmax * (wmax * dt) + 1e-9, 'angular-velocity', lambda: '%s: aspherical body has angular velocity %s, its angular momentum gives %s' % (what, s.angVel, o))
                if b.isClump:
                    ctx.probe('clump')
            if per:
                K((O.cell.velGrad - st['nextG']).norm() < 1e-12, 'velgrad', lambda: 'iteration %d: the velocity gradient is %s, %s was requested' % (O.iter, O.cell.velGrad, st['nextG']))
                st['G'] = Matrix3(O.cell.velGrad)
            if O.trackEnergy and pre:
                ctx.probe('energy')
                E, E0 = {k: O.energy[k] for k in O.energy.keys()}, st['E0']
                sp = nw.kinSplit
                for k, want in (('kinetic', 0 if sp else kin + rot), ('kinTrans', kin if sp else 0), ('kinRot', rot if sp else 0), ('gravWork', E0.get('gravWork', 0) + grav), ('nonviscDamp', E0.get('nonviscDamp', 0) + damp)):
                    if k in E or want:
                        got = E.get(k, 0)
                        K(abs(got - want) <= 1e-8 * (1e-3 + abs(want)), 'energy', lambda: 'iteration %d: tracked energy %s is %.12g, expected %.12g' % (O.iter, k, got, want))
        except BaseException as e:
            bad.append(e)
    __main__.c10a, __main__.c10b = before, after
    for op in case['ops']:
        k = op[0]
        free = [b.id for b in all_bodies() if not b.isClumpMember]
        any_ = [b.id for b in all_bodies()]
        if k in ('run', 'bg'):
            if k == 'run':
                for _ in range(op[1]):
                    O.step()
                    plan[:] = [p for p in plan if p[4]] if plan and len(plan[0]) > 4 else []
            else:
                O.run(op[1], True)
                ctx.probe('bg')
            if bad:
                raise bad[0]
            plan[:] = []
        elif k == 'force' and any_:
            plan.append(('force', any_[op[1] % len(any_)], op[2], op[3]))
            ctx.probe('force')
        elif k in ('move', 'rot') and free:
            plan.append((k, free[op[1] % len(free)], op[2], op[3]))
            ctx.probe(k)
        elif k == 'kick' and free:
            s = O.bodies[free[op[1] % len(free)]].state
            s.vel = Vector3(*op[2])
            if not O.bodies[free[op[1] % len(free)]].aspherical:
                s.angVel = Vector3(*op[3])
        elif k == 'block' and free:
            O.bodies[free[op[1] % len(free)]].state.blockedDOFs = op[2]
        elif k == 'dynamic' and free:
            O.bodies[free[op[1] % len(free)]].dynamic = op[2]
        elif k == 'isdamped' and free:
            O.bodies[free[op[1] % len(free)]].state.isDamped = op[2]
        elif k == 'aspherical' and free:
            b = O.bodies[free[op[1] % len(free)]]
            if not b.isClump:
                b.aspherical = op[2]
        elif k == 'exact':
            newton().exactAsphericalRot = not newton().exactAsphericalRot
        elif k == 'kinsplit':
            newton().kinSplit = not newton().kinSplit
        elif k == 'damping':
            newton().damping = op[1]
        elif k == 'gravity':
            newton().gravity = Vector3(*op[1])
            ctx.probe('gravity')
        elif k == 'mask':
            newton().mask = op[1]
        elif k == 'dt':
            O.dt = op[1]
        elif k == 'append':
            add(op[1])
            ctx.probe('append')
        elif k == 'erase' and free:
            O.bodies.erase(free[op[1] % len(free)], op[2])
            ctx.probe('erase')
        elif k == 'reload':
            O.saveTmp('c10')
            O.loadTmp('c10')
            ctx.probe('reload')
        elif k == 'energy':
            O.trackEnergy = not O.trackEnergy
        elif k == 'velgrad' and O.periodic:
            O.cell.velGrad = Matrix3(*[c for r in op[1] for c in r])
            ctx.probe('velGrad-change')
        elif k == 'homo' and O.periodic:
            O.cell.homoDeform = op[1]
        elif k == 'clump':
            al = [b.id for b in all_bodies() if b.isStandalone]
            ids = sorted({al[a % len(al)] for a in op[1]}) if al else []
            if len(ids) > 1:
                O.bodies.clump(ids)
    O.reset()
    ctx.mix((O.iter, len(pre), sorted(pre)))
