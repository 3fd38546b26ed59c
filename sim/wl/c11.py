"""C11: contacts: action equals reaction, the forces on the bodies are those of their contacts, contact geometry is that of the bodies, friction stays within its limit."""
import math
from simctx import gen_policy
import ysc
BUDGET = {'quick': (8000, 30), 'thorough': (300000, 1500)}
LAWS = ['frict', 'frict', 'mindlin', 'hertzlin', 'cohfrict', 'viscel', 'cpm', 'l3', 'jcf', 'viscofrict', 'frictvisco', 'luding']
COULOMB = {'frict': 1, 'viscofrict': 1, 'mindlin': 1, 'hertzlin': 1}
RULE = ('Cases: random scenes (as for C02: 2..30 spheres, walls, boxes, facets, clumps, aperiodic or in a deforming periodic cell, 11 contact laws) under a random history of runs (foreground/background), kicks, displacements, erased and added bodies, changed friction, save/load, 1..6 threads; '
        'after the contact engine of every step forces, torques and contacts are compared with each other and with positions and radii of the bodies.')
PROBES = ['law-' + l for l in sorted(set(LAWS))] + ['contacts', 'sliding', 'sticking', 'wall', 'box', 'facet', 'clump', 'periodic', 'across', 'bg', 'erase', 'append', 'displace', 'friction', 'reload', 'kick', 'no-contact-left']


def generate(rng, tier):
    sc = ysc.gen_scene(rng, laws=LAWS)
    if sc['law'] == 'l3' and sc['wall'] == 'wall':
        sc['wall'] = 'facet'  # a sphere which is put beyond a wall is an error with this geometry
    sc['spread'] = rng.choice([.8, .88, .95])
    ops = []
    for _ in range(rng.randint(2, 10)):
        k = rng.choice(['run', 'run', 'run', 'bg', 'kick', 'displace', 'erase', 'append', 'friction', 'reload'])
        ops.append([k, rng.choice([1, 1, 3, 10, 25])] if k in ('run', 'bg') else [k, rng.randrange(1000), [ysc.r6(rng.uniform(-1, 1)) for _ in range(3)], [ysc.r6(rng.uniform(-1, 1)) for _ in range(3)]])
    ops.append(['run', 5])
    return {'threads': rng.choice([1, 2, 3, 6]), 'pol': gen_policy(rng), 'scene': sc, 'ops': ops, 'nsph': rng.random() < .5, 'limits': [3000000, 400000000]}


def execute(case, ctx):
    import yade.wrapper as W
    from yade import utils
    from minieigen import Vector3, Vector3i
    import __main__
    O = W.Omega()
    O.reset()
    K = ctx.check
    sc = case['scene']
    law = sc['law']
    ctx.probe('law-' + law)
    ysc.build(sc, O, W, extra=[W.PyRunner(command='import __main__; __main__.c11()', iterPeriod=1, initRun=True)])
    nsph = law == 'frict' and case['nsph']
    if nsph:
        # exact branch vectors also for bodies which are not spheres (with the default, torques on walls and facets are documented as wrong)
        for e in O.engines:
            if isinstance(e, W.InteractionLoop):
                e.lawDispatcher.functors[0].sphericalBodies = False
    bad = []

    def hook():
        try:
            if not bad:
                check()
        except BaseException as e:
            bad.append(e)

    def check():
        bs = [b for b in (O.bodies[i] for i in range(len(O.bodies))) if b is not None]
        F = {b.id: O.forces.f(b.id) for b in bs}
        T = {b.id: O.forces.t(b.id) for b in bs}
        X = {b.id: b.state.pos for b in bs}
        fs = sum((F[i].norm() for i in F), 0.)
        ts = sum((T[i].norm() + X[i].cross(F[i]).norm() for i in F), 0.)
        what = 'iteration %d, %s' % (O.iter, law)
        S = sum((F[i] for i in F), Vector3.Zero)
        K(S.norm() <= 1e-9 * (1e-6 + fs), 'action-reaction', lambda: '%s: the contact forces add up to %s (sum of their norms %g)' % (what, S, fs))
        if not O.periodic and (not sc.get('wall') or nsph):
            S2 = sum((T[i] + X[i].cross(F[i]) for i in F), Vector3.Zero)
            K(S2.norm() <= 1e-9 * (1e-6 + ts), 'action-reaction', lambda: '%s: the contact forces and torques have total moment %s (sum of norms %g)' % (what, S2, ts))
        want = {b.id: Vector3.Zero for b in bs}
        n = 0
        for I in [I for I in O.interactions.all(True)]:
            n += 1
            a, b = O.bodies[I.id1], O.bodies[I.id2]
            K(a is not None and b is not None, 'contact-of-nothing', lambda: '%s: contact %d-%d of an erased body' % (what, I.id1, I.id2))
            g, p = I.geom, I.phys
            two = isinstance(a.shape, W.Sphere) and isinstance(b.shape, W.Sphere)
            if isinstance(g, W.ScGeom):
                w = '%s: contact %d-%d' % (what, I.id1, I.id2)
                K(abs(g.normal.norm() - 1) < 1e-9, 'geometry', lambda: '%s: the normal is %s' % (w, g.normal))
                if two:
                    sh = O.cell.hSize * Vector3(*[float(I.cellDist[k]) for k in range(3)]) if O.periodic else Vector3.Zero
                    if sh.norm() > 0:
                        ctx.probe('across')
                    d = X[I.id2] + sh - X[I.id1]
                    dep = a.shape.radius + b.shape.radius - d.norm()
                    sc_ = 1e-9 * (1 + abs(X[I.id1].norm()))
                    K(abs(g.penetrationDepth - dep) < sc_, 'geometry', lambda: '%s: penetration depth %.12g, the bodies overlap by %.12g' % (w, g.penetrationDepth, dep))
                    K((g.normal - d / d.norm()).norm() < 10 * sc_, 'geometry', lambda: '%s: normal %s, the bodies give %s' % (w, g.normal, d / d.norm()))
                    cp = X[I.id1] + (a.shape.radius - .5 * dep) * g.normal
                    K((g.contactPoint - cp).norm() < 10 * sc_, 'geometry', lambda: '%s: contact point %s, the bodies give %s' % (w, g.contactPoint, cp))
                fn, ft = p.normalForce, getattr(p, 'shearForce', Vector3.Zero)
                if True:
                    K((fn - g.normal * fn.dot(g.normal)).norm() <= 1e-6 * (1e-9 + fn.norm()), 'normal-direction', lambda: '%s: the normal force %s is not along %s' % (w, fn, g.normal))
                if law in COULOMB:
                    mx = p.tangensOfFrictionAngle * fn.norm()
                    K(ft.norm() <= mx * (1 + 1e-9) + 1e-12, 'friction', lambda: '%s: shear force %g, the limit is %g' % (w, ft.norm(), mx))
                    ctx.probe('sliding' if ft.norm() > .999999 * mx else 'sticking')
                if law == 'frict':
                    e = p.kn * max(g.penetrationDepth, 0)
                    K(abs(fn.norm() - e) <= 1e-9 * (1e-9 + e) and fn.dot(g.normal) >= 0, 'normal-force', lambda: '%s: normal force %s, overlap times stiffness is %g' % (w, fn, e))
                want[I.id1] -= fn + ft
                want[I.id2] += fn + ft
            for s, nm in ((W.Wall, 'wall'), (W.Box, 'box'), (W.Facet, 'facet')):
                if isinstance(a.shape, s) or isinstance(b.shape, s):
                    ctx.probe(nm)
            if a.isClumpMember or b.isClumpMember:
                ctx.probe('clump')
        ctx.probe('contacts' if n else 'no-contact-left')
        if law in ('frict', 'viscofrict', 'mindlin', 'hertzlin', 'cohfrict', 'cpm', 'jcf', 'frictvisco'):
            for i in want:
                K((F[i] - want[i]).norm() <= 1e-8 * (1e-6 + fs), 'not-from-contacts', lambda: '%s: the force on body %d is %s, its contacts exert %s' % (what, i, F[i], want[i]))
    __main__.c11 = hook
    if O.periodic:
        ctx.probe('periodic')
    for op in case['ops']:
        k = op[0]
        al = [b.id for b in (O.bodies[i] for i in range(len(O.bodies))) if b is not None and isinstance(b.shape, W.Sphere)]
        if k == 'run':
            O.run(op[1], True)
        elif k == 'bg':
            O.run(op[1])
            O.wait()
            ctx.probe('bg')
        elif k == 'kick' and al:
            s = O.bodies[al[op[1] % len(al)]].state
            s.vel, s.angVel = Vector3(*op[2]) * 3, Vector3(*op[3]) * 20
            ctx.probe('kick')
        elif k == 'displace' and al:
            s = O.bodies[al[op[1] % len(al)]].state
            s.pos = s.pos + Vector3(*op[2]) * .02
            ctx.probe('displace')
        elif k == 'erase' and len(al) > 1:
            O.bodies.erase(al[op[1] % len(al)])
            ctx.probe('erase')
        elif k == 'append' and al:
            s = O.bodies[al[op[1] % len(al)]].state
            d = Vector3(*op[2])
            b = utils.sphere(s.pos + d / (d.norm() + 1e-9) * .19, .1)
            b.state.vel = Vector3(*op[3])
            O.bodies.append(b)
            ctx.probe('append')
        elif k == 'friction' and hasattr(O.materials[0], 'frictionAngle'):
            ph = abs(op[2][0])
            O.materials[0].frictionAngle = ph
            for I in [I for I in O.interactions.all(True)]:
                if hasattr(I.phys, 'tangensOfFrictionAngle'):
                    I.phys.tangensOfFrictionAngle = math.tan(ph)
            ctx.probe('friction')
        elif k == 'reload':
            O.saveTmp('c11')
            O.loadTmp('c11')
            ctx.probe('reload')
        if bad:
            raise bad[0]
    ctx.mix([tuple(round(c, 9) for c in O.bodies[i].state.pos) for i in range(len(O.bodies)) if O.bodies[i] is not None])
    O.reset()
