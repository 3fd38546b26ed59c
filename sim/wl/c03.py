"""C03: contact detection is complete and exact: at every step the real contacts are exactly the pairs of bodies that touch."""
import math
from simctx import gen_policy
import ysc
BUDGET = {'quick': (9000, 40), 'thorough': (300000, 1500)}
RULE = ('Cases: 2..60 spheres (1000..1150 for the parallel sort) plus optional walls, (rotated) boxes and facets, aperiodic or in a periodic cell that may deform and shear, masks, clumps, random collider settings (Verlet distance, target interval, sort axis, '
        'sort-then-collide), 1..8 threads, and a random history of runs, insertions (few or over 100), erasures, teleports, clearing of interactions, replaced colliders, save/load; the real contacts are compared with a brute-force search after the interaction loop of every step.')
PROBES = ['periodic', 'sheared', 'append', 'append-many', 'erase', 'teleport', 'clear', 'reload', 'clumps', 'masks', 'wall', 'box', 'parallel-sort', 'stride', 'newcollider', 'contacts', 'across-boundary', 'nonspheres', 'togglep', 'replace', 'rotated', 'facet']
TIMEOUT = 90
DBG = False


def generate(rng, tier):
    big = rng.random() < .05
    n = rng.randint(1000, 1150) if big else rng.choice([2, 3, 6, 12, 25, 60])
    d = .2
    per = rng.random() < .4 and not big
    spread = rng.choice([.8, .95, 1.05, 1.2, 1.6])
    vel = rng.choice([0, .5, 5, 40])
    dim = None
    case = {'threads': rng.choice([1, 2, 3, 4, 8]), 'pol': gen_policy(rng)}
    if big:
        case['threads'] = rng.choice([2, 3, 4])
        case['pol']['gap'] = rng.choice([8000, 40000])
    if per:
        k = rng.choice([5, 6, 7])
        dim = [k, 1 + (n > k), 1 + n // (2 * k)]
        nz = max(5.5, dim[2] * spread * 1.02)
        case['cell'] = [ysc.r6(max(k * spread, 5.5) * d * rng.uniform(1., 1.05)), ysc.r6(5.5 * d * rng.uniform(1., 1.3)), ysc.r6(nz * d * rng.uniform(1., 1.1))]
        if rng.random() < .4:
            g = rng.choice([.5, 5, 30])
            case['velGrad'] = [[ysc.r6(rng.uniform(-g, g) * (.2 if i == j else 1)) if rng.random() < .4 else 0 for j in range(3)] for i in range(3)]
        case['trsf'] = [[1, rng.choice([0, 0, .2]), 0], [0, 1, rng.choice([0, 0, -.15])], [rng.choice([0, 0, .1]), 0, 1]] if rng.random() < .4 else None
    sp = ysc.gen_spheres(rng, n, d, spread, vel=vel, ang=0., dim=dim)
    if per:
        sh = [rng.uniform(-5, 5) * case['cell'][a] if rng.random() < .3 else rng.uniform(0, 1) * case['cell'][a] for a in range(3)]
        for s in sp:
            for a in range(3):
                s[a] = ysc.r6(s[a] + sh[a] + (rng.randint(-2, 2) * case['cell'][a] if rng.random() < .1 and not case.get('trsf') else 0))
        dr = rng.choice([0, 0, 40, 200, 200])
        dr = [rng.uniform(-dr, dr) for _ in range(3)]
        for s in sp:
            for a in range(3):
                s[4 + a] = ysc.r6(s[4 + a] + dr[a])
    case['spheres'] = sp
    case['poly'] = [ysc.r6(rng.choice([1, 1, 1, .5, .3])) for _ in sp] if rng.random() < .3 else None
    case['wall'] = [[rng.randrange(3), ysc.r6(rng.uniform(-.1, .4)), ysc.r6(rng.uniform(-1, 1)) if rng.random() < .3 else 0] for _ in range(rng.choice([0, 0, 1, 2]))] if not per else []
    case['box'] = [[[ysc.r6(rng.uniform(-.3, .6)) for _ in range(3)], [ysc.r6(rng.uniform(.05, .5)) for _ in range(3)], [ysc.r6(rng.uniform(-3, 3)) if rng.random() < .3 else 0 for _ in range(3)]] for _ in range(rng.choice([0, 0, 0, 1, 2]))] if not per else []
    case['masks'] = [rng.choice([1, 1, 2, 3]) for _ in sp] if rng.random() < .25 else None
    case['avoid'] = rng.choice([0, 0, 1, 2, 3]) if case['masks'] else 0
    case['fixed'] = [rng.randrange(n) for _ in range(rng.choice([0, 0, 1, 2]))]
    case['clumps'] = []
    if not per and not big and n >= 6 and rng.random() < .2:
        ids = list(range(n))
        rng.shuffle(ids)
        case['clumps'] = [ids[:2], ids[2:5]]
    case['g'] = [ysc.r6(rng.uniform(-50, 50)) for _ in range(3)] if rng.random() < .4 else [0, 0, 0]
    case['col'] = gen_col(rng)
    case['dt'] = rng.choice([1e-4, 1e-4, 2e-5])
    ops = []
    for _ in range(rng.randint(1, 7) if not big else rng.randint(1, 3)):
        k = rng.choice(['run', 'run', 'run', 'append', 'append', 'erase', 'erase', 'teleport', 'teleport', 'clear', 'reload', 'col', 'kick', 'many', 'nonsphere', 'togglep', 'replace'])
        if per and rng.random() < .3:
            k = 'append'
        if big:
            k = rng.choice([k, 'teleport', 'kick'])
            if k in ('teleport', 'kick'):
                for _ in range(rng.choice([1, 4, 15])):
                    ops.append(['teleport', rng.randrange(2000), [ysc.r6(rng.uniform(-.5, 2.5)) for _ in range(3)]] if k == 'teleport' else ['kick', rng.randrange(2000), [ysc.r6(rng.uniform(-300, 300)) for _ in range(3)]])
        if k == 'run':
            ops.append([k, rng.choice([1, 3, 10, 25]) if not big else rng.choice([1, 3, 6])])
        elif k == 'append':
            ops.append([k, [[ysc.r6(rng.uniform(-.3, 1.2)) for _ in range(3)] + [ysc.r6(rng.uniform(.04, .11))] + [ysc.r6(rng.uniform(-vel, vel)) for _ in range(3)] for _ in range(rng.randint(1, 4))]] + ([rng.randrange(1000)] if rng.random() < .6 else []))
        elif k == 'many':
            ops.append([k, rng.randrange(10**6)] if rng.random() < .4 else ['run', 2])
        elif k == 'erase':
            ops.append([k, [rng.randrange(1000) for _ in range(rng.randint(1, 3))], rng.random() < .3])
        elif k == 'teleport':
            ops.append([k, rng.randrange(1000), [ysc.r6(rng.uniform(-.5, 1.5)) for _ in range(3)]])
        elif k == 'kick':
            ops.append([k, rng.randrange(1000), [ysc.r6(rng.uniform(-50, 50)) for _ in range(3)]])
        elif k == 'col':
            ops.append([k, gen_col(rng)])
        elif k == 'replace':
            if rng.random() < .5:
                ops.append([k, rng.randrange(10**6)])
        elif k == 'togglep':
            if rng.random() < .3:
                ops.append([k])
        else:
            ops.append([k])
        if rng.random() < .6:
            ops.append(['run', rng.choice([1, 2, 8])])
    ops.append(['run', 5])
    case['ops'] = ops
    case['limits'] = [4000000, 900000000]
    case['boxori'] = [[ysc.r6(rng.uniform(-2, 2)) for _ in range(3)] if rng.random() < .6 else None for _ in case['box']]
    case['facets'] = []
    if not per and not big:
        for _ in range(rng.choice([0, 0, 0, 1, 3])):
            case['facets'].append([[ysc.r6(rng.uniform(-.2, .6)) for _ in range(3)], ysc.r6(rng.uniform(.1, .5)), [ysc.r6(rng.uniform(-2, 2)) for _ in range(3)], [ysc.r6(rng.uniform(-3, 3)) if rng.random() < .3 else 0 for _ in range(3)]])
    if rng.random() < .3:  # all motion along one axis, or of a few bodies only
        ax, few = rng.randrange(3), rng.random() < .5
        sg = rng.choice([-1, 1])
        keep = {rng.randrange(n) for _ in range(2)}

        def along(v, i=None):
            return [sg * abs(x) if a == ax and not (few and i is not None and i not in keep) else 0 for a, x in enumerate(v)]
        for i, q in enumerate(case['spheres']):
            q[4:7] = along(q[4:7], i)
        case['g'] = along(case['g']) if not few else [0, 0, 0]
        for o in ops:
            if o[0] == 'kick':
                o[2] = along(o[2])
            elif o[0] == 'append':
                for q in o[1]:
                    q[4:7] = along(q[4:7])
    return case


def gen_col(rng):
    c = {'verlet': rng.choice([-.5, -.2, -.05, 0, .03, .1, -1.])}
    c['targetInterv'] = rng.choice([-1, 30, 200, 5])
    c['minSweep'] = rng.choice([.1, .1, .5])
    c['updating'] = rng.choice([-1, -1, -1, 1.5, 3])
    c['axis'] = rng.choice([0, 0, 1, 2])
    c['stc'] = rng.random() < .15
    return c


def tri(p, v):
    """distance of a point from a triangle"""
    n = (v[1] - v[0]).cross(v[2] - v[0])
    n /= n.norm()
    h = n.dot(p - v[0])
    if all((v[(i + 1) % 3] - v[i]).cross(p - v[i]).dot(n) >= 0 for i in range(3)):
        return abs(h)
    best = 1e99
    for i in range(3):
        e = v[(i + 1) % 3] - v[i]
        t = min(1, max(0, e.dot(p - v[i]) / e.dot(e)))
        best = min(best, (p - v[i] - e * t).norm())
    return best


def execute(case, ctx):
    import yade.wrapper as W
    from yade import utils
    from minieigen import Vector3, Matrix3, Quaternion
    import __main__
    O = W.Omega()
    O.reset()
    O.materials.append(W.FrictMat(young=1e4, poisson=.3, frictionAngle=.3, density=1000))
    if case.get('cell'):
        O.periodic = True
        O.cell.setBox(Vector3(*case['cell']))
        if case.get('trsf'):
            O.cell.trsf = Matrix3(*[x for r in case['trsf'] for x in r])
            O.cell.hSize = Matrix3(*[x for r in case['trsf'] for x in r]) * O.cell.hSize
            ctx.probe('sheared')
        if case.get('velGrad'):
            O.cell.velGrad = Matrix3(*[x for r in case['velGrad'] for x in r])
            ctx.probe('sheared')
        ctx.probe('periodic')
    st = {'grace': 0, 'n': 0, 'steps': 0}

    def add(s, mask=None, r=1.):
        b = utils.sphere(Vector3(*s[:3]), s[3] * r)
        b.state.vel = Vector3(*s[4:7])
        if mask:
            b.mask = mask
        return O.bodies.append(b)
    ids = [add(s, case['masks'] and case['masks'][i], case['poly'][i] if case['poly'] else 1.) for i, s in enumerate(case['spheres'])]
    for i in case['fixed']:
        O.bodies[i].dynamic = False
        O.bodies[i].state.vel = Vector3(0, 0, 0)

    def turn(o):
        o = Vector3(*o)
        return Quaternion(o / o.norm(), o.norm())
    for ax, p, v in case['wall']:
        b = utils.wall(p, axis=ax)
        e = Vector3(0, 0, 0)
        e[ax] = v
        b.state.vel = e
        O.bodies.append(b)
        ctx.probe('wall')
    for (c, e, v), o in zip(case['box'], case.get('boxori') or [None] * 9):
        b = utils.box(Vector3(*c), Vector3(*e), fixed=True)
        if o and any(o):
            b.state.ori = turn(o)
            ctx.probe('rotated')
        b.state.vel = Vector3(*v)
        O.bodies.append(b)
        ctx.probe('box')
    for c, r, o, v in case.get('facets') or []:
        q = turn(o).toRotationMatrix() if any(o) else Matrix3.Identity
        b = utils.facet([Vector3(*c) + q * Vector3(r * x, r * y, 0) for x, y in ((1, 0), (-.5, .9), (-.4, -.8))], fixed=True)
        b.state.vel = Vector3(*v)
        O.bodies.append(b)
        ctx.probe('facet')
    for g in case['clumps']:
        O.bodies.clump([ids[i] for i in g])
        ctx.probe('clumps')
    if case['masks']:
        ctx.probe('masks')

    def collider(c):
        col = W.InsertionSortCollider([W.Bo1_Sphere_Aabb(), W.Bo1_Box_Aabb(), W.Bo1_Wall_Aabb(), W.Bo1_Facet_Aabb()])
        col.verletDist = c['verlet']
        col.targetInterv = c['targetInterv']
        col.minSweepDistFactor = c['minSweep']
        col.updatingDispFactor = c['updating']
        col.sortAxis = c['axis']
        col.sortThenCollide = c['stc']
        col.avoidSelfInteractionMask = case['avoid']
        return col

    def rest():
        return [W.InteractionLoop([W.Ig2_Sphere_Sphere_ScGeom(), W.Ig2_Box_Sphere_ScGeom(), W.Ig2_Wall_Sphere_ScGeom(), W.Ig2_Facet_Sphere_ScGeom()], [W.Ip2_FrictMat_FrictMat_FrictPhys()], [W.Law2_ScGeom_FrictPhys_CundallStrack()]),
                W.PyRunner(command='import __main__; __main__.c03()', iterPeriod=1, initRun=True), W.NewtonIntegrator(damping=.1, gravity=Vector3(*case['g']))]
    O.engines = [W.ForceResetter(), collider(case['col'])] + rest()
    O.dt = case['dt']
    bad = []

    def touching():
        """brute force: {(i,j): (overlap, across boundary?)}; amb: pairs within rounding of touching"""
        sph, oth = [], []
        for i in range(len(O.bodies)):
            b = O.bodies[i]
            if b is None or b.shape is None or b.isClump:
                continue
            if isinstance(b.shape, W.Sphere):
                p = b.state.pos
                sph.append((i, p[0], p[1], p[2], b.shape.radius, b.mask, b.clumpId if b.isClumpMember else -1))
            elif isinstance(b.shape, (W.Wall, W.Box, W.Facet)):
                oth.append((i, b))
        out, amb = {}, set()

        def may(m1, c1, m2, c2):
            return not (c1 >= 0 and c1 == c2) and (m1 & m2) and not (m1 == m2 and m1 & case['avoid'])
        per = O.periodic
        if per:
            H = O.cell.hSize
            Hi = H.inverse()
            hts = [1 / math.sqrt(sum(Hi[a, c] ** 2 for c in range(3))) for a in range(3)]
            hi = [[Hi[a, c] for c in range(3)] for a in range(3)]
        cells = {}
        R = max([s[4] for s in sph] + [1e-9]) * 2.02
        if not per and len(sph) > 80:
            for k, s in enumerate(sph):
                cells.setdefault((math.floor(s[1] / R), math.floor(s[2] / R), math.floor(s[3] / R)), []).append(k)
            pairs = []
            for (x, y, z), l in cells.items():
                for dx in (-1, 0, 1):
                    for dy in (-1, 0, 1):
                        for dz in (-1, 0, 1):
                            m = cells.get((x + dx, y + dy, z + dz))
                            if m:
                                pairs += [(a, b) for a in l for b in m if a < b]
        else:
            pairs = [(a, b) for a in range(len(sph)) for b in range(a + 1, len(sph))]
        for a, b in pairs:
            A, B = sph[a], sph[b]
            dx, dy, dz = B[1] - A[1], B[2] - A[2], B[3] - A[3]
            rs = A[4] + B[4]
            ac = False
            if per:
                f = [r[0] * dx + r[1] * dy + r[2] * dz for r in hi]
                f0 = [math.floor(c + .5) for c in f]
                if any(abs(f[c] - f0[c]) * hts[c] > rs * 1.0001 for c in range(3)):
                    continue
                best = 1e99
                for u in (-1, 0, 1):
                    for v in (-1, 0, 1):
                        for w in (-1, 0, 1):
                            q = H * Vector3(f[0] - f0[0] + u, f[1] - f0[1] + v, f[2] - f0[2] + w)
                            q2 = q[0] * q[0] + q[1] * q[1] + q[2] * q[2]
                            if q2 < best:
                                best = q2
                ac = any(f0)
                d2 = best
            else:
                d2 = dx * dx + dy * dy + dz * dz
            if d2 > rs * rs * 1.000001 or not may(A[5], A[6], B[5], B[6]):
                continue
            dist = math.sqrt(d2)
            if abs(dist - rs) < 1e-9:
                amb.add((A[0], B[0]))
            elif dist < rs:
                out[(A[0], B[0])] = (rs - dist, ac)
        for i, b in oth:
            for s in sph:
                if not may(b.mask, -1, s[5], s[6]):
                    continue
                k = (min(i, s[0]), max(i, s[0]))
                if isinstance(b.shape, W.Wall):
                    ax = b.shape.axis
                    pen = s[4] - abs(s[1 + ax] - b.state.pos[ax])
                elif isinstance(b.shape, W.Facet):
                    dist = tri(b.state.ori.conjugate() * (Vector3(*s[1:4]) - b.state.pos), b.shape.vertices)
                    pen = s[4] - dist
                    if dist < 1e-6:
                        amb.add(k)
                        continue
                else:
                    q = b.state.ori.conjugate() * (Vector3(*s[1:4]) - b.state.pos)
                    q = [max(0, abs(q[a]) - b.shape.extents[a]) for a in range(3)]
                    pen = s[4] - math.sqrt(sum(x * x for x in q))
                    if not any(q):
                        amb.add(k)  # centre inside of the box: the contact may or may not be kept
                        continue
                if abs(pen) < 1e-9:
                    amb.add(k)
                elif pen > 0:
                    out[k] = (pen, False)
        return out, amb

    def hook():
        try:
            hook2()
        except BaseException as e:
            import traceback
            bad.append(('oracle-error', traceback.format_exc()))

    def hook2():
        st['steps'] += 1
        if st['grace'] > 0:
            st['na'] = [e for e in O.engines if isinstance(e, W.InsertionSortCollider)][0].numAction
            st['grace'] -= 1
            return
        if bad:
            return
        want, amb = touching()
        c = [e for e in O.engines if isinstance(e, W.InsertionSortCollider)][0]
        ran = c.numAction != st.get('na')
        st['na'] = c.numAction
        got = {}
        for i in O.interactions:
            k = (min(i.id1, i.id2), max(i.id1, i.id2))
            if k in got:
                bad.append(('duplicate-contact', 'iteration %d: interaction %s is there twice' % (O.iter, k)))
                return
            got[k] = i
        real = {k: i for k, i in got.items() if i.isReal}
        st['n'] += len(want)
        if want:
            ctx.probe('contacts')
        for k, (pen, ac) in want.items():
            if ac:
                ctx.probe('across-boundary')
            if k not in real:
                deform = not ran and O.periodic and c.verletDist > 0 and O.cell.velGrad.norm() > 0
                bad.append(('missed-contact-deforming-cell' if deform else 'missed-contact', 'iteration %d: bodies %d and %d overlap by %g, but have no contact (%s)' % (O.iter, k[0], k[1], pen, 'potential only' if k in got else 'not found by the collider') + (' '.join(str((O.bodies[q].state.pos, O.bodies[q].shape.dict(), O.bodies[q].bound and (O.bodies[q].bound.min, O.bodies[q].bound.max, O.bodies[q].bound.sweepLength, O.bodies[q].bound.lastUpdateIter))) for q in k) if DBG else '')))
                return
            if not O.bodies[k[0]].isClumpMember and isinstance(O.bodies[k[0]].shape, W.Sphere) and isinstance(O.bodies[k[1]].shape, W.Sphere):
                if abs(real[k].geom.penetrationDepth - pen) > 1e-7:
                    bad.append(('wrong-contact', 'iteration %d: contact of bodies %d and %d has penetration %g, they overlap by %g' % (O.iter, k[0], k[1], real[k].geom.penetrationDepth, pen)))
                    return
        for k in real:
            if k not in want and k not in amb:
                bad.append(('false-contact', 'iteration %d: bodies %d and %d have a contact, but do not touch (or may not collide)' % (O.iter, k[0], k[1])))
                return
    __main__.c03 = hook

    def run(n):
        for _ in range(n):
            O.step()
            if bad:
                ctx.check(False, bad[0][0], bad[0][1])
    nd = 0

    def alive(k, members=False):
        l = [b.id for b in O.bodies if isinstance(b.shape, W.Sphere) and (members or not b.isClumpMember)]
        return l[k % len(l)] if l else None
    try:
        for op in case['ops']:
            k = op[0]
            if k == 'run':
                run(op[1])
            elif k == 'append':
                ctx.probe('append')
                for s in op[1]:
                    if case.get('cell'):
                        s = list(s)
                        s[3] = min(s[3], .1)
                    if len(op) > 2 and alive(op[2]) is not None:  # near a sphere that is there
                        p = O.bodies[alive(op[2])].state
                        s = [p.pos[a] + (s[a] - .45) * .2 for a in range(3)] + [s[3]] + [p.vel[a] + s[4 + a] for a in range(3)]
                    add(s)
            elif k == 'many':
                import random
                r = random.Random(op[1])
                ctx.probe('append-many')
                for _ in range(r.randint(95, 115)):
                    add([r.uniform(-.5, 1.5) for _ in range(3)] + [r.uniform(.02, .06)] + [0, 0, 0])
            elif k == 'erase':
                for x in op[1]:
                    i = alive(x)
                    if i is not None and len(O.bodies) > 2:
                        O.bodies.erase(i if not op[2] else max(b.id for b in O.bodies if isinstance(b.shape, W.Sphere) and not b.isClumpMember))
                        ctx.probe('erase')
            elif k == 'teleport':
                i = alive(op[1])
                if i is not None:
                    if O.periodic:  # a body may not travel a whole period between two steps
                        p = O.bodies[i].state.pos
                        O.bodies[i].state.pos = Vector3(*[p[a] + (op[2][a] - .5) * .45 * case['cell'][a] for a in range(3)])
                    else:
                        O.bodies[i].state.pos = Vector3(*op[2])
                    st['grace'] = 1  # noticed by the integrator at the end of the next step
                    ctx.probe('teleport')
            elif k == 'kick':
                i = alive(op[1])
                if i is not None:
                    O.bodies[i].state.vel = Vector3(*op[2])
            elif k == 'clear':
                O.interactions.clear()
                ctx.probe('clear')
            elif k == 'reload':
                O.saveTmp('x')
                O.loadTmp('x')
                ctx.probe('reload')
            elif k == 'replace':
                import random
                r = random.Random(op[1])
                O.interactions.clear()
                O.bodies.clear()
                for _ in range(r.choice([2, 5, 30])):
                    add([r.uniform(-.2, .5) for _ in range(3)] + [r.uniform(.04, .1)] + [0, 0, 0])
                ctx.probe('replace')
            elif k == 'nonsphere':
                b = W.Body()
                b.dynamic = False
                O.bodies.append(b)
                ctx.probe('nonspheres')
            elif k == 'togglep' and case.get('cell'):
                O.periodic = False
                O.interactions.clear()
                case = dict(case, cell=None)
                ctx.probe('togglep')
            elif k == 'col':
                O.engines = [W.ForceResetter(), collider(op[1])] + rest()
                ctx.probe('newcollider')
    except RuntimeError as e:
        if 'half of the cell' in str(e):
            return ctx.probe('discarded')
        raise
    if len(O.bodies) >= 1000 and case['threads'] > 1:
        ctx.probe('parallel-sort')
    c = [e for e in O.engines if isinstance(e, W.InsertionSortCollider)][0]
    if c.numAction < st['steps']:
        ctx.probe('stride')
    ctx.check(st['steps'] > 0, 'oracle', 'the oracle did not run')
    O.reset()
    ctx.mix((st['n'], st['steps']))
