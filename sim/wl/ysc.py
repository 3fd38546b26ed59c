"""Random DEM scenes described as JSON, built through yade's Python API."""
import math

LAWS = {
    'frict': dict(mat='FrictMat', geom='ScGeom', ip='Ip2_FrictMat_FrictMat_FrictPhys', law='Law2_ScGeom_FrictPhys_CundallStrack'),
    'mindlin': dict(mat='FrictMat', geom='ScGeom', ip='Ip2_FrictMat_FrictMat_MindlinPhys', law='Law2_ScGeom_MindlinPhys_Mindlin'),
    'hertzlin': dict(mat='FrictMat', geom='ScGeom', ip='Ip2_FrictMat_FrictMat_MindlinPhys', law='Law2_ScGeom_MindlinPhys_HertzWithLinearShear'),
    'deresiewicz': dict(mat='FrictMat', geom='ScGeom', ip='Ip2_FrictMat_FrictMat_MindlinPhys', law='Law2_ScGeom_MindlinPhys_MindlinDeresiewitz'),
    'cohfrict': dict(mat='CohFrictMat', geom='ScGeom6D', ip='Ip2_CohFrictMat_CohFrictMat_CohFrictPhys', law='Law2_ScGeom6D_CohFrictPhys_CohesionMoment'),
    'viscel': dict(mat='ViscElMat', geom='ScGeom', ip='Ip2_ViscElMat_ViscElMat_ViscElPhys', law='Law2_ScGeom_ViscElPhys_Basic'),
    'cpm': dict(mat='CpmMat', geom='ScGeom', ip='Ip2_CpmMat_CpmMat_CpmPhys', law='Law2_ScGeom_CpmPhys_Cpm'),
    'l3': dict(mat='FrictMat', geom='L3Geom', ip='Ip2_FrictMat_FrictMat_FrictPhys', law='Law2_L3Geom_FrictPhys_ElPerfPl'),
    'jcf': dict(mat='JCFpmMat', geom='ScGeom', ip='Ip2_JCFpmMat_JCFpmMat_JCFpmPhys', law='Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM'),
    'viscofrict': dict(mat='FrictMat', geom='ScGeom', ip='Ip2_FrictMat_FrictMat_ViscoFrictPhys', law='Law2_ScGeom_ViscoFrictPhys_CundallStrack'),
    'luding': dict(mat='LudingMat', geom='ScGeom', ip='Ip2_LudingMat_LudingMat_LudingPhys', law='Law2_ScGeom_LudingPhys_Basic'),
    'frictvisco': dict(mat='FrictViscoMat', geom='ScGeom', ip='Ip2_FrictViscoMat_FrictViscoMat_FrictViscoPhys', law='Law2_ScGeom_FrictViscoPhys_CundallStrackVisco'),
    'bubble': dict(mat='BubbleMat', geom='ScGeom', ip='Ip2_BubbleMat_BubbleMat_BubblePhys', law='Law2_ScGeom_BubblePhys_Bubble'),
}
CORE_LAWS = ['frict', 'mindlin', 'hertzlin', 'cohfrict', 'viscel', 'cpm', 'l3', 'jcf', 'viscofrict', 'frictvisco']


def r6(x):
    return round(x, 6)


def gen_spheres(rng, n, d=.2, spread=1., vel=1., ang=5., dim=None):
    """n spheres (radius about d/2) on a jittered lattice; [x,y,z,r,vx,vy,vz,wx,wy,wz]"""
    k = max(1, int(math.ceil(n ** (1 / 3.))))
    dims = dim or (k, k, k)
    cells = [(i, j, l) for i in range(dims[0]) for j in range(dims[1]) for l in range(dims[2])]
    rng.shuffle(cells)
    sp = d * spread
    out = []
    for c in cells[:n]:
        out.append([r6(c[a] * sp + rng.uniform(-.12, .12) * d) for a in range(3)] + [r6(d / 2 * rng.uniform(.85, 1.1))] +
                   [r6(rng.uniform(-vel, vel)) for _ in range(3)] + [r6(rng.uniform(-ang, ang)) for _ in range(3)])
    return out


def gen_scene(rng, n=None, laws=CORE_LAWS, periodic=None, walls=True, clumps=True, energy=True):
    n = n or rng.choice([2, 3, 5, 8, 12, 20, 30])
    law = rng.choice(laws)
    d = .2
    sc = {'law': law, 'spread': rng.choice([.85, .93, 1., 1.05]), 'spheres': None}
    per = (rng.random() < .25) if periodic is None else periodic
    dim = None
    if per:
        # the collider refuses bodies larger than half of the cell: every edge is at least 5.5 d, long rows touch across the boundary
        k = rng.choice([5, 6, 7])
        dim = [k, 1 + (n > k), 1 + n // (2 * k)]
        sc['cell'] = [r6(max(k, 5.5) * d * (sc['spread'] if k > 5 else 1.) * rng.uniform(1., 1.05)), r6(5.5 * d * rng.uniform(1., 1.3)), r6(5.5 * d * rng.uniform(1., 1.3))]
    sc['spheres'] = gen_spheres(rng, n, d, sc['spread'], vel=rng.choice([.1, 1., 3.]), ang=rng.choice([0., 5., 30.]), dim=dim)
    if per:
        sh = [rng.uniform(-20, 20) * sc['cell'][a] if rng.random() < .3 else rng.uniform(0, 1) * sc['cell'][a] for a in range(3)]
        for s in sc['spheres']:
            for a in range(3):
                s[a] = r6(s[a] + sh[a])
        sc['velGrad'] = [[r6(rng.uniform(-2, 2)) if rng.random() < .4 else 0 for _ in range(3)] for _ in range(3)] if rng.random() < .5 else None
    sc['wall'] = rng.choice([None, 'box', 'wall', 'facet']) if walls and not per and law not in ('cpm', 'bubble', 'l3', 'luding') else None
    if law == 'l3' and not per and walls:
        sc['wall'] = rng.choice([None, 'wall', 'facet'])
    sc['gravity'] = [r6(rng.uniform(-10, 10)) for _ in range(3)] if rng.random() < .6 else [0, 0, 0]
    sc['damping'] = rng.choice([0, 0, .2, .4])
    sc['sweep'] = rng.choice([-1, -.5, .3, 0])
    sc['targetInterv'] = rng.choice([0, 30]) if sc['sweep'] else -1
    sc['energy'] = energy and rng.random() < .4
    sc['ts'] = rng.random() < .5 and law in ('frict', 'mindlin', 'hertzlin', 'cohfrict', 'viscofrict', 'jcf')
    sc['mass_scale'] = 1
    sc['clumps'] = []
    if clumps and not per and n >= 4 and rng.random() < .3 and law in ('frict', 'mindlin', 'viscel', 'l3', 'hertzlin'):
        ids = list(range(n))
        rng.shuffle(ids)
        for _ in range(rng.randint(1, max(1, n // 5))):
            k = rng.randint(2, 4)
            if len(ids) > k:
                sc['clumps'].append(ids[:k])
                ids = ids[k:]
    sc['blocked'] = [[rng.randrange(n), ''.join(c for c in 'xyzXYZ' if rng.random() < .5)] for _ in range(rng.choice([0, 0, 1, 3]))] if not sc['clumps'] else []
    return sc


CONTROLS = ['translation', 'rotation', 'helix', 'interphelix', 'harmonic', 'harmrot', 'combined', 'servo', 'pedal', 'displacer', 'force', 'torque', 'drag', 'gravity', 'central', 'axial', 'dirforce']


def gen_control(rng, sc):
    """engines which drive bodies, boundaries or the cell"""
    n = len(sc['spheres'])
    sc['control'] = []
    if rng.random() < .55:
        return sc
    free = [i for i in range(n) if not any(i in g for g in sc['clumps'])]
    v = lambda a: [r6(rng.uniform(-a, a)) for _ in range(3)]
    if sc.get('cell'):
        if sc['law'] in ('frict', 'mindlin', 'cohfrict', 'viscofrict'):
            sc['control'].append([rng.choice(['peritriax', 'peritriax', 'periiso', 'peri3d']), [], v(3e4), rng.randrange(8), rng.random() < .4, rng.choice([1, 2, 5])])
    elif sc['law'] in ('frict', 'mindlin', 'viscofrict') and not sc['clumps'] and rng.random() < .5:
        sc['wall'] = None
        sc['control'].append(['triax', [], v(2e4), rng.randrange(8), rng.random() < .3, rng.choice([1, 3, 10])])
        sc['start'] = rng.choice([0, 0, 100, 200])
    if free:
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            k = rng.choice(CONTROLS)
            ids = rng.sample(free, min(len(free), rng.choice([1, 1, 2, 4])))
            sc['control'].append([k, ids, v(1.), rng.randrange(8), rng.random() < .5, rng.choice([1, 2, 5])])
    return sc


def controls(sc, O, W, ids):
    """(engines before the integrator, engines after it)"""
    from minieigen import Vector3, Vector2, Vector6, Quaternion
    from yade import utils
    pre, post = [], []
    for k, ii, v, m, flag, n in sc.get('control') or []:
        V = Vector3(*v)
        a = V.normalized()
        kw = dict(ids=[ids[i] for i in ii])
        kin = lambda j: [W.TranslationEngine(velocity=v[0], translationAxis=Vector3(0, 1, 0), **kw), W.RotationEngine(angularVelocity=v[1] * 9, rotationAxis=a, rotateAroundZero=True, zeroPoint=V * .2, **kw), W.HarmonicMotionEngine(A=V * .01, f=V * 60, fi=V, **kw)][j % 3]
        if k == 'triax':
            lo = Vector3(*[min(s[c] - s[3] for s in sc['spheres']) for c in range(3)])
            hi = Vector3(*[max(s[c] + s[3] for s in sc['spheres']) for c in range(3)])
            w = [O.bodies.append(b) for b in utils.aabbWalls((lo, hi), thickness=.02, oversizeFactor=2)]
            e = W.TriaxialStressController(wall_left_id=w[0], wall_right_id=w[1], wall_bottom_id=w[2], wall_top_id=w[3], wall_back_id=w[4], wall_front_id=w[5], stressMask=m, internalCompaction=flag and m > 0, goal1=v[0] * (1 if m & 1 else 1e-5), goal2=v[1] * (1 if m & 2 else 1e-5),
                                           goal3=v[2] * (1 if m & 4 else 1e-5), max_vel=.5, stiffnessUpdateInterval=n, radiusControlInterval=n, computeStressStrainInterval=n, maxMultiplier=1.002)
        elif k == 'peritriax':
            e = W.PeriTriaxController(dynCell=flag, goal=Vector3(*[v[c] * (1 if m & (1 << c) else 1e-6) for c in range(3)]), stressMask=m, maxStrainRate=Vector3(3, 3, 3), globUpdate=n)
        elif k == 'periiso':
            e = W.PeriIsoCompressor(stresses=[-abs(v[0]) - 1, -abs(v[1]) - 2], charLen=.02, globalUpdateInt=n, keepProportions=flag, doneHook='')
        elif k == 'peri3d':
            e = W.Peri3dController(goal=Vector6(*[v[c] * (1 if m & (1 << c) else 1e-6) for c in range(3)] + [0, v[0] * 1e-6, 0]), stressMask=m, nSteps=100, youngEstimation=1e6, maxStrainRate=3.)
        elif k in ('translation', 'rotation', 'harmonic'):
            e = kin(['translation', 'rotation', 'harmonic'].index(k))
        elif k == 'helix':
            e = W.HelixEngine(linearVelocity=v[0], angularVelocity=v[1] * 5, rotationAxis=a, zeroPoint=V, **kw)
        elif k == 'interphelix':
            e = W.InterpolatingHelixEngine(times=[0, 5e-4, 1e-3, 2e-3], angularVelocities=[v[0] * 9, v[1] * 9, -v[0] * 9, v[2]], wrap=flag, slope=.1, rotationAxis=a, zeroPoint=V, **kw)
        elif k == 'harmrot':
            e = W.HarmonicRotationEngine(A=v[0] * .1, f=50., fi=v[1], rotationAxis=a, rotateAroundZero=flag, zeroPoint=V, **kw)
        elif k == 'combined':
            e = W.CombinedKinematicEngine(comb=[kin(m), kin(m + 1)], **kw)
        elif k == 'servo':
            e = W.ServoPIDController(axis=a, maxVelocity=.5, iterPeriod=n, target=abs(v[0]) * 50, kP=1e-4, kI=1e-5, kD=1e-5, **kw)
        elif k == 'pedal':
            e = W.BicyclePedalEngine(angularVelocity=v[0] * 9, radius=.1, rotationAxis=a, **kw)
        elif k == 'displacer':
            e = W.StepDisplacer(mov=V * 1e-5, rot=Quaternion(a, .001), setVelocities=flag, **kw)
        elif k == 'force':
            e = W.ForceEngine(force=V * 50, **kw)
        elif k == 'torque':
            e = W.TorqueEngine(moment=V, **kw)
        elif k == 'drag':
            e = (W.LinearDragEngine(nu=.5, **kw) if flag else W.DragEngine(Rho=50., Cd=.47, **kw))
        elif k == 'gravity':
            e = W.GravityEngine(gravity=V * 9)
        elif k == 'central':
            e = W.CentralGravityEngine(centralBody=kw['ids'][0], accel=v[0] * 9, reciprocal=flag)
        elif k == 'axial':
            e = W.AxialGravityEngine(axisPoint=V, axisDirection=a, acceleration=v[0] * 9)
        else:
            e = W.InterpolatingDirectedForceEngine(times=[0, 5e-4, 1e-3], magnitudes=[0, v[0] * 50, v[1] * 50], direction=a, wrap=flag, **kw)
        (post if k == 'servo' or (k in ('translation', 'rotation', 'peritriax') and m % 2) else pre).append(e)
    return pre, post


def probes(sc, ctx):
    for c in sc.get('control') or []:
        ctx.probe(c[0])


def material(W, name):
    k = dict(young=1e6, poisson=.3, frictionAngle=.4, density=2600)
    if name == 'FrictMat':
        return W.FrictMat(**k)
    if name == 'CohFrictMat':
        return W.CohFrictMat(isCohesive=True, normalCohesion=2e4, shearCohesion=2e4, momentRotationLaw=True, alphaKr=.5, alphaKtw=.5, etaRoll=.1, **k)
    if name == 'ViscElMat':
        return W.ViscElMat(kn=2e4, ks=1e4, cn=20, cs=10, frictionAngle=.4, density=2600)
    if name == 'CpmMat':
        return W.CpmMat(young=1e6, poisson=.2, frictionAngle=.5, density=2600, sigmaT=2e4, epsCrackOnset=1e-3, relDuctility=10)
    if name == 'JCFpmMat':
        return W.JCFpmMat(young=1e6, poisson=.3, frictionAngle=.4, density=2600, tensileStrength=1e4, cohesion=1e4)
    if name == 'LudingMat':
        return W.LudingMat(k1=2e4, kp=4e4, kc=1e4, ks=1e4, G0=5, PhiF=.05, frictionAngle=.4, density=2600)
    if name == 'FrictViscoMat':
        return W.FrictViscoMat(betan=.2, **k)
    if name == 'BubbleMat':
        return W.BubbleMat(density=1000)
    raise ValueError(name)


def geoms(W, g):
    if g == 'ScGeom':
        return [W.Ig2_Sphere_Sphere_ScGeom(), W.Ig2_Box_Sphere_ScGeom(), W.Ig2_Facet_Sphere_ScGeom(), W.Ig2_Wall_Sphere_ScGeom()]
    if g == 'ScGeom6D':
        return [W.Ig2_Sphere_Sphere_ScGeom6D(), W.Ig2_Box_Sphere_ScGeom6D(), W.Ig2_Facet_Sphere_ScGeom6D()]
    return [W.Ig2_Sphere_Sphere_L3Geom(), W.Ig2_Facet_Sphere_L3Geom(), W.Ig2_Wall_Sphere_L3Geom()]


def law2(W, sc):
    n = LAWS[sc['law']]['law']
    kw = {}
    if sc.get('energy') and n in ('Law2_ScGeom_FrictPhys_CundallStrack',):
        kw['traceEnergy'] = True
    l = getattr(W, n)(**kw)
    if n == 'Law2_ScGeom_MindlinPhys_Mindlin' and sc.get('energy'):
        l.calcEnergy = True
    return l


def build(sc, O, W, extra=()):
    """fill the (reset) scene; returns ids of the spheres"""
    from yade import utils
    from minieigen import Vector3, Quaternion, Matrix3
    L = LAWS[sc['law']]
    O.materials.append(material(W, L['mat']))
    ids = []
    if sc.get('cell'):
        O.periodic = True
        O.cell.setBox(Vector3(*sc['cell']))
        if sc.get('velGrad'):
            O.cell.velGrad = Matrix3(*[x for r in sc['velGrad'] for x in r])
    for s in sc['spheres']:
        b = utils.sphere(Vector3(*s[:3]), s[3])
        b.state.vel = Vector3(*s[4:7])
        b.state.angVel = Vector3(*s[7:10])
        ids.append(O.bodies.append(b))
    if sc.get('wall'):
        lo = min(s[2] - s[3] for s in sc['spheres'])
        ext = max(max(abs(x) for x in s[:3]) for s in sc['spheres']) + 1
        z = lo + .02
        if sc['wall'] == 'box':
            O.bodies.append(utils.box(Vector3(0, 0, z - .1), Vector3(ext, ext, .1), fixed=True))
        elif sc['wall'] == 'wall':
            if L['geom'] == 'ScGeom6D':
                O.bodies.append(utils.box(Vector3(0, 0, z - .1), Vector3(ext, ext, .1), fixed=True))
            else:
                O.bodies.append(utils.wall(z, axis=2))
        else:
            O.bodies.append(utils.facet([Vector3(-2 * ext, -2 * ext, z), Vector3(4 * ext, -2 * ext, z), Vector3(-2 * ext, 4 * ext, z)]))
    for g in sc.get('clumps', []):
        O.bodies.clump([ids[i] for i in g])
    for i, dof in sc.get('blocked', []):
        O.bodies[ids[i]].state.blockedDOFs = dof
    ip = getattr(W, L['ip'])()
    if L['ip'].startswith('Ip2_CohFrictMat'):
        ip.setCohesionNow = True
    if L['ip'].startswith('Ip2_JCFpm') or L['ip'].startswith('Ip2_CpmMat'):
        ip.cohesiveTresholdIteration = 5 if 'Cpm' in L['ip'] else 1
    col = W.InsertionSortCollider([W.Bo1_Sphere_Aabb(), W.Bo1_Box_Aabb(), W.Bo1_Facet_Aabb(), W.Bo1_Wall_Aabb()])
    if sc.get('sweep', -1) is not None:
        col.verletDist = sc['sweep'] * .05 if sc['sweep'] > 0 else sc['sweep']
    if sc.get('targetInterv') is not None and sc['targetInterv'] >= 0:
        col.targetInterv = sc['targetInterv']
    loop = W.InteractionLoop(geoms(W, L['geom']), [ip], [law2(W, sc)])
    pre, post = controls(sc, O, W, ids)
    eng = [W.ForceResetter(), col, loop]
    if sc.get('ts'):
        eng.append(W.GlobalStiffnessTimeStepper(timestepSafetyCoefficient=.3, timeStepUpdateInterval=3, active=True))
    n = W.NewtonIntegrator(damping=sc.get('damping', 0), gravity=Vector3(*sc.get('gravity', [0, 0, 0])))
    eng += list(extra) + pre + [n] + post
    O.trackEnergy = bool(sc.get('energy'))
    O.engines = eng
    O.dt = 1e-4 if sc['law'] not in ('cpm', 'jcf') else 5e-5
    return ids


def snapshot(O):
    """(positions/velocities/orientations..., real contacts with forces, energies, dt)"""
    st = []
    for i in range(len(O.bodies)):
        b = O.bodies[i]
        if b is None:
            st.append(None)
            continue
        s = b.state
        st.append([tuple(s.pos), tuple(s.vel), tuple(s.angVel), (s.ori[0], s.ori[1], s.ori[2], s.ori[3])])
    intr = {}
    for k in O.interactions:
        if k.isReal:
            p = k.phys
            sg = 1. if k.id1 < k.id2 else -1.  # a re-created contact may have its ids the other way round
            intr[tuple(sorted((k.id1, k.id2)))] = tuple(tuple(sg * c for c in getattr(p, a)) if hasattr(p, a) else None for a in ('normalForce', 'shearForce'))
    en = dict(O.energy.items()) if O.trackEnergy else {}
    return {'bodies': st, 'intr': intr, 'energy': en, 'dt': O.dt, 'iter': O.iter, 'time': O.time}


def diff(a, b, tol=1e-9, ftol=None):
    """first difference of two snapshots, or None. tol: absolute for state values relative to max(1,|x|)"""
    ftol = ftol or tol * 1e4
    if len(a['bodies']) != len(b['bodies']):
        return 'number of bodies %d / %d' % (len(a['bodies']), len(b['bodies']))
    nm = ['position', 'velocity', 'angular velocity', 'orientation']
    for i, (x, y) in enumerate(zip(a['bodies'], b['bodies'])):
        if (x is None) != (y is None):
            return 'body %d exists / does not' % i
        if x is None:
            continue
        for n, p, q in zip(nm, x, y):
            for u, v in zip(p, q):
                if not abs(u - v) <= tol * max(1., abs(u)):
                    return '%s of body %d: %r / %r' % (n, i, p, q)
    if set(a['intr']) != set(b['intr']):
        return 'real contacts differ: only first %s, only second %s' % (sorted(set(a['intr']) - set(b['intr']))[:5], sorted(set(b['intr']) - set(a['intr']))[:5])
    for k in a['intr']:
        for n, p, q in zip(('normal force', 'shear force'), a['intr'][k], b['intr'][k]):
            if p is None:
                continue
            for u, v in zip(p, q):
                if not abs(u - v) <= ftol * max(1., abs(u)):
                    return '%s of contact %s: %r / %r' % (n, k, p, q)
    if set(a['energy']) != set(b['energy']):
        return 'energy names %s / %s' % (sorted(a['energy']), sorted(b['energy']))
    for k in a['energy']:
        u, v = a['energy'][k], b['energy'][k]
        if not abs(u - v) <= max(tol * 1e3, 1e-9) * max(1., abs(u)):
            return 'energy %s: %r / %r' % (k, u, v)
    for k in ('dt', 'time'):
        if not abs(a[k] - b[k]) <= 1e-9 * abs(a[k]):
            return '%s: %r / %r' % (k, a[k], b[k])
    if a['iter'] != b['iter']:
        return 'iter: %r / %r' % (a['iter'], b['iter'])
    return None
