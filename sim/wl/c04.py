"""C04: the containers of bodies and contacts stay consistent with each other and with the history of insertions and removals."""
from simctx import gen_policy
import ysc
BUDGET = {'quick': (12000, 25), 'thorough': (400000, 1500)}
RULE = ('Cases: 2..14 spheres near each other and a random history of append, appendList, erase, insertAtId (free, taken and invalid ids), contacts erased, cleared, purged of potential ones or created by hand, all of them by the client between steps or by Python engines at four places inside the step '
        '(also of a background run), save/load, 1..6 threads, contact laws which break contacts, collider with or without stride, another collider. After every operation and at every place inside the steps all views of the two containers are compared with each other and with a model of the body list.')
PROBES = ['append', 'appendList', 'erase', 'erase-invalid', 'insertAtId', 'insertAtId-invalid', 'ierase', 'iclear', 'inonreal', 'icreate', 'reload', 'inloop', 'bg', 'real', 'potential', 'quicksort']


def gen_sphere(rng):
    return [ysc.r6(rng.uniform(0, .6)) for _ in range(3)] + [ysc.r6(rng.uniform(.05, .15))] + [ysc.r6(rng.uniform(-3, 3)) for _ in range(3)]


def generate(rng, tier):
    n = rng.choice([2, 3, 5, 9, 14])
    ops = []
    for _ in range(rng.randint(3, 22)):
        k = rng.choice(['run', 'run', 'run', 'bg', 'append', 'appendList', 'erase', 'erase', 'erase', 'erasebad', 'insert', 'insert', 'insertbad', 'ierase', 'ierase', 'iclear', 'inonreal', 'icreate', 'reload'])
        where = rng.choice('ccABCD')
        if k in ('run', 'bg'):
            ops.append([k, rng.choice([1, 1, 2, 5]), 'c'])
            continue
        a = [rng.randrange(1000), rng.randrange(1000)]
        if k == 'append':
            a = gen_sphere(rng)
        elif k == 'appendList':
            a = [gen_sphere(rng) for _ in range(rng.randint(0, 4))]
        elif k == 'insert':
            a = [rng.randrange(1000), gen_sphere(rng)]
        elif k == 'erasebad':
            a = rng.choice([-1, -7, 3, 1000, 100000])
        elif k == 'insertbad':
            a = [rng.choice([-1, -5, 0, 1, 2, 1000]), gen_sphere(rng)]
        elif k == 'iclear' and rng.random() < .5:
            continue
        elif k == 'reload':
            where = 'c'
        ops.append([k, a, where])
    ops += [['run', 2, 'c']]
    return {'threads': rng.choice([1, 1, 2, 3, 6]), 'pol': gen_policy(rng), 'spheres': [gen_sphere(rng) for _ in range(n)], 'ops': ops, 'dt': rng.choice([1e-4, 2e-3]), 'verlet': rng.choice([0, .02, .2]),
            'law': rng.choice(['frict', 'coh']), 'col': rng.choice(['isc', 'isc', 'isc', 'qs'])}


def execute(case, ctx):
    import yade.wrapper as W
    from yade import utils
    from minieigen import Vector3
    import __main__
    O = W.Omega()
    O.reset()
    st = {'tag': 0, 'M': [], 'erased': set()}
    if case['law'] == 'coh':
        O.materials.append(W.CohFrictMat(young=1e5, poisson=.3, frictionAngle=.3, density=1000, normalCohesion=1e4, shearCohesion=1e4, isCohesive=True, momentRotationLaw=False))
    else:
        O.materials.append(W.FrictMat(young=1e5, poisson=.3, frictionAngle=.3, density=1000))

    def mk(s):
        b = utils.sphere(Vector3(*s[:3]), s[3])
        b.state.vel = Vector3(*s[4:7])
        b.chain = st['tag']
        st['tag'] += 1
        return b
    for s in case['spheres']:
        b = mk(s)
        st['M'].append(b.chain)
        O.bodies.append(b)
    col = W.InsertionSortCollider([W.Bo1_Sphere_Aabb()], verletDist=case['verlet']) if case['col'] == 'isc' else W.SpatialQuickSortCollider([W.Bo1_Sphere_Aabb()])
    if case['col'] == 'qs':
        ctx.probe('quicksort')
    loop = W.InteractionLoop([W.Ig2_Sphere_Sphere_ScGeom()], [W.Ip2_FrictMat_FrictMat_FrictPhys()], [W.Law2_ScGeom_FrictPhys_CundallStrack()]) if case['law'] == 'frict' else \
        W.InteractionLoop([W.Ig2_Sphere_Sphere_ScGeom6D()], [W.Ip2_CohFrictMat_CohFrictMat_CohFrictPhys(setCohesionOnNewContacts=True)], [W.Law2_ScGeom6D_CohFrictPhys_CohesionMoment(always_use_moment_law=False)])

    def py(c):
        return W.PyRunner(command='import __main__; __main__.c04("%s")' % c, iterPeriod=1, initRun=True)
    O.engines = [W.ForceResetter(), py('A'), col, py('B'), loop, py('C'), W.NewtonIntegrator(damping=.2), py('D')]
    O.dt = case['dt']
    bad = []

    def check(what):
        M = st['M']
        C = ctx.check
        C(len(O.bodies) == len(M), 'body-list', lambda: '%s: %d bodies, expected %d' % (what, len(O.bodies), len(M)))
        for i, t in enumerate(M):
            b = O.bodies[i]
            C((b is None) == (t is None), 'body-list', lambda: '%s: body %d %s' % (what, i, 'vanished' if b is None else 'was erased, but is there'))
            if b is not None:
                C(b.id == i and b.chain == t, 'body-list', lambda: '%s: body in place %d has id %d; it is the one inserted as number %d, expected number %d' % (what, i, b.id, b.chain, t))
        C([b.chain for b in O.bodies] == [t for t in M if t is not None], 'body-list', lambda: '%s: iterating over the bodies gives others than access by id' % what)
        al = O.interactions.all()
        C(len(al) == len(O.interactions), 'contact-list', lambda: '%s: %d contacts listed, length %d' % (what, len(al), len(O.interactions)))
        D = {}
        real = set()
        for I in al:
            k = (min(I.id1, I.id2), max(I.id1, I.id2))
            C(k not in D, 'contact-twice', lambda: '%s: contact %s is there twice' % (what, k))
            D[k] = repr(I)
            if I.isReal:
                real.add(k)
                ctx.probe('real')
                C(k[1] < len(M) and M[k[0]] is not None and M[k[1]] is not None, 'contact-of-erased', lambda: '%s: real contact %s of a body which was erased' % (what, k))
            else:
                ctx.probe('potential')
        C(sorted((min(I.id1, I.id2), max(I.id1, I.id2)) for I in O.interactions) == sorted(real), 'contact-list', lambda: '%s: iteration does not give the real contacts' % what)
        C(O.interactions.countReal() == len(real), 'contact-count', lambda: '%s: countReal %d, there are %d' % (what, O.interactions.countReal(), len(real)))
        ex = [i for i, t in enumerate(M) if t is not None]
        for i in ex:
            mine = {repr(I) for I in O.bodies[i].intrs()}
            C(mine == {D[k] for k in real if i in k}, 'contacts-of-body', lambda: '%s: body %d has %d real contacts, the contact list has %s for it' % (what, i, len(mine), sorted(k for k in real if i in k)))
            C(len(O.interactions.withBody(i)) == len(mine), 'contacts-of-body', lambda: '%s: withBody(%d)' % (what, i))
            for j in ex:
                if i < j:
                    C(O.interactions.has(i, j) == ((i, j) in D) and O.interactions.has(j, i) == ((i, j) in D), 'contact-lookup', lambda: '%s: has(%d,%d) is %s, the contact list %s it' % (what, i, j, O.interactions.has(i, j), 'has' if (i, j) in D else 'does not have'))
                    if (i, j) in D:
                        C(repr(O.interactions[i, j]) == D[(i, j)] and repr(O.interactions[j, i]) == D[(i, j)], 'contact-lookup', lambda: '%s: O.interactions[%d,%d] is not the contact in the list' % (what, i, j))
        for i in [k for k, t in enumerate(M) if t is None][:2]:
            for j in ex[:2]:
                try:
                    C(not O.interactions[i, j].isReal, 'contact-of-erased', lambda: '%s: real contact of erased body %d' % (what, i))
                except IndexError:
                    pass
        return real

    def do(op):
        k, a, where = op
        M = st['M']
        ex = [i for i, t in enumerate(M) if t is not None]
        if k == 'append':
            b = mk(a)
            r = O.bodies.append(b)
            ctx.check(r == len(M), 'new-id', lambda: 'appended body got id %d, expected %d' % (r, len(M)))
            M.append(b.chain)
            ctx.probe('append')
        elif k == 'appendList':
            bb = [mk(s) for s in a]
            if bb:
                r = O.bodies.append(bb)
                ctx.check(list(r) == list(range(len(M), len(M) + len(bb))), 'new-id', lambda: 'appended bodies got ids %s' % r)
                M += [b.chain for b in bb]
                ctx.probe('appendList')
        elif k == 'erase' and len(ex) > 1:
            i = ex[a[0] % len(ex)]
            r = O.bodies.erase(i)
            ctx.check(r, 'erase', lambda: 'erase(%d) returned %s' % (i, r))
            M[i] = None
            ctx.probe('erase')
        elif k == 'erasebad':
            if not (0 <= a < len(M) and M[a] is not None):
                r = O.bodies.erase(a)
                ctx.check(not r, 'erase', lambda: 'erase(%d) of a body which is not there returned %s' % (a, r))
                ctx.probe('erase-invalid')
        elif k == 'insert':
            free = [i for i, t in enumerate(M) if t is None]
            if free:
                i = free[a[0] % len(free)]
                b = mk(a[1])
                r = O.bodies.insertAtId(b, i)
                ctx.check(r == i, 'new-id', lambda: 'insertAtId(%d) returned %d' % (i, r))
                M[i] = b.chain
                ctx.probe('insertAtId')
        elif k == 'insertbad':
            if not (0 <= a[0] < len(M) and M[a[0]] is None):
                r = O.bodies.insertAtId(mk(a[1]), a[0])
                ctx.check(r == -1, 'new-id', lambda: 'insertAtId(%d), which is not free, returned %d' % (a[0], r))
                ctx.probe('insertAtId-invalid')
        elif k == 'ierase' and len(ex) > 1:
            l = O.interactions.all()
            i, j = (l[a[0] % len(l)].id1, l[a[0] % len(l)].id2) if l and a[1] % 4 else (ex[a[0] % len(ex)], ex[a[1] % len(ex)])
            O.interactions.erase(i, j)
            ctx.check(not [1 for I in O.interactions if {I.id1, I.id2} == {i, j} and I.isReal], 'contact-erase', lambda: 'contact %d,%d is still real after it was erased' % (i, j))
            ctx.probe('ierase')
        elif k == 'iclear':
            O.interactions.clear()
            ctx.check(len(O.interactions) == 0, 'contact-clear', lambda: '%d contacts after clear()' % len(O.interactions))
            ctx.probe('iclear')
        elif k == 'inonreal':
            before = O.interactions.countReal()
            O.interactions.eraseNonReal()
            ctx.check(len(O.interactions) == before and O.interactions.countReal() == before, 'contact-nonreal', lambda: 'eraseNonReal left %d contacts, %d of them real; %d were real before' % (len(O.interactions), O.interactions.countReal(), before))
            ctx.probe('inonreal')
        elif k == 'icreate' and len(ex) > 1 and where in 'cD':
            i, j = ex[a[0] % len(ex)], ex[a[1] % len(ex)]
            if i != j and not O.interactions.has(i, j):
                utils.createInteraction(i, j)
                ctx.check(O.interactions[i, j].isReal, 'contact-create', 'created contact is not real')
                ctx.probe('icreate')
        elif k == 'reload':
            O.saveTmp('c04')
            real = sorted((I.id1, I.id2) for I in O.interactions)
            O.loadTmp('c04')
            r2 = sorted((I.id1, I.id2) for I in O.interactions)
            ctx.check(real == r2, 'contact-list', lambda: 'contacts after loading differ: %s / %s' % (real, r2))
            ctx.probe('reload')
        check('after %s (%s)' % (k, where))
    pend = {}

    def hook(w):
        try:
            if bad:
                return
            check('iteration %d at %s' % (O.iter, w))
            for op in pend.pop(w, []):
                do(op)
                ctx.probe('inloop')
        except BaseException as e:
            bad.append(e)
    __main__.c04 = hook
    check('start')
    for op in case['ops']:
        if op[0] in ('run', 'bg'):
            if op[0] == 'run':
                for _ in range(op[1]):
                    O.step()
            else:
                O.run(op[1], True)
                ctx.probe('bg')
            if bad:
                raise bad[0]
            check('after %s' % op[:2])
        elif op[2] == 'c':
            do(op)
        else:
            pend.setdefault(op[2], []).append(op)
    O.reset()
    ctx.mix((st['tag'], [t is None for t in st['M']], O.iter))
