"""C15: fluid coupling (PFV): fluid forces and fluxes are those of the current boundary conditions and motion, whatever threads and background remeshing do."""
import math
from simctx import gen_policy
import ysc
BUDGET = {'quick': (8000, 30), 'thorough': (300000, 1500)}
PRELOAD = ['pfv/libyadepfv.so']
TIMEOUT = 90
RULE = ('Cases: 5..27 spheres in a box of six walls with a random flow engine (direct or iterative solver, pressure or no-flux on each side, compressible or not, lubrication terms, clamped permeability, remeshing every 1..6 steps or on demand, in the foreground or in a background thread, 1..4 threads), '
        'and a random history of runs, changed velocities of spheres and walls, changed boundary values, imposed and cleared pressures and fluxes, forced remeshing, engines replaced, saving and loading, resets while the background thread works. '
        'Time steps are so short that positions practically do not change: every step is compared with the same history computed with one thread and no background remeshing.')
PROBES = ['multithread', 'gauss-seidel', 'cholesky', 'moving-walls', 'moving-spheres', 'imposeP', 'imposeQ', 'bc', 'remesh', 'reload', 'reset-running', 'replace', 'bg', 'compressible', 'lubrication', 'moved', 'conservation', 'prescribed', 'bounded']
REAL = 'yade core, pkg/common, pkg/dem, pkg/pfv/FlowEngine (template), lib/triangulation, CGAL, CHOLMOD, python wrapper'
STUB = 'OpenMP runtime, pthread scheduling, clocks (libysim); OpenBLAS with one thread'
DT = 1e-7


def generate(rng, tier):
    n = rng.choice([5, 8, 14, 20, 27])
    cells = [(i, j, l) for i in range(3) for j in range(3) for l in range(3)]
    rng.shuffle(cells)
    sp = [[ysc.r6((x + .5 + rng.uniform(-.09, .09)) / 3) for x in c] + [ysc.r6(rng.uniform(.1, .125))] for c in cells[:n]]
    solver = rng.choice([0, 3, 3, 3])
    isp = [rng.random() < .4 for _ in range(6)]
    if rng.random() < .5:
        ax = rng.randrange(3)
        isp = [i // 2 == ax and (i % 2 == 0 or rng.random() < .7) for i in range(6)]
    if not any(isp):
        isp[rng.randrange(6)] = True
    mt = solver == 3 and rng.random() < .6
    c = {'threads': rng.choice([1, 2, 3, 4]), 'pol': gen_policy(rng), 'spheres': sp, 'solver': solver, 'isp': isp, 'mt': mt, 'off': rng.choice([0, 0, 0, -50, 1500] if solver else [0, 0, -5]),
         'bv': [ysc.r6(rng.uniform(-5, 5)) for _ in range(6)], 'mesh': rng.choice([1, 2, 3, 6, -1]), 'omp': rng.choice([-1, 1, 2, 3]), 'lub': rng.choice(['', '', '', 'shear', 'viscous', 'shearpump']),
         'K': 0 if mt else rng.choice([0, 0, 0, 1]), 'clamp': rng.random() < .5, 'kf': rng.choice([1., 1., 10.]), 'limits': [60000000, 6000000000]}
    ops = []
    for _ in range(rng.randint(2, 9)):
        k = rng.choice(['run', 'run', 'run', 'bg', 'vel', 'wallvel', 'bc', 'imposeP', 'setP', 'imposeQ', 'clearP', 'clearQ', 'remesh', 'settle', 'reload', 'replace', 'reset', 'move', 'move'])
        if k in ('run', 'bg'):
            ops.append([k, rng.choice([1, 2, 3, 7])])
        else:
            ops.append([k, rng.randrange(1000), [ysc.r6(rng.uniform(-1, 1)) for _ in range(3)]])
    ops += [['run', 3], ['settle', 0, [0, 0, 0]]]
    c['ops'] = ops
    return c


class Sim(object):
    def __init__(self, case, ctx, ref):
        import yade.wrapper as W
        from minieigen import Vector3
        self.W, self.V, self.O, self.case, self.ctx, self.ref = W, Vector3, W.Omega(), case, ctx, ref
        self.log = []
        self.imp, self.impv = [], []
        self.exact = True
        self.q, self.src = 0., []
        self.net = []

    def engine(self):
        c = self.case
        W = self.W
        f = W.FlowEngine(useSolver=c['solver'], bndCondIsPressure=c['isp'], bndCondValue=self.bv, boundaryUseMaxMin=[False] * 6, viscosity=2., permeabilityFactor=c['kf'], meshUpdateInterval=c['mesh'] if not (self.ref and c['mt']) else -1,
                         defTolerance=-1, tolerance=1e-12, clampKValues=c['clamp'], multithread=c['mt'] and not self.ref, ompThreads=c['omp'] if not self.ref else 1)
        if c['K']:
            f.fluidBulkModulus = 1e9
        if c['lub'] in ('shear', 'shearpump'):
            f.shearLubrication = True
            f.pumpTorque = c['lub'] == 'shearpump'
        elif c['lub'] == 'viscous':
            f.viscousShear = True
        return f

    def build(self):
        W, V, O, c = self.W, self.V, self.O, self.case
        from yade import utils
        O.reset()
        o = V(1, 1, 1) * c['off']
        O.materials.append(W.FrictMat(young=1e6, poisson=.3, frictionAngle=.3, density=2600))
        O.bodies.append(utils.aabbWalls([V(0, 0, 0) + o, V(1, 1, 1) + o], thickness=0))
        for s in c['spheres']:
            O.bodies.append(utils.sphere(V(*s[:3]) + o, s[3], fixed=True))
        self.bv = list(c['bv'])
        self.vel = {}
        self.imp, self.impv = [], []
        self.q, self.src = 0., []
        self.exact = True
        self.flow = self.engine()
        O.engines = [W.ForceResetter(), W.InsertionSortCollider([W.Bo1_Sphere_Aabb(), W.Bo1_Box_Aabb()]),
                     W.InteractionLoop([W.Ig2_Sphere_Sphere_ScGeom(), W.Ig2_Box_Sphere_ScGeom()], [W.Ip2_FrictMat_FrictMat_FrictPhys()], [W.Law2_ScGeom_FrictPhys_CundallStrack()]),
                     self.flow, W.PyRunner(command='FL.after()', iterPeriod=1, initRun=True), W.NewtonIntegrator(damping=0)]
        O.dt = DT

    def after(self):
        O = self.O
        n = len(O.bodies)
        self.log.append(('step' if self.exact else 'lag', [tuple(O.forces.f(i)) + tuple(O.forces.t(i)) for i in range(n)]))

    def settle(self):
        """mesh the current geometry with the current conditions (in the background: what is under way, then a new one), then read the engine"""
        f, O, V = self.flow, self.O, self.V
        keep = f.meshUpdateInterval
        self.exact = False
        f.meshUpdateInterval = -1
        for _ in range(4):
            f.updateTriangulation = True
            O.run(1, True)
        self.exact = True
        O.run(2, True)
        o = self.case['off']
        pts = [V(*p) + V(1, 1, 1) * o for p in ((.5, .5, .5), (.2, .3, .7), (.8, .6, .15), (.31, .82, .44))]
        q = [f.getBoundaryFlux(i) for i in range(6) if self.case['isp'][i]]
        n = len(O.bodies)
        F = [f.fluidForce(i) for i in range(n)]
        self.log.append(('settle', [f.getPorePressure(tuple(p)) for p in pts], q, f.nCells(), [tuple(x) for x in F]))
        big = max([abs(x) for x in q] + [.1])
        isp = self.case['isp']
        if not self.case['K'] and not self.imp and all(self.inner(x) for x in self.src) and sum(isp) <= 2 and not any(isp[i] and isp[j] for i in range(6) for j in range(6) if i // 2 != j // 2):
            self.net.append((sum(q), self.balance(), self.q, big))
        f.meshUpdateInterval = keep
        self.cells()
        if not self.case['lub']:
            m = max([x.norm() for x in F] + [1e-2])
            for i in range(6, n):
                self.bad((O.forces.f(i) - F[i]).norm() <= 1e-6 * m and O.forces.t(i).norm() <= 1e-6 * m, 'force', lambda: 'fluid force on sphere %d is %r, applied are force %r and torque %r' % (i, F[i], O.forces.f(i), O.forces.t(i)))

    def bad(self, ok, kind, msg):
        if not self.ref:
            self.ctx.check(ok, kind, msg)

    def cells(self):
        """pressures which are prescribed"""
        f, c = self.flow, self.case
        at = {}
        for p, v in zip(self.imp, self.impv):
            at.setdefault(f.getCell(*p), []).append(v)
        lo, hi = [], []
        free = []
        for i in range(f.nCells()):
            side = [self.bv[v] for v in f.getVertices(i) if v < 6 and c['isp'][v]]
            p = f.getCellPressure(i)
            want = at.get(i) or side
            if want:
                self.ctx.probe('prescribed')
                lo.append(min(want)), hi.append(max(want))
                if i in at and len(at[i]) > 1:
                    continue
                self.bad(min(abs(p - w) for w in want) <= 1e-9, 'prescribed', lambda: 'pressure %r in cell %d (vertices %r), prescribed %r' % (p, i, f.getVertices(i), want))
            else:
                free.append((i, p))
            self.bad(bool(f.getCellPImposed(i)) == bool(want), 'prescribed', lambda: 'cell %d (vertices %r): pressure imposed %r, prescribed %r' % (i, f.getVertices(i), f.getCellPImposed(i), want))
        if lo and not self.q and not self.src and not any(x for v in self.vel.values() for x in v) and not c['K'] and c['clamp']:
            self.ctx.probe('bounded')
            lo, hi = min(lo), max(hi)
            for i, p in free:
                self.bad(lo - 1e-4 * (hi - lo + .1) <= p <= hi + 1e-4 * (hi - lo + .1), 'bounds', lambda: 'pressure %r in cell %d, prescribed are %r..%r' % (p, i, lo, hi))

    def inner(self, x):
        """is this point in a cell which does not touch a pressure boundary?"""
        f = self.flow
        v = f.getVertices(f.getCell(*[self.case['off'] + .5 + .2 * y for y in x]))
        return not any(i < 6 and self.case['isp'][i] for i in v)

    def balance(self):
        """rate of change of the volume of the box"""
        q = 0
        for i in range(6):
            v = self.vel.get(i)
            if v is not None:
                q += v[i // 2] * (1 if i % 2 else -1)
        return q

    def run(self):
        import __main__
        __main__.FL = self
        c, O, V, ctx = self.case, self.O, self.V, self.ctx
        n = 6 + len(c['spheres'])
        self.build()
        running = False
        for op in c['ops']:
            k = op[0]
            f = self.flow
            if k == 'run' or (k == 'bg' and self.ref):
                O.run(op[1], True)
            elif k == 'bg':
                O.run(op[1])
                O.wait()
                ctx.probe('bg')
            elif k == 'vel':
                i = 6 + op[1] % (n - 6)
                self.vel[i] = op[2]
                O.bodies[i].state.vel = V(*op[2])
                if not self.ref:
                    ctx.probe('moving-spheres')
            elif k == 'wallvel':
                i = op[1] % 6
                self.vel[i] = op[2]
                O.bodies[i].state.vel = V(*[x if a == i // 2 else 0 for a, x in enumerate(op[2])])
                if not self.ref:
                    ctx.probe('moving-walls')
            elif k == 'bc':
                self.bv = list(self.bv)
                self.bv[op[1] % 6] = 5 * op[2][0]
                f.bndCondValue = self.bv
                f.updateBCs()
                if not self.ref:
                    ctx.probe('bc')
            elif k == 'imposeP':
                p = V(*[.5 + .4 * x for x in op[2]]) + V(1, 1, 1) * c['off']
                f.imposePressure(p, 3. + op[2][1])
                self.imp.append(p)
                self.impv.append(3. + op[2][1])
                self.exact = self.exact and not c['mt']
                if not self.ref:
                    ctx.probe('imposeP')
            elif k == 'move':
                i = op[1] % len(c['spheres'])
                p = c['spheres'][i]
                O.bodies[6 + i].state.pos = V(*[(int(x * 3) + .5 + .09 * y) / 3 for x, y in zip(p, op[2])]) + V(1, 1, 1) * c['off']
                self.exact = self.exact and not c['mt']
                if not self.ref:
                    ctx.probe('moved')
            elif k == 'clearP':
                f.clearImposedPressure()
                f.updateTriangulation = True
                self.imp, self.impv = [], []
                self.exact = self.exact and not c['mt']
            elif k == 'imposeQ' and not f.first and self.exact and self.inner(op[2]):
                p = V(*[.5 + .2 * x for x in op[2]]) + V(1, 1, 1) * c['off']
                self.src.append(op[2])
                f.imposeFlux(p, op[2][2])
                self.q += op[2][2]
                if not self.ref:
                    ctx.probe('imposeQ')
            elif k == 'clearQ':
                f.clearImposedFlux()
                self.q, self.src = 0., []
            elif k == 'setP' and self.imp:
                f.setImposedPressure(op[1] % len(self.imp), 7 * op[2][0])
                self.impv[op[1] % len(self.imp)] = 7 * op[2][0]
            elif k == 'remesh':
                f.updateTriangulation = True
                if not self.ref:
                    ctx.probe('remesh')
            elif k == 'settle':
                self.settle()
            elif k == 'reload':
                O.saveTmp('x')
                O.loadTmp('x')
                self.flow = O.engines[3]
                self.imp, self.impv = [], []
                self.q, self.src = 0., []
                self.exact = self.exact and not c['mt']
                if not self.ref:
                    ctx.probe('reload')
            elif k == 'replace':
                self.flow = self.engine()
                e = list(O.engines)
                e[3] = self.flow
                O.engines = e
                self.imp, self.impv = [], []
                self.q, self.src = 0., []
                self.exact = self.exact and not c['mt']
                if not self.ref:
                    ctx.probe('replace')
            elif k == 'reset':
                self.build()
                if not self.ref:
                    ctx.probe('reset-running')
        out = self.log
        O.reset()
        return out


def execute(case, ctx):
    ctx.threads(1)
    ref = Sim(case, ctx, True)
    a = ref.run()
    ctx.threads(case['threads'])
    sim = Sim(case, ctx, False)
    b = sim.run()
    ctx.check(len(a) == len(b), 'steps', lambda: '%d / %d steps' % (len(a), len(b)))
    tol = 1e-3 if case['mt'] or not case['solver'] else 1e-6
    for k, (x, y) in enumerate(zip(a, b)):
        ctx.check(x[0] == y[0] or 'lag' in (x[0], y[0]), 'steps', lambda: 'record %d: %s / %s' % (k, x[0], y[0]))
        if 'lag' in (x[0], y[0]):
            continue
        for u, v in zip(x[1:], y[1:]):
            u, v = list(flat((u,))), list(flat((v,)))
            m = max([abs(z) for z in u] + [1e-2])
            for i, (p, q) in enumerate(zip(u, v)):
                ctx.check(abs(p - q) <= tol * m, 'differs', lambda: 'record %d (%s) value %d: %r with one thread and no background work, %r here (largest %g)' % (k, x[0], i, p, q, m))
    tol = 1e-4 if case['solver'] else 1e-2
    for q, dv, src, big in sim.net:
        ctx.probe('conservation')
        ctx.check(abs(q + dv + src) <= tol * big, 'conservation', lambda: 'sources %g, growth of the box %g, flux through the pressure boundaries %g' % (src, dv, q))
    for k, v in (('multithread', case['mt']), ('compressible', case['K']), ('lubrication', case['lub']), ('gauss-seidel', not case['solver']), ('cholesky', case['solver'])):
        if v:
            ctx.probe(k)


def flat(a):
    for x in a:
        if isinstance(x, (tuple, list)):
            for y in flat(x):
                yield y
        elif not isinstance(x, str):
            yield x
