#!/usr/bin/env python3
"""makes the planted bugs of the second batch (seeded/<id>/) from edits against /repo's HEAD"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkbug import mkbug
only = sys.argv[1:]
SPH = '''
def sphere(pos, r=.1, vel=(0, 0, 0), mat=None):
    b = Body(); b.shape = Sphere(radius=r); b.state.mass = 1; b.state.inertia = Vector3(.004, .004, .004)
    b.state.pos = Vector3(*pos); b.state.vel = Vector3(*vel); b.mat = mat or O.materials[0]
    return b
O.materials.append(FrictMat(young=1e4, poisson=.3, frictionAngle=.3, density=1000))
def engines(verlet=0):
    return [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb()], verletDist=verlet), InteractionLoop([Ig2_Sphere_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_FrictPhys()], [Law2_ScGeom_FrictPhys_CundallStrack()]), NewtonIntegrator(damping=0)]
'''


def bug(id, *a, **k):
    if not only or id in only:
        mkbug(id, *a, **k)
        print(id)


bug('c02-shared-normal', 'C02', 'two or more threads computing sphere-sphere contacts at the same time', 'threads overwrite each other\'s contact normal: forces depend on the number of threads and the interleaving',
    [('pkg/dem/Ig2_Sphere_Sphere_ScGeom.cpp', '	Vector3r normal=(se32.position+shift2)-se31.position;\n', '	static Vector3r normal; // not constructed anew for every contact\n	normal=(se32.position+shift2)-se31.position;\n')],
    SPH + '''
import random
random.seed(1)
for i in range(4000):
    O.bodies.append(sphere([(i % 16) * .19, (i // 16 % 16) * .19, (i // 256) * .19]))
O.engines = engines(.01)
O.dt = 1e-5
O.run(20, True)
tot = O.forces.f(0) * 0
bad = 0
for i in O.interactions.all(True):
    d = O.bodies[i.id2].state.pos - O.bodies[i.id1].state.pos
    d /= d.norm()
    if not (d - i.geom.normal).norm() <= 1e-3:
        bad += 1
p = sum((b.state.vel for b in [O.bodies[k] for k in range(len(O.bodies))]), Vector3.Zero)
print('wrong normals', bad, 'of', len(O.interactions), 'momentum', p)
sys.exit(1 if bad or not p.norm() < 1e-8 else 0)
''', env='OMP_NUM_THREADS=8')

bug('c03-slowest-thread', 'C03', 'two or more threads, a Verlet distance, and the fastest body not handled by the last thread', 'the collider is not run again in time, contacts are missed',
    [('pkg/dem/NewtonIntegrator.cpp', '		FOREACH(const Real& thrMaxVSq, threadMaxVelocitySq) { maxVelocitySq=max(maxVelocitySq,thrMaxVSq); }', '		FOREACH(const Real& thrMaxVSq, threadMaxVelocitySq) { if(thrMaxVSq>0) maxVelocitySq=thrMaxVSq; }')],
    SPH + '''
O.bodies.append(sphere((0, 0, 0), vel=(1, 0, 0)))
for i in range(60):
    O.bodies.append(sphere((.5 if i == 30 else 2 + i, .5 * (i != 30), 0), vel=(0, 1e-3, 0)))
O.engines = engines(verlet=.05)
O.dt = 1e-3
miss = 0
for i in range(400):
    O.step()
    if O.bodies[31].state.pos[0] - O.bodies[0].state.pos[0] < .195 and not O.interactions.has(0, 31):
        miss += 1
print('steps with a missed contact:', miss)
sys.exit(1 if miss else 0)
''', env='OMP_NUM_THREADS=4')

bug('c04-first-body', 'C04', 'a body is erased which has contacts with bodies of smaller id', 'the contact list keeps real contacts of a body which does not exist any more',
    [('core/BodyContainer.cpp', '		scene->interactions->requestErase((*it).second);', '		if((*it).second->getId1()==id) scene->interactions->requestErase((*it).second); // the interaction belongs to its first body')],
    SPH + '''
for i in range(6):
    O.bodies.append(sphere((i * .19, 0, 0)))
O.engines = engines()
O.dt = 1e-9
O.step()
bad = 0
for k in (0, 3, 5):
    O.bodies.erase(k)
    bad += sum(1 for i in O.interactions.all(True) if O.bodies[i.id1] is None or O.bodies[i.id2] is None)
    O.step()
print('contacts with nothing', bad)
sys.exit(1 if bad else 0)
''')

bug('c05-save-leaves-traces', 'C05', 'a simulation is saved, contacts break and form again, and it is saved again', 'the contact as it was at the first save is loaded in the place of the new one: its history is lost',
    [('core/InteractionContainer.cpp', 'void InteractionContainer::postSave(InteractionContainer&){ interaction.clear(); }', 'void InteractionContainer::postSave(InteractionContainer&){ } // the list is cleared when something is loaded')],
    SPH + '''
O.bodies.append(sphere((0, 0, 0)))
O.bodies.append(sphere((.19, 0, 0), vel=(0, .1, 0)))
O.engines = engines()
O.dt = 1e-3
O.run(10, True)
O.saveTmp('a')
O.interactions.clear()
O.run(10, True)
f = O.interactions[0, 1].phys.shearForce.norm()
O.saveTmp('b')
O.loadTmp('b')
g = O.interactions[0, 1].phys.shearForce.norm() if O.interactions[0, 1].isReal else 0
print('shear force', f, g)
sys.exit(0 if f > 0 and abs(f - g) < 1e-9 * f else 1)
''')

bug('c08-dead-slave', 'C08', 'a disabled (dead) periodic engine in a parallel group which is enabled later', 'its executions are counted while it is disabled, so that it runs too rarely afterwards',
    [('pkg/common/ParallelEngine.cpp', 'if(!e->dead && e->isActivated())', 'if(e->isActivated() && !e->dead)')],
    '''
import __main__
__main__.n = 0
O.engines = [ParallelEngine([PyRunner(command='import __main__; __main__.n += 1', iterPeriod=1, nDo=3, initRun=True, dead=True)])]
O.dt = 1
O.run(5, True)
O.engines[0].slaves[0].dead = False
O.run(10, True)
print('runs', __main__.n)
sys.exit(0 if __main__.n == 3 else 1)
''')

bug('c09-torque-of-total', 'C09', 'two or more members of a clump loaded in the same step', 'the torque on the clump is computed with the wrong force: it rotates wrongly',
    [('core/Clump.cpp', '		T+=t+(memberState->pos-clumpState->pos).cross(f);', '		T+=t+(memberState->pos-clumpState->pos).cross(F);')],
    SPH + '''
ids = [O.bodies.append(sphere(p)) for p in ((0, 0, 0), (.3, 0, 0), (0, .25, 0))]
c = O.bodies.clump(ids)
O.engines = [ForceResetter(), PyRunner(command='O.forces.addF(0,Vector3(0,0,1)); O.forces.addF(1,Vector3(0,0,1)); O.forces.addF(2,Vector3(0,0,1))', iterPeriod=1, initRun=True), NewtonIntegrator(damping=0)]
import __main__
__main__.O = O; __main__.Vector3 = Vector3
O.dt = 1e-3
O.step()
w = O.bodies[c].state.angVel  # equal forces on equal masses: no rotation
print('angular velocity', w)
sys.exit(1 if w.norm() > 1e-9 else 0)
''')

bug('c13-mirror-only', 'C13', 'a contact between a local body with the larger id and a remote body with the smaller one', 'the contact is not detected by the owner of one of the bodies, which is then not pushed back',
    [('pkg/common/Collider.cpp', '((subdomain==b1->subdomain or subdomain==b2->subdomain) and', '((subdomain==min(b1->subdomain,b2->subdomain)) and')],
    SPH + '''
# the subdomain 2 of a scene that was split: its own body and a remote one of subdomain 1 in contact
a = O.bodies.append(sphere((0, 0, 0))); b = O.bodies.append(sphere((.19, 0, 0)))
O.bodies[a].subdomain = 1; O.bodies[b].subdomain = 2
O.engines = engines()
O.dt = 1e-6
bad = 0
for s in (1, 2):
    O._sceneObj.subdomain = s
    O.interactions.clear()
    O.step(); O.step()
    if O.interactions.countReal() != 1:
        bad = 1
        print('subdomain', s, 'did not detect the contact with the remote body')
sys.exit(bad)
''')

bug('c14-spatial-middle', 'C14', 'spheres which are not evenly distributed in space', 'workers get very different numbers of spheres (or none)',
    [('py/tree_decomp.py', '     split_pt = len(sorted_data)//2 \n', '     mid = 0.5*(sorted_data[0][0][split_axis]+sorted_data[-1][0][split_axis]) if sorted_data else 0\n     split_pt = min(len([x for x in sorted_data if x[0][split_axis]<mid]),len(sorted_data)-1)\n')],
    '''
# tree_decomp with stand-ins for MPI and yade
import types, re
src = open('/repo/py/tree_decomp.py').read().expandtabs(8)
mpi = types.ModuleType('mpi4py'); mpi.MPI = types.SimpleNamespace(COMM_WORLD=types.SimpleNamespace(Get_rank=lambda: 1, Get_size=lambda: 5))
sys.modules['mpi4py'] = mpi
src = src.replace('from yade.wrapper import *', '').replace('from yade import *', '')
# the methods need MPI; only the splitting is exercised here
out, skip = [], False
for l in src.splitlines():
    m = re.match(r'   def (\\w+)', l)
    if m:
        skip = m.group(1) not in ('__init__', 'process_data', 'sort_data')
    if not skip:
        out.append(l)
ns = {}
exec('\\n'.join(out), ns)
d = ns['decomp_bodies'](3)
import random
random.seed(3)
bad = 0
for n in (7, 20, 101):
    data = [((random.random() ** 6, random.random() ** 6, random.random() ** 6), i) for i in range(n)]
    parts = [data]
    for level in range(2):
        d.level_count = level
        parts = [list(q) for p in parts for q in d.process_data(p, level)]
    k = [len(p) for p in parts]
    if sorted(i for p in parts for x, i in p) != list(range(n)) or max(k) - min(k) > 1:
        bad = 1
        print('parts', k)
sys.exit(bad)
''', head='import sys, os\n')

bug('c10-new-gradient', 'C10', 'numerical damping in a periodic cell in the step in which its velocity gradient changes', 'the velocity relative to the deforming cell is taken with the gradient of the next step: bodies are damped wrongly',
    [('pkg/dem/NewtonIntegrator.cpp', 'bodyFluctuationVel(b->state->pos,b->state->vel,prevVelGrad)', 'bodyFluctuationVel(b->state->pos,b->state->vel,scene->cell->velGrad)')],
    SPH + '''
O.periodic = True
O.cell.setBox(Vector3(4, 4, 4))
O.bodies.append(sphere((1, 2, 3), vel=(1, 0, 0)))
O.engines = [ForceResetter(), NewtonIntegrator(damping=.5, gravity=Vector3(1, 0, 0))]
O.dt = 1e-3
O.step()
v = O.bodies[0].state.vel[0]
O.cell.velGrad = Matrix3(100, 0, 0, 0, 0, 0, 0, 0, 0)
O.cell.homoDeform = 0
O.step()
dv = O.bodies[0].state.vel[0] - v
# the body moves with the force on it, damping takes half of it
print('velocity increment', dv)
sys.exit(0 if abs(dv - .5e-3) < 1e-9 else 1)
''')

bug('c11-lever-arm', 'C11', 'contact of two spheres of different size with the Hertz law with linear shear', 'the two bodies get torques which do not balance the moment of the contact force',
    [('pkg/dem/HertzMindlin.cpp', """	// apply forces
	Vector3r f=-phys->normalForce-phys->shearForce; /* should be a reference returned by geom->rotate */ assert(phys->shearForce==Fs); 
	scene->forces.addForce(id1,f);
	scene->forces.addForce(id2,-f);
	scene->forces.addTorque(id1,(geom->radius1-.5*geom->penetrationDepth)*geom->normal.cross(f));
	scene->forces.addTorque(id2,(geom->radius2-.5*geom->penetrationDepth)*geom->normal.cross(f));
""", """	// apply forces
	Vector3r f=-phys->normalForce-phys->shearForce; /* should be a reference returned by geom->rotate */ assert(phys->shearForce==Fs); 
	const Vector3r m=(geom->radius1-.5*geom->penetrationDepth)*geom->normal.cross(f);
	scene->forces.addForce(id1,f);
	scene->forces.addForce(id2,-f);
	scene->forces.addTorque(id1,m);
	scene->forces.addTorque(id2,m);
""")],
    SPH + '''
O.bodies.append(sphere((0, 0, 0), r=.1))
O.bodies.append(sphere((.28, 0, 0), r=.2, vel=(0, 1, 0)))
O.engines = [ForceResetter(), InsertionSortCollider([Bo1_Sphere_Aabb()]), InteractionLoop([Ig2_Sphere_Sphere_ScGeom()], [Ip2_FrictMat_FrictMat_MindlinPhys()], [Law2_ScGeom_MindlinPhys_HertzWithLinearShear()]), NewtonIntegrator(damping=0)]
O.dt = 1e-4
O.run(5, True)
x = [O.bodies[i].state.pos - O.bodies[i].state.vel * O.dt for i in range(2)]
M = sum((O.forces.t(i) + x[i].cross(O.forces.f(i)) for i in range(2)), Vector3.Zero)
print('total moment', M)
sys.exit(0 if O.forces.t(0).norm() > 0 and M.norm() < 1e-9 else 1)
''')

bug('c17-same-as-above', 'C17', 'a table in which a value is repeated by = in two or more successive lines', 'the simulation of the second of these lines does not get the value of its line',
    [('py/utils.py', '		# replace \'=\' by previous value of the parameter\n		for i,l in enumerate(lines):\n', '		# replace \'=\' by previous value of the parameter\n		given=dict([(l,dict(values[l])) for l in lines])\n		for i,l in enumerate(lines):\n'),
     ('py/utils.py', 'values[l][j]=values[lines[i-1]][j]', 'values[l][j]=given[lines[i-1]][j]')],
    '''
import yade.utils
open('tab', 'w').write('a b\\n1 2\\n3 =\\n\\n4 =\\n5 6\\n')
p = yade.utils.TableParamReader('tab').paramDict()
print(p)
sys.exit(0 if [p[l]['b'] for l in (2, 3, 5, 6)] == ['2', '2', '2', '6'] else 1)
''')

bug('c18-other-loopback', 'C18', 'a connection from an address such as 127.0.1.1 which is not 127.0.0.*', 'the console serves addresses which it must reject',
    [('py/remote.py', "startswith('127.0.0')", "startswith('127.0')")],
    '''
import threading, yade.remote as R
class Sock(object):
    def __init__(self, data): self.data, self.out = data, b''
    def recv(self, n):
        d, self.data = self.data[:n], self.data[n:]
        return d
    def send(self, s): self.out += s if isinstance(s, bytes) else s.encode(); return len(s)
    def sendall(self, s): self.send(s)
    def __getattr__(self, n): return lambda *a, **k: None
class Srv(object): cookie = 'abc'
def talk(ip):
    s = Sock('abc\\nsys.modules["builtins"].seen.append(1)\\nexit\\n' if sys.version_info[0] < 3 else 'abc\\nsys.modules["builtins"].seen.append(1)\\nexit\\n')
    import builtins
    builtins.seen = []
    try: R.PythonConsoleSocketEmulator(s, (ip, 4000), Srv())
    except TypeError:
        s = Sock(b'abc\\nsys.modules["builtins"].seen.append(1)\\nexit\\n')
        R.PythonConsoleSocketEmulator(s, (ip, 4000), Srv())
    return len(builtins.seen)
a, b, c = talk('127.0.0.1'), talk('127.0.1.1'), talk('10.0.0.1')
print(a, b, c)
sys.exit(0 if (a, b, c) == (1, 0, 0) else 1)
''')

bug('c18-failed-block', 'C18', 'a command which fails, followed by other commands of the same connection', 'commands after the failed one are not executed as they were sent (or the failed one is executed again)',
    [('py/remote.py', '				sio.write(traceback.format_exc())\n				buf=[]\n', '				sio.write(traceback.format_exc())\n				if isinstance(sys.exc_info()[1],SyntaxError): buf=[]\n')],
    '''
import builtins, yade.remote as R
class Sock(object):
    def __init__(self, data): self.data, self.out = data, ''
    def recv(self, n):
        d, self.data = self.data[:n], self.data[n:]
        return d
    def send(self, s): self.out += s if isinstance(s, str) else s.decode(); return len(s)
    def sendall(self, s): self.send(s)
    def __getattr__(self, n): return lambda *a, **k: None
class Srv(object): cookie = 'abc'
builtins.seen = []
CMD = 'abc\\n1/0\\nsys.modules["builtins"].seen.append(1)\\nsys.modules["builtins"].seen.append(2)\\nexit\\n'
try: R.PythonConsoleSocketEmulator(Sock(CMD), ('127.0.0.1', 4000), Srv())
except TypeError: R.PythonConsoleSocketEmulator(Sock(CMD.encode()), ('127.0.0.1', 4000), Srv())
print(builtins.seen)
sys.exit(0 if builtins.seen == [1, 2] else 1)
''')

bug('c15-stale-source', 'C15', 'an imposed flux and a remeshing of the pores', 'after remeshing the flux is not injected in the new mesh',
    [('lib/triangulation/FlowBoundingSphere.ipp', '	IFCells.clear();\n	for (unsigned int n=0; n<imposedF.size();n++) {\n		CellHandle cell=Tri.locate', '	IFCells.reserve(imposedF.size());\n	for (unsigned int n=0; n<imposedF.size();n++) {\n		CellHandle cell=Tri.locate')],
    '''
import random
from yade import utils
random.seed(1)
O.materials.append(FrictMat(young=1e6, poisson=.3, frictionAngle=.3, density=2600))
O.bodies.append(utils.aabbWalls([Vector3(0, 0, 0), Vector3(1, 1, 1)], thickness=0))
for p in [(i, j, l) for i in range(3) for j in range(3) for l in range(3)]:
    O.bodies.append(utils.sphere(Vector3(*[(x + .5 + random.uniform(-.1, .1)) / 3 for x in p]), random.uniform(.1, .12)))
f = FlowEngine(useSolver=3, bndCondIsPressure=[0, 0, 1, 1, 0, 0], bndCondValue=[0, 0, 1, 0, 0, 0], boundaryUseMaxMin=[0] * 6, viscosity=10, permeabilityFactor=1, meshUpdateInterval=3, defTolerance=-1)
O.engines = [ForceResetter(), f]
O.dt = 1e-6
O.step()
f.imposeFlux(Vector3(.5, .5, .5), 1e-3)
bad = []
for i in range(12):
    O.step()
    q = f.getBoundaryFlux(2) + f.getBoundaryFlux(3)
    print(i, q)
    if abs(abs(q) - 1e-3) > 1e-7 and i > 0: bad.append(i)
sys.exit(1 if bad else 0)
''')
