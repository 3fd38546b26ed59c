#!/usr/bin/env python3
"""Writes known_findings.json (committed; checks only read it)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = [
 ("C01-nested-omp", "C01", "nested-omp", "an engine which uses OpenMP inside a parallel group", "ParallelEngine with a slave engine which is itself parallel (such as GravityEngine or InteractionLoop): inside the nested team omp_get_thread_num() is not unique among the threads of the simulation, two slaves share one slot of the per-thread force containers and lose contributions (or crash)"),
 ("C05-inloop", "C05", "inloop-restart-differs", "restarted from iteration", "O.save called by a Python engine that is not the first one of the loop (or by any engine when the periodic cell is moving): the loaded simulation repeats the engines before it in the interrupted step (Scene::subStep is saved as 0; Cell::prevHSize is overwritten by Cell::postLoad), so it continues differently"),
 ("C05-inloop-periodic-engines", "C05", "inloop-restart-periodic", "periodic engines fired", "same history as C05-inloop: periodic engines that ran before the saving engine in the interrupted step fire again after loading"),
 ("C03-deforming-cell", "C03", "missed-contact-deforming-cell", "have no contact", "InsertionSortCollider with verletDist>0 in a deforming periodic cell: the distance after which the collider runs again is measured with velocities that ignore the deformation of the cell (NewtonIntegrator.cpp: FIXME 'doesn't handle velGrad'), so that bodies which are moved by (or do not follow) the deformation can touch before the next collider run"),
]
FIXED = [  # property, start of the commit subject, what failed
 ("C01", "ForceContainer: permanent forces were lost", "permanent forces of bodies whose ids are far apart were lost or read out of bounds"),
 ("C01", "ForceContainer: lost forces when two threads", "two threads growing their force arrays at once lost forces"),
 ("C01", "ParallelEngine: do not run more threads", "a parallel group with more slaves than threads wrote outside of the per-thread containers"),
 ("C02", "EnergyTracker: energies were lost", "two threads meeting a new energy name at once lost contributions"),
 ("C07", "ThreadRunner: the destructor and O.running", "O.running false / destructor not waiting while the background thread was starting or in its last step"),
 ("C07", "O.wait(), O.run(wait=True): an error", "an exception in the simulation was not reported by wait() if it happened before wait() looked"),
 ("C07", "O.reset() deadlocked", "O.reset() during a background run of Python engines deadlocked"),
 ("C07", "O.stopAtTime only took integers", "stopAtTime practically never stopped the simulation"),
 ("C07", "O.engines: assignment was undone", "O.engines assignment undone by a pending in-loop replacement"),
 ("C07", "Omega::stop: crash", "crash when the simulation called O.pause() just when it was being stopped"),
 ("C05", "loaded interactions got the iteration", "Interaction.iterBorn changed by loading; contacts dropped"),
 ("C05", "GlobalStiffnessTimeStepper: computedOnce", "restarted simulation changed its time step at another iteration"),
 ("C05", "Ip2_CohFrictMat_CohFrictMat_CohFrictPhys: cohesionDefinitionIteration", "restart in the step after setCohesionNow assigned cohesion again"),
 ("C05", "CpmPhys: damage and strains", "damage and plastic strains of concrete contacts lost by saving/loading"),
 ("C06", "saving a simulation to a file ignored", "O.save on a full or failing disk reported success or never returned"),
 ("C06", "O.tmpToFile had its arguments", "O.tmpToFile(fileName,mark) failed as documented, ignored write errors, wrote plain data to .gz"),
 ("C06", "loading an XML file cut off", "O.load of an XML file cut off within its closing tag terminated the process"),
 ("C02", "Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM, Ip2", "crack/bond counters lost increments with several threads"),
 ("C02", "Ip2_CohFrictMat_CohFrictMat_CohFrictPhys: setCohesionNow", "setCohesionNow took effect in two steps with several threads"),
 ("C03", "InsertionSortCollider: crash or missed contacts", "toggling O.periodic or replacing the bodies by fewer ones crashed or missed contacts"),
 ("C03", "InsertionSortCollider: contacts of bodies added", "bodies added to a running periodic simulation missed contacts across the boundary"),
 ("C03", "Bo1_Sphere_Aabb: bounding boxes were too small", "contacts missed in a periodic cell sheared in several directions"),
 ("C13", "BoundDispatcher: targetInterv=0", "contacts with remote bodies missed: their bounds were shrunk"),
 ("C08", "O.step() kept the GIL", "O.step() with Python engines in a parallel group deadlocked"),
 ("C05", "O.sceneToString(), O.tmpToString()", "O.sceneToString/O.tmpToString raised UnicodeDecodeError, so that no scene could be saved to a string"),
 ("C13", "mpy, mpf: states were not exchanged", "USE_CPP_MPI=False: NameError, states of remote bodies never updated"),
 ("C13", "mpy, mpf: subdomains which do not touch", "forces sent to the master that nobody received: deadlock or stale forces later"),
 ("C13", "mpy, mpf: mpirun(n) after mpirun(n,True)", "mpirun(n) after mpirun(n,True) did not stop at collider updates"),
 ("C13", "mpy, mpf: a collider update due", "collider update due at the end of mpirun(n,True) skipped: contacts between subdomains missed"),
 ("C13", "mpf: contacts with remote bodies could", "contacts with remote bodies missed when the scene was split again"),
 ("C04", "InteractionContainer::eraseNonReal skipped", "O.interactions.eraseNonReal skipped interactions or crashed"),
 ("C04", "O.bodies.erase, O.bodies.insertAtId, O.interactions.has", "ids out of range or of erased bodies crashed the process"),
 ("C04", "O.bodies.insertAtId: contacts of the new body", "a body inserted at the id of an erased one missed contacts"),
 ("C04", "SpatialQuickSortCollider: crash or false", "the quick-sort collider crashed or reported contacts of erased bodies"),
 ("C04", "createInteraction crashed in a simulation", "createInteraction crashed in a loaded simulation that did not run yet"),
 ("C09", "Clump::updateProperties: the principal axes", "orientation of about half of the clumps did not match their inertia: wrong rotation"),
 ("C09", "O.bodies.addToClump: members of a clump", "members of a clump added to another clump became standalone"),
 ("C09", "Clump::updateProperties: a clump which was set", "a clump set to rest by a membership change went on rotating"),
 ("C10", "NewtonIntegrator::updateEnergy", "tracked kinetic energy of rotated aspherical bodies and clumps was wrong"),
 ("C17", "yade-batch: a job could be started twice", "a job was started twice (and cores given away twice) if its thread was delayed by 0.5 s"),
 ("C17", "yade-batch: never ended if a job", "yade-batch never ended if a job could not write its log"),
 ("C17", "yade-batch: columns which set environment", "table columns which set environment variables raised NameError"),
 ("C17", "yade-batch --lines: a range", "--lines 3-3 raised IndexError or selected a wrong line"),
 ("C17", "yade-batch: the !COUNT column", "the !COUNT column was ignored"),
 ("C17", "yade-batch: the script link", "script link of a job led to another job"),
 ("C17", "TableParamReader: the last character", "the last value of a table without final newline lost its last character"),
 ("C17", "readParamsFromTable: *", "* in a table raised TypeError unless the default was a string"),
 ("C17", "yade-batch --timing: the table", "--timing with script.py/nCores raised TypeError at the end"),
 ("C14", "mpf_bisection: undefined names", "splitScene of mpf_bisection and its collision checker raised NameError"),
 ("C15", "FlowEngine: pressures interpolated", "pressures carried over to a new mesh by several threads came from each other's cells"),
 ("C15", "FlowEngine: changing boundary conditions after", "changing boundary conditions after imposing a pressure read past the list of cells (crash)"),
 ("C15", "FlowEngine: no flow (and crash)", "no flow, or a crash, after loading a simulation with a flow engine"),
 ("C15", "FlowEngine: bounds of the packing", "bounds of the packing were reset in the wrong solver: wrong mesh after remeshing"),
 ("C15", "FlowEngine: background thread outlived", "background meshing thread used the engine and its scene after they were deleted"),
 ("C15", "FlowEngine: boundary conditions changed during", "boundary conditions changed during background meshing were lost"),
 ("C18", "remote console: rejected (not local)", "rejected (not local) connections could log in and execute commands"),
 ("C18", "remote console: a new connection from an address", "a connection from an address and port which authenticated before needed no cookie"),
 ("C18", "remote console: commands were cut", "commands cut or merged by the network were executed in pieces or together; closed connections never ended"),
 ("C18", "remote console: replies could", "replies were truncated if the client read slowly"),
 ("C18", "remote console: simultaneous", "simultaneous connections got each other's output, standard output of the process was lost"),
]
exec(open(V + '/tools/findings_more.py').read()) if os.path.exists(V + '/tools/findings_more.py') else None
log = [l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s']).decode().splitlines()]
out = [dict(id=i, property=p, cls=c, msg_contains=m, what=w, status='open') for i, p, c, m, w in OPEN]
for n, (p, s, w) in enumerate(FIXED):
    h = [a for a, b in log if b.startswith('fix: ' + s)]
    assert len(h) == 1, s
    out.append(dict(id='fixed-%02d' % n, property=p, status='fixed', commit=h[0], what='fixed: property=%s %s %s' % (p, h[0], w)))
json.dump({'findings': out}, open(V + '/known_findings.json', 'w'), indent=1)
miss = [b for a, b in log if b.startswith('fix: ') and not any(b.startswith('fix: ' + s) for _, s, _ in FIXED)]
print(len(out), 'findings; commits not listed:', miss)
