SEARCH = 'Seeded random search over schedules/faults/histories on the real code; no exhaustiveness claimed. Trusts libysim (thread/OpenMP/clock/IO simulator, sequentially consistent memory: weak-memory effects are not explored) and the oracle in the workload. '

prop('C01', 'Every force contribution of a step acts exactly once',
     'Within a step, the force and torque that a body feels is exactly the sum of its permanent force/torque and of every contribution added in that step by engines (also by engines running in parallel inside one parallel group) and by the user; nothing is lost, counted twice or credited to another body. '
     'This holds for any number of threads, any interleaving, any body ids (also far apart or added during the simulation), and after any history of forces being set, made permanent, changed and reset.',
     ['schedules', 'histories', 'inputs'], 'all interleavings of the threads adding forces; all histories of additions, permanent forces, resets, body insertions and removals',
     'Tests add a handful of forces to two or three bodies, mostly single-threaded, in one fixed order; lost updates need several threads growing or summing the containers at once.',
     ['core/ForceContainer.hpp', 'core/ForceContainer.cpp', 'core/ForceContainerParallel.cpp', 'pkg/common/ForceEngine.cpp', 'pkg/common/ParallelEngine.cpp', 'pkg/common/ForceResetter.hpp', 'py/wrapper/yadeWrapper.cpp'],
     [('per-thread arrays merged by sync()', 'core/ForceContainerParallel.cpp'), ('permanent forces added at sync', 'core/ForceContainerParallel.cpp'), ('slave groups run concurrently', 'pkg/common/ParallelEngine.cpp')],
     ['O.forces.f(id)', 'O.forces.t(id)', 'O.forces.permF/permT'],
     SEARCH + 'Reference model: exact integer sums. Exception, reported as known finding: engines which themselves use OpenMP inside a parallel group.', 'seeded thread interleavings, model of exact sums')
prop('C02', 'Results do not depend on thread count or interleaving',
     'A simulation gives the same bodies, contacts, energies, time steps, counters and totals (up to floating-point summation order) whatever the number of threads and however they interleave, as the same simulation run with one thread. '
     'This holds for every contact law, with or without clumps, periodic cells, energy tracking and automatic time step.',
     ['schedules', 'inputs', 'configurations'], 'all interleavings of 2..8 worker threads over whole steps, over random scenes',
     'Tests run with whatever schedule the machine gives and compare no two schedules.',
     ['core/ThreadRunner.cpp', 'core/Scene.cpp', 'pkg/common/InsertionSortCollider.cpp', 'pkg/common/InteractionLoop.cpp', 'pkg/dem/NewtonIntegrator.cpp', 'core/EnergyTracker.hpp', 'lib/base/openmp-accu.hpp', 'core/InteractionContainer.cpp', 'pkg/dem/GlobalStiffnessTimeStepper.cpp'],
     [('parallel loops over bodies and contacts', 'pkg/common/InteractionLoop.cpp, pkg/dem/NewtonIntegrator.cpp'), ('per-thread accumulators', 'lib/base/openmp-accu.hpp')],
     ['O.bodies[i].state', 'O.interactions', 'O.energy', 'O.dt', 'attributes of engines and functors'],
     SEARCH + 'Oracle: differential, single-threaded run of the same scene (tolerance 1e-8).', 'seeded thread interleavings, differential against the single-threaded run')
prop('C05', 'A saved simulation continues as if never interrupted',
     'Saving a simulation between two steps (to any of the file formats or to memory) and loading it again, in the same or in a fresh process and whatever happened to the saving process afterwards, restores exactly the state that was saved. '
     'Continued from there, it goes through the same states, contacts, time steps, energies and periodic actions as the simulation that was never interrupted.',
     ['crash_points', 'histories', 'inputs', 'configurations'], 'all checkpoints, formats, scenes and crash points of the saving process after the save',
     'Tests save an empty or trivial scene and look at one attribute; none continues a loaded simulation and compares.',
     ['lib/serialization/ObjectIO.hpp', 'lib/serialization/Serializable.hpp', 'core/Omega.cpp', 'core/Scene.hpp', 'core/Scene.cpp', 'core/InteractionContainer.cpp', 'core/BodyContainer.hpp', 'core/Cell.hpp', 'core/EnergyTracker.hpp', 'pkg/common/InsertionSortCollider.cpp', 'pkg/common/PeriodicEngines.hpp'],
     [('boost serialization of every attribute', 'lib/serialization/Serializable.hpp'), ('postLoad handlers rebuild derived data', 'core/Scene.cpp, core/InteractionContainer.cpp')],
     ['O.load, O.loadTmp', 'attributes of all bodies, contacts, engines, cell', 'states after further steps'],
     SEARCH + 'Oracles: exact comparison of every attribute before/after, and differential continuation. Permanent forces (O.forces.setPermF) are documented run-time settings and are not part of a saved simulation.', 'crash/restart simulation with only the file surviving, differential against the uninterrupted run')
prop('C07', 'Run control: exact step counts, no lost stop, wait, pause or error',
     'O.run(n) advances exactly n steps, O.pause and stop conditions end a run at a step boundary with no step running afterwards, O.wait returns only when the simulation has stopped and reports the error that stopped it, and a step runs every live engine once in order before the iteration counter advances. '
     'This holds however client calls (run, step, pause, wait, reset, load, saveTmp, engine replacement) interleave with the background simulation thread and with pause/save/replace calls made by the simulation itself; no such history deadlocks or crashes.',
     ['schedules', 'histories'], 'all histories of client and in-loop run-control calls and all interleavings with the background thread',
     'Tests mostly call O.step() or O.run(n,True) from one thread; races between client and simulation thread need specific interleavings.',
     ['core/ThreadRunner.cpp', 'core/ThreadRunner.hpp', 'core/ThreadWorker.cpp', 'core/SimulationFlow.cpp', 'core/Omega.cpp', 'core/Scene.cpp', 'py/wrapper/yadeWrapper.cpp'],
     [('background thread with call/stop flags', 'core/ThreadRunner.cpp'), ('stop conditions', 'core/SimulationFlow.cpp'), ('engine list swapped at step begin', 'core/Scene.cpp')],
     ['O.iter, O.time, O.running', 'order of engine calls', 'exceptions from wait()/run()/step()'],
     SEARCH + 'Oracle: small model of the run-control state machine. run()/step() are issued when the previous run was waited for or stopped.', 'client/background thread interleavings, reference state machine')

prop('C06', 'Saving and loading tell the truth under disk faults and crashes',
     'When saving a simulation to a file (any format, or a memory-saved simulation with tmpToFile) reports success, the file is complete and loads back as that simulation; when the disk fails or is full, an error is reported in bounded time. '
     'A file cut off at any byte by a crash or truncation, or one which cannot be read, is refused with an error, never loaded as something else and never kills the process. Neither a failed save nor a failed load harms: after a failed save the simulation in memory is unchanged, after a failed load no part of a simulation is left, and good files still load.',
     ['crash_points', 'faults', 'inputs', 'histories'], 'all disk faults at any system call, all byte positions of a crash, truncation or full disk, all formats',
     'Tests save to a healthy disk and never truncate, fill or fail it.',
     ['lib/serialization/ObjectIO.hpp', 'core/Omega.cpp', 'py/wrapper/yadeWrapper.cpp'],
     [('compressing file streams', 'lib/serialization/ObjectIO.hpp'), ('scene replaced on load', 'core/Omega.cpp')],
     ['exceptions of O.save/O.load/O.tmpToFile', 'contents loaded from the file'],
     SEARCH + 'Faults are injected at the system calls open/read/write/writev/close on the files of the run; fsync-level loss of acknowledged writes is not modelled (yade never syncs).', 'system-call fault injection and crash at every byte, oracle: attribute-exact comparison with the saved simulation')
prop('C03', 'Contact detection is complete and exact',
     'After contact detection in every step, the real contacts are exactly the pairs of bodies that touch and may collide (by masks, not within one clump), each pair once, with the right overlap; a contact is neither missed, nor kept when bodies have separated, nor found between bodies that do not touch. '
     'This holds for any collider settings, number of threads, deforming or sheared periodic cell, and after any history of body insertion and removal, clearing, replaced colliders, switching periodicity off, saving and loading; a body moved by hand is noticed one step later.',
     ['histories', 'schedules', 'inputs', 'configurations'], 'all histories of changes to the bodies between steps, all collider settings and thread counts',
     'Tests look at the contacts of a handful of fixed bodies; the incremental sort only goes wrong after specific histories.',
     ['pkg/common/InsertionSortCollider.cpp', 'pkg/common/InsertionSortCollider.hpp', 'pkg/common/Collider.cpp', 'pkg/common/Bo1_Aabb.cpp', 'pkg/common/Dispatching.cpp', 'pkg/dem/NewtonIntegrator.cpp', 'core/InteractionContainer.cpp', 'pkg/common/InteractionLoop.cpp', 'pkg/dem/Ig2_Sphere_Sphere_ScGeom.cpp'],
     [('incremental insertion sort of bounds', 'pkg/common/InsertionSortCollider.cpp'), ('Verlet distance and stride', 'pkg/common/InsertionSortCollider.cpp, pkg/dem/NewtonIntegrator.cpp'), ('potential interactions erased lazily', 'core/InteractionContainer.cpp')],
     ['O.interactions after the interaction loop of each step', 'penetrationDepth'],
     SEARCH + 'Oracle: brute-force search of touching pairs over all periodic images in every step. Scope: spheres with each other and with walls and boxes; bodies do not travel a whole period between two steps. One known finding (collider stride in a deforming cell).', 'seeded histories and thread interleavings, oracle: brute-force search of touching pairs in every step')
prop('C08', 'Periodic engines run in exactly the steps in which they are due',
     'A periodic engine (Python command, recorder) runs in exactly those steps in which its iteration, virtual-time or wall-clock period has elapsed since its last run, never more than nDo times, with initRun and firstIterRun as documented, and each run of a recorder writes one row. '
     'This holds whatever the wall clock does (standing still, jumping back or ahead, also during a step), in foreground and background runs, inside parallel groups, and after changed periods, disabled engines, reset time, saving and loading.',
     ['schedules', 'histories', 'faults', 'configurations'], 'all clock behaviours, histories of run-control and configuration changes',
     'Tests never control the wall clock and check one or two periodic engines for a few steps.',
     ['pkg/common/PeriodicEngines.hpp', 'pkg/common/PyRunner.hpp', 'pkg/common/Recorder.hpp', 'pkg/common/ParallelEngine.cpp', 'core/Scene.cpp'],
     [('isActivated: due rule and counters', 'pkg/common/PeriodicEngines.hpp'), ('GIL handling of Python engines', 'py/wrapper/yadeWrapper.cpp, lib/pyutil/gil.cpp')],
     ['calls of Python commands', 'rows in recorder files', 'nDone, iterLast'],
     SEARCH + 'Oracle: executable model of the documented rule; times are dyadic so that it is exact.', 'simulated wall clock with jumps, reference model of the due rule')
prop('C10', 'Every step moves every body by Newton\'s second law',
     'In every step the integrator changes velocity, position, angular velocity or momentum and orientation of every standalone body and clump exactly by the forces and torques on it (with gravity, numerical damping, imposed moves, and the velocity gradient of a periodic cell) and only along degrees of freedom which are not blocked; bodies outside of its mask do not move; '
     'the tracked kinetic energy, gravity work and damping dissipation are those of all bodies. This holds for any number of threads and any interleaving of them, after any history of changed forces, constraints, damping, gravity, time step, velocity gradient, added and erased bodies, saving and loading. Scope: no density scaling; aspherical rotation to the order of its integration scheme.',
     ['schedules', 'histories', 'inputs'], 'all histories of changes between steps, all thread interleavings of the integrator',
     'Tests integrate single bodies with one thread and one setting.',
     ['pkg/dem/NewtonIntegrator.cpp', 'pkg/dem/NewtonIntegrator.hpp', 'core/State.cpp', 'core/EnergyTracker.hpp', 'core/Cell.cpp', 'core/ForceContainerParallel.cpp'],
     [('parallel loop over the bodies with per-thread maxima and energies', 'pkg/dem/NewtonIntegrator.cpp, core/EnergyTracker.hpp'), ('velocity gradient of this and the previous step', 'pkg/dem/NewtonIntegrator.cpp, core/Cell.cpp')],
     ['State.pos, vel, ori, angVel, angMom', 'O.energy', 'O.cell.velGrad'],
     SEARCH + 'Oracle: reference integration of every body in every step from its state and forces before the integrator.', 'seeded histories and thread interleavings, reference integration of every step')

prop('C11', 'Contacts act equally and oppositely on their two bodies, friction has its limit',
     'After the contact engine of every step, the forces which contacts exert on the bodies add up to zero, and so do their moments for spheres (and, with exact branch vectors, for walls, boxes and facets); the force on every body is the sum of normal and shear forces of its contacts; geometry of contacts of two spheres (overlap, normal, contact point, periodic shift) is that of the current positions and radii; '
     'the shear force of frictional contacts does not exceed the Coulomb limit and the linear elastic normal force is stiffness times overlap. This holds for any number of threads, any interleaving and any history of runs, kicks, displacements, changed friction, erased and added bodies, saving and loading. Scope: laws FrictPhys, ViscoFrict, FrictVisco, Mindlin, HertzWithLinearShear, CohesionMoment, Cpm, JCFpm, L3Geom ElPerfPl, ViscEl, Luding (sum of forces and moments for all, the rest where the law stores normal and shear force).',
     ['schedules', 'histories', 'inputs'], 'all contact networks and histories, all thread interleavings of the contact loop',
     'Tests look at single contacts of one law with one thread.',
     ['pkg/common/InteractionLoop.cpp', 'pkg/dem/ElasticContactLaw.cpp', 'pkg/dem/HertzMindlin.cpp', 'pkg/dem/CohesiveFrictionalContactLaw.cpp', 'pkg/dem/ScGeom.cpp', 'pkg/dem/Ig2_Sphere_Sphere_ScGeom.cpp', 'pkg/dem/ViscoelasticPM.cpp', 'pkg/dem/JointedCohesiveFrictionalPM.cpp', 'pkg/dem/ConcretePM.cpp', 'pkg/dem/L3Geom.cpp', 'pkg/dem/LudingPM.cpp'],
     [('forces of one contact added to two bodies by one of several threads', 'pkg/common/InteractionLoop.cpp, core/ForceContainer.hpp'), ('contact geometry and history kept between steps', 'pkg/dem/ScGeom.cpp')],
     ['O.forces.f, O.forces.t', 'Interaction.geom, Interaction.phys'],
     SEARCH + 'Oracle: balance of forces and moments, contact geometry and forces recomputed in every step.', 'seeded scenes, histories and thread interleavings, balance and geometry recomputed in every step')

prop('C13', 'A simulation split over MPI ranks evolves like the single-process one',
     'Run with mpirun by several ranks (mpy or mpf module, any communication mode, with or without erasing remote bodies), a scene goes through the same states as in one process (up to floating-point summation): every body is moved by exactly one rank, all ranks agree on iteration and time, each rank sees remote bodies as their owner has them, and the master gets the right forces on its bodies and the right merged scene. '
     'This holds for any assignment of bodies to ranks, any message delays, buffering and stalled ranks; no such history deadlocks, and no message is left unreceived. Scope: frictionless (or not split again) dynamics of spheres and boxes, not periodic; runs without merging start from a freshly split scene.',
     ['schedules', 'inputs', 'configurations', 'faults'], 'all message timings, assignments of bodies to ranks, sequences of runs and merges',
     'No test runs MPI at all; the checks in examples need a real MPI installation and see one message timing.',
     ['py/mpy.py', 'py/mpf.py', 'core/Subdomain.cpp', 'core/Subdomain.hpp', 'pkg/common/InsertionSortCollider.cpp', 'pkg/common/Dispatching.cpp', 'core/Scene.cpp', 'py/wrapper/yadeWrapper.cpp'],
     [('intersections and mirrored intersections', 'py/mpy.py'), ('non-blocking exchange of states and forces', 'py/mpy.py, core/Subdomain.cpp'), ('merge and split at collider updates', 'py/mpy.py, core/Subdomain.cpp')],
     ['states of bodies on their owner', 'states of remote bodies', 'forces on the master', 'merged scene', 'iteration and time'],
     SEARCH + 'The MPI library and mpi4py are simulated (messages reliable, non-overtaking per sender, receiver and tag; nothing else promised); every rank runs the real yade in its own process. Oracle: differential, single-process run.', 'simulated MPI network (delay, reordering between sources, synchronous or buffered sends, stalled ranks), differential against the single-process run')
prop('C14', 'Domain decomposition gives every sphere to one worker, evenly',
     'With the bisection modules (mpy_bisection, mpf_bisection) and 1, 2, 4 or 8 workers, splitting the scene assigns every sphere to exactly one worker, with worker loads differing by at most one sphere, none left to the master, also when bodies are reassigned at each split. '
     'The distributed run goes through the same states as the same simulation in one process, for any message timing.',
     ['schedules', 'inputs', 'configurations'], 'all clouds of spheres, worker counts and message timings',
     'No test runs the decomposition.',
     ['py/mpy_bisection.py', 'py/mpf_bisection.py', 'py/tree_decomp.py', 'core/Subdomain.cpp', 'core/Subdomain.hpp'],
     [('recursive coordinate bisection at the median', 'py/tree_decomp.py'), ('reassignment at split', 'py/mpy_bisection.py, py/mpf_bisection.py')],
     ['Body.subdomain on every rank', 'states of bodies on their owner', 'merged scene'],
     SEARCH + 'Simulated MPI as for C13.', 'simulated MPI network, conservation and balance of the decomposition, differential against the single-process run')
prop('C04', 'Body and interaction containers stay consistent under any history of changes',
     'O.bodies and O.interactions always agree with each other and with what was done to them: every id gives the body that was put there or None, every iteration, count and lookup lists each existing body once, no interaction refers to an erased body after the next contact detection, every interaction is found the same way from both ids, from its bodies, by iteration and by count. '
     'Appending, erasing (also of ids that do not exist), inserting at an id, creating, erasing and clearing interactions, saving and loading, from the script or from within a step, with 1..6 threads and either collider, neither crashes nor loses or invents a body or interaction.',
     ['histories', 'schedules', 'inputs'], 'all histories of container operations between and within steps, all thread interleavings',
     'Tests append and erase a few bodies once; containers reuse ids and swap positions on erasure, which goes wrong only in specific orders.',
     ['core/BodyContainer.cpp', 'core/BodyContainer.hpp', 'core/InteractionContainer.cpp', 'core/InteractionContainer.hpp', 'pkg/common/Collider.cpp', 'pkg/common/InteractionLoop.cpp', 'pkg/common/SpatialQuickSortCollider.cpp', 'py/wrapper/yadeWrapper.cpp', 'py/_utils.cpp'],
     [('linear interaction array with back-references from bodies', 'core/InteractionContainer.cpp'), ('deferred erasure of interactions by threads', 'core/InteractionContainer.cpp, pkg/common/InteractionLoop.cpp')],
     ['O.bodies (len, iteration, getitem)', 'O.interactions (len, iteration, getitem, has, all, withBody, countReal)', 'Body.intrs()'],
     SEARCH + 'Oracle: model of both containers checked after every operation and inside every step.', 'seeded histories of container operations and thread interleavings, reference model of the containers')
prop('C09', 'Clumps are rigid bodies made of exactly their members',
     'Every body belongs to at most one clump and clump and members agree about it; a clump has the mass, centroid and inertia of its (spherical) members and is driven by the sum of all forces and torques on it and its members; its members move rigidly with it. '
     'This holds after any history of clumping, adding bodies, clumps or members of clumps to a clump, releasing and erasing members and clumps, updating, saving and loading, and for any number of threads. Scope: damping 0; inertia computed without discretization; mass and inertia stay after a member was erased until they are updated.',
     ['histories', 'schedules', 'inputs'], 'all histories of clump operations between steps, any thread interleaving',
     'Tests build a handful of clumps once and check them after one step.',
     ['core/Clump.cpp', 'core/Clump.hpp', 'core/BodyContainer.cpp', 'py/wrapper/yadeWrapper.cpp', 'pkg/dem/NewtonIntegrator.cpp', 'core/Body.hpp'],
     [('clumpId and member map', 'core/Clump.cpp, core/BodyContainer.cpp'), ('member forces gathered by the integrator', 'core/Clump.cpp, pkg/dem/NewtonIntegrator.cpp')],
     ['Body.clumpId, isClump, isClumpMember', 'Clump.members', 'State of clump and members'],
     SEARCH + 'Oracle: membership model; rigid-body mechanics recomputed from the members in every step.', 'seeded histories of clump operations and thread interleavings, reference model of membership and rigid-body mechanics')

prop('C17', 'yade-batch runs every requested simulation exactly once, within its cores',
     'Every selected line of the parameter table (or every script given), repeated as often as requested, is started exactly once, with its own script, environment variables, thread count or cores, and reads exactly the parameter values of its line; running jobs never use more cores than the maximum unless a single job alone needs more, and jobs with assigned cores do not share any; '
     'every job writes its own log, which ends with one summary with its real exit status; yade-batch ends after its last job, even if jobs fail or cannot write their log. This holds however slow jobs and threads of yade-batch are and whatever is requested over HTTP meanwhile; served logs never show the password of the console of a job.',
     ['schedules', 'faults', 'inputs'], 'all tables and options, any duration and failure of jobs, any delay of the threads of yade-batch, any HTTP requests',
     'There is no test of yade-batch; races between its scheduler and its job threads need a busy machine.',
     ['core/main/yade-batch.in', 'py/utils.py'],
     [('one thread per job, main loop polls their state every 0.5 s', 'core/main/yade-batch.in'), ('HTTP status server in the same process', 'core/main/yade-batch.in')],
     ['commands started', 'log files', 'parameters seen by the simulation', 'HTTP pages'],
     SEARCH + 'Oracle: model of the table and options; a simulated shell checks every command when it is started.', 'seeded tables, job durations and failures, thread stalls at every source line, simulated shell and HTTP clients as oracle')

prop('C15', 'Pore flow matches its boundary conditions, whatever threads and remeshing do',
     'In every step, the pore pressures, fluid forces on bodies and fluxes through the sides given by FlowEngine are those of the current velocities, boundary conditions, imposed pressures and imposed fluxes: they do not depend on the number of threads, on their interleaving, nor on whether and when the pores are meshed again, in the foreground or by a background thread; no fluid is lost (flux through the sides, growth of the box and imposed fluxes balance). '
     'This holds for any history of runs, changed velocities and boundary values, imposed and cleared pressures and fluxes, forced remeshing, replaced engines, saving and loading, and resets while the background thread works, and no such history crashes or hangs. Scope: FlowEngine (not periodic), Gauss-Seidel or direct (Cholesky) solver; background meshing of incompressible flow, where moved spheres, changed and imposed pressures may take effect with the next mesh; fluxes imposed outside of cells with prescribed pressure; imposed pressures and fluxes are not part of saved files.',
     ['schedules', 'histories', 'inputs', 'configurations'], 'all packings, boundary conditions and histories, all interleavings of solver, background meshing and run control',
     'No test runs the flow engine at all; the background mesher works only while a run is in progress and hands over at an arbitrary step.',
     ['pkg/pfv/FlowEngine.ipp.in', 'pkg/pfv/FlowEngine.hpp.in', 'lib/triangulation/FlowBoundingSphere.ipp', 'lib/triangulation/FlowBoundingSphereLinSolv.ipp', 'lib/triangulation/Network.ipp'],
     [('background thread builds mesh and factorization, which are switched in when completed', 'pkg/pfv/FlowEngine.ipp.in'), ('parallel loops over cells and vertices', 'lib/triangulation/FlowBoundingSphere.ipp, pkg/pfv/FlowEngine.ipp.in'), ('linear system kept between steps until something changes', 'lib/triangulation/FlowBoundingSphereLinSolv.ipp')],
     ['FlowEngine.getPorePressure', 'FlowEngine.fluidForce', 'FlowEngine.getBoundaryFlux', 'O.forces.f'],
     SEARCH + 'Oracle: differential against the same history with one thread and no background meshing, and conservation of fluid.', 'seeded packings, histories and interleavings of solver and background mesher, differential against one thread, conservation of fluid')

prop('C18', 'Remote console: only authorized clients, every command once, own output',
     'The remote console executes commands only for connections from 127.0.0.* addresses which gave the right cookie on this very connection; every complete line (or indented block) which such a client sent before leaving is executed exactly once, in order, an incomplete one never, however the network cuts, merges and delays the data, and failing commands do not disturb later ones; the client gets the whole output of its own commands (and nothing printed for other clients or by other threads), the result of expressions and a traceback of errors; every connection and its thread end once the client is gone. '
     'After all connections ended the process prints where it printed before. The information server answers at any time with the actual values and its stop request pauses the simulation. Servers find a free port if others are busy.',
     ['schedules', 'faults', 'histories', 'inputs'], 'all client behaviours, segmentations and delays, any number of simultaneous connections',
     'No test opens a connection; TCP segmentation, slow or vanished clients and simultaneous connections are not met in a test.',
     ['py/remote.py'],
     [('one thread per connection, output redirected while a command runs', 'py/remote.py'), ('lines assembled from a stream', 'py/remote.py')],
     ['commands executed', 'bytes received by clients', 'standard output of the process', 'XML-RPC answers'],
     SEARCH + 'Sockets and servers are simulated: segments are cut, merged, delayed, sends are partial, receivers slow, connections reset, half-closed or silent. Oracle: model of what each client sent and may see.', 'simulated network (delay, segmentation, partial sends, resets, half-closed and silent clients) and thread interleavings, reference model of sessions')
