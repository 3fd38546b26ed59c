From 71cfb944160324d6eb2143f26808c2e4e1fdbf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:54 +0000
Subject: [PATCH 01/60] fix: ForceContainer: permanent forces were lost or read
 out of bounds when ids are far apart

ensureSize(id,-1) indexed _maxId[-1] and resized the permanent force arrays to id+100 even when that shrinks
them, so that setPermF() on a small id dropped the permanent force of a body with a much larger id;
get*Single() read past the end of those arrays for ids beyond them.
---
 core/ForceContainerParallel.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/ForceContainerParallel.cpp b/core/ForceContainerParallel.cpp
index 8e3c510..33d8833 100644
--- a/core/ForceContainerParallel.cpp
+++ b/core/ForceContainerParallel.cpp
@@ -25,11 +25,13 @@ void ForceContainer::resizePerm(size_t newSize) {
 #include <omp.h>
 void ForceContainer::ensureSize(Body::id_t id, int threadN) {
   assert(nThreads>omp_get_thread_num());
+  if (threadN<0) { // permanent forces; never shrink, that would drop values which are already set
+    if (_permForce.size()<=(size_t)id) resizePerm(min((size_t)1.5*(id+100),(size_t)(id+2000)));
+    return;
+  }
   const Body::id_t idMaxTmp = max(id, _maxId[threadN]);
   _maxId[threadN] = 0;
-  if (threadN<0) {
-    resizePerm(min((size_t)1.5*(idMaxTmp+100),(size_t)(idMaxTmp+2000)));
-  } else if (sizeOfThreads[threadN]<=(size_t)idMaxTmp) {
+  if (sizeOfThreads[threadN]<=(size_t)idMaxTmp) {
     resize(min((size_t)1.5*(idMaxTmp+100),(size_t)(idMaxTmp+2000)),threadN);
   }
 }
@@ -135,7 +137,7 @@ const Vector3r ForceContainer::getForceSingle(Body::id_t id) {
   for(int t=0; t<nThreads; t++) {
     ret+=((size_t)id<sizeOfThreads[t])?_forceData [t][id]:_zero;
   }
-  if (permForceUsed) ret+=_permForce[id];
+  if (permForceUsed && (size_t)id<_permForce.size()) ret+=_permForce[id];
   return ret;
 }
 
@@ -144,7 +146,7 @@ const Vector3r ForceContainer::getTorqueSingle(Body::id_t id) {
   for(int t=0; t<nThreads; t++) {
     ret+=((size_t)id<sizeOfThreads[t])?_torqueData[t][id]:_zero;
   }
-  if (permForceUsed) ret+=_permTorque[id];
+  if (permForceUsed && (size_t)id<_permTorque.size()) ret+=_permTorque[id];
   return ret;
 }
 
-- 
2.43.0


From 55b7548490c47c401b0b81548dda177a52442502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:55 +0000
Subject: [PATCH 02/60] fix: ForceContainer: lost forces when two threads grow
 their arrays at the same time

size was updated by an unprotected test-and-set in resize(), so it could end up smaller than the array of another
thread; sync() then ignored what that thread had accumulated for the ids beyond it.
---
 core/ForceContainerParallel.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/ForceContainerParallel.cpp b/core/ForceContainerParallel.cpp
index 33d8833..427c21f 100644
--- a/core/ForceContainerParallel.cpp
+++ b/core/ForceContainerParallel.cpp
@@ -229,8 +229,12 @@ void ForceContainer::resize(size_t newSize, int threadN) {
   _moveData[threadN].resize(newSize,Vector3r::Zero());
   _rotData[threadN].resize(newSize,Vector3r::Zero());
   sizeOfThreads[threadN] = newSize;
-  if (size<newSize) size=newSize;
-  syncedSizes=false;
+  // called concurrently from addForce & co.; the common size must end up as the maximum
+  #pragma omp critical(ForceContainer_size)
+  {
+    if (size<newSize) size=newSize;
+    syncedSizes=false;
+  }
 }
 
 const int ForceContainer::getNumAllocatedThreads() const {return nThreads;}
-- 
2.43.0


From 22851b80806db3a0e3a9ed16b26382c31dfcb87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:55 +0000
Subject: [PATCH 03/60] fix: ParallelEngine: do not run more threads than the
 per-thread containers were sized for

With yade -j1 the default ompThreads=2 ran slave engines in a thread with number 1, which wrote past the end of
the per-thread arrays of ForceContainer (sized by omp_get_max_threads()). Clamp as all other engines do.
---
 pkg/common/ParallelEngine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/common/ParallelEngine.cpp b/pkg/common/ParallelEngine.cpp
index e4f8814..2e948a4 100644
--- a/pkg/common/ParallelEngine.cpp
+++ b/pkg/common/ParallelEngine.cpp
@@ -15,7 +15,7 @@ void ParallelEngine::action(){
 	#ifdef YADE_OPENMP
 		//nested parallel regions are disabled by default on some platforms, we enable them since some of the subengine may be also parallel
 		omp_set_nested(1);
-		#pragma omp parallel for num_threads(ompThreads)
+		#pragma omp parallel for num_threads(ompThreads>0 ? min(ompThreads,omp_get_max_threads()) : omp_get_max_threads())
 
 	#endif
 	for(int i=0; i<size; i++){
-- 
2.43.0


From 0ce3eb9e8897bb5677475f4331f37932390f0450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:23 +0000
Subject: [PATCH 04/60] fix: EnergyTracker: energies were lost when several
 threads met a new energy name at once

findId() checked for the name outside of the critical section, so that two threads could both create it; what was
added through the first index was then orphaned. Growing the array also moved the storage under threads which were
adding to it.
---
 core/EnergyTracker.hpp   | 25 +++++++++++++++----------
 lib/base/openmp-accu.hpp |  1 +
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/core/EnergyTracker.hpp b/core/EnergyTracker.hpp
index 6df49f2..19947e6 100644
--- a/core/EnergyTracker.hpp
+++ b/core/EnergyTracker.hpp
@@ -6,15 +6,23 @@ namespace py=boost::python;
 
 class EnergyTracker: public Serializable{
 	public:
+	typedef std::map<std::string,int> mapStringInt;
+	typedef std::pair<std::string,int> pairStringInt;
 	~EnergyTracker();
 	void findId(const std::string& name, int& id, bool reset=false, bool newIfNotFound=true){
-		if(id>0) return; // the caller should have checked this already
-		if(names.count(name)) id=names[name];
-		else if(newIfNotFound) {
-			#ifdef YADE_OPENMP
-				#pragma omp critical
-			#endif
-				{ energies.resize(energies.size()+1); id=energies.size()-1; resetStep.resize(id+1); resetStep[id]=reset; names[name]=id; assert(id<(int)energies.size()); assert(id>=0); }
+		if(id>=0) return; // the caller should have checked this already
+		// add() may be called from parallel sections: look up and create under the same lock, so that the name is created only once
+		#ifdef YADE_OPENMP
+			#pragma omp critical(EnergyTracker_findId)
+		#endif
+		{
+			const mapStringInt::const_iterator I=names.find(name);
+			if(I!=names.end()) id=I->second;
+			else if(newIfNotFound) {
+				const int newId=energies.size();
+				energies.resize(newId+1); resetStep.resize(newId+1); resetStep[newId]=reset; names[name]=newId;
+				id=newId; // assigned last, since other threads use it without locking
+			}
 		}
 	}
 	// set value of the accumulator; note: must NOT be called from parallel sections!
@@ -48,9 +56,6 @@ class EnergyTracker: public Serializable{
 		return ret;
   };
 
-	typedef std::map<std::string,int> mapStringInt;
-	typedef std::pair<std::string,int> pairStringInt;
-
 	YADE_CLASS_BASE_DOC_ATTRS_CTOR_PY(EnergyTracker,Serializable,"Storage for tracing energies. Only to be used if :yref:`O.trackEnergy<Omega.trackEnergy>` is True.",
 		((OpenMPArrayAccumulator<Real>,energies,,,"Energy values, in linear array"))
 		((mapStringInt,names,,Attr::hidden,"Associate textual name to an index in the energies array."))
diff --git a/lib/base/openmp-accu.hpp b/lib/base/openmp-accu.hpp
index 91965ba..eda2d77 100644
--- a/lib/base/openmp-accu.hpp
+++ b/lib/base/openmp-accu.hpp
@@ -27,6 +27,7 @@ class OpenMPArrayAccumulator{
 			if(n==sz) return; // nothing to do
 			size_t nCL_new=nCL_for_N(n);
 			if(nCL_new>nCL){
+				nCL_new=std::max(nCL_new,(size_t)16); // other threads may be adding to existing elements: do not move the storage every few elements
 				for(size_t th=0; th<nThreads; th++){
 					void* oldChunk=(void*)chunks[th];
 					int succ=posix_memalign((void**)(&chunks[th]),/*alignment*/CLS,/*size*/ nCL_new*CLS);
-- 
2.43.0


From 3a1c3d5b3515cf00d736cbab2b01667d5c5413df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:23 +0000
Subject: [PATCH 05/60] fix: ThreadRunner: the destructor and O.running ignored
 a background thread that had not started or not finished its last step

~ThreadRunner only waited for threads already inside run(): O.run() followed
quickly by O.reset()/O.load() destroyed the object before the new thread got to
it. After O.pause(), O.running was False and O.wait() returned while the thread
was still inside moveToNextTimeStep(), so that O.step(), O.save() and the like ran
concurrently with it.
---
 core/Omega.cpp        |  2 +-
 core/ThreadRunner.cpp | 24 +++++++++++++++++++++++-
 core/ThreadRunner.hpp |  9 ++++++++-
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/core/Omega.cpp b/core/Omega.cpp
index 6ee1d41..a1f621f 100644
--- a/core/Omega.cpp
+++ b/core/Omega.cpp
@@ -128,7 +128,7 @@ void Omega::pause(){
 	}
 }
 
-bool Omega::isRunning(){ if(simulationLoop) return simulationLoop->looping(); else return false; }
+bool Omega::isRunning(){ if(simulationLoop) return simulationLoop->running(); else return false; }
 
 void Omega::buildDynlibDatabase(const vector<string>& dynlibsList){	
 	LOG_DEBUG("called with "<<dynlibsList.size()<<" plugins.");
diff --git a/core/ThreadRunner.cpp b/core/ThreadRunner.cpp
index 621a911..804440e 100644
--- a/core/ThreadRunner.cpp
+++ b/core/ThreadRunner.cpp
@@ -19,9 +19,17 @@ CREATE_LOGGER(ThreadRunner);
 void ThreadRunner::run()
 {
 	// this is the body of execution of separate thread
+	runLoop();
+	// nothing of this object may be touched after releasing this lock, the destructor is waiting for us
+	boost::mutex::scoped_lock lock(m_boolmutex);
+	m_runThreads--;
+	m_runThreadsCond.notify_all();
+}
+
+void ThreadRunner::runLoop()
+{
 	boost::mutex::scoped_lock lock(m_runmutex);
 	try{
-		workerThrew=false;
 		while(looping()) {
 			call();
 			if(m_thread_worker->shouldTerminate()){ stop(); return; }
@@ -72,6 +80,9 @@ void ThreadRunner::start()
 	boost::mutex::scoped_lock lock(m_boolmutex);
 	if(m_looping) return;
 	m_looping=true;
+	// not in the new thread: it could erase an exception which was not reported yet
+	workerThrew=false;
+	m_runThreads++;
 	boost::function0<void> run( boost::bind( &ThreadRunner::run , this ) );
 	boost::thread th(run);
 }
@@ -89,9 +100,20 @@ bool ThreadRunner::looping()
 	return m_looping;
 }
 
+bool ThreadRunner::running()
+{
+	boost::mutex::scoped_lock lock(m_boolmutex);
+	return m_looping || m_runThreads>0;
+}
+
 ThreadRunner::~ThreadRunner()
 {
 	pleaseTerminate();
+	{
+		// threads which did not get to run() yet have to finish as well
+		boost::mutex::scoped_lock boollock(m_boolmutex);
+		while(m_runThreads>0) m_runThreadsCond.wait(boollock);
+	}
 	boost::mutex::scoped_lock runlock(m_runmutex);
 	boost::mutex::scoped_lock calllock(m_callmutex);
 }
diff --git a/core/ThreadRunner.hpp b/core/ThreadRunner.hpp
index 7ea2004..391f6ee 100644
--- a/core/ThreadRunner.hpp
+++ b/core/ThreadRunner.hpp
@@ -9,6 +9,7 @@
 #pragma once
 
 #include <boost/thread/mutex.hpp>
+#include <boost/thread/condition_variable.hpp>
 
 /*! 
 \brief	ThreadRunner takes care of starting/stopping (executing) the
@@ -50,13 +51,17 @@ class ThreadRunner
 		boost::mutex	m_boolmutex;
 		boost::mutex	m_callmutex;
 		boost::mutex	m_runmutex;
+		//! number of threads started by start() which have not yet left run(); protected by m_boolmutex
+		int		m_runThreads;
+		boost::condition_variable m_runThreadsCond;
 		void		run();
+		void		runLoop();
 		void		call();
 
 		DECLARE_LOGGER;
 
 	public :
-		ThreadRunner(ThreadWorker* c) : m_thread_worker(c), m_looping(false), workerThrew(false) {};
+		ThreadRunner(ThreadWorker* c) : m_thread_worker(c), m_looping(false), m_runThreads(0), workerThrew(false) {};
 		~ThreadRunner();
 
 		/// perform ThreadWorker::singleAction() in separate thread
@@ -69,6 +74,8 @@ class ThreadRunner
 		void pleaseTerminate();
 		/// precondition for the loop started with start().
 		bool looping();
+		/// true if looping, or if the thread of the loop that was stopped is still finishing its last singleAction()
+		bool running();
 		//! if true, workerException is copy of the exception thrown by the worker
 		bool workerThrew;
 		//! last exception thrown by the worker, if any
-- 
2.43.0


From baebe39b65ab08e4ffb5f6aad789970a49ce2c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:24 +0000
Subject: [PATCH 06/60] fix: O.wait(), O.run(wait=True): an error in the
 simulation was not reported if it happened before wait() looked

If the background thread failed quickly enough, wait() found the simulation not
running and returned as if it had finished normally.
---
 py/wrapper/yadeWrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index fc42921..95f8eb4 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -646,9 +646,9 @@ class pyOmega{
 	void pause(){Py_BEGIN_ALLOW_THREADS; OMEGA.pause(); Py_END_ALLOW_THREADS; LOG_DEBUG("PAUSE!");}
 	void step() { if(OMEGA.isRunning()) throw runtime_error("Called O.step() while simulation is running."); OMEGA.getScene()->moveToNextTimeStep(); /* LOG_DEBUG("STEP!"); run(1); wait(); */ }
 	void wait(){
-		if(OMEGA.isRunning()){LOG_DEBUG("WAIT!");} else return;
+		if(OMEGA.isRunning()){LOG_DEBUG("WAIT!");}
 		timespec t1,t2; t1.tv_sec=0; t1.tv_nsec=40000000; /* 40 ms */ Py_BEGIN_ALLOW_THREADS; while(OMEGA.isRunning()) nanosleep(&t1,&t2); Py_END_ALLOW_THREADS;
-		if(!OMEGA.simulationLoop->workerThrew) return;
+		if(!OMEGA.simulationLoop || !OMEGA.simulationLoop->workerThrew) return;
 		LOG_ERROR("Simulation error encountered."); OMEGA.simulationLoop->workerThrew=false; throw OMEGA.simulationLoop->workerException;
 	}
 	bool isRunning(){ return OMEGA.isRunning(); }
-- 
2.43.0


From dcaf04e73911356a7b582f5ab0529a33ac83edd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:24 +0000
Subject: [PATCH 07/60] fix: O.reset() deadlocked with a running simulation
 which uses python

reset() waited for the background thread while holding the GIL; a PyRunner in
that thread waits for the GIL. Every other caller of Omega::stop() releases it.
---
 py/wrapper/yadeWrapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index 95f8eb4..aa75f02 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -677,7 +677,7 @@ class pyOmega{
 		return OMEGA.memSavedSimulations[":memory:"+mark];
 	}
 
-	void reset(){OMEGA.stop(); OMEGA.reset(); }
+	void reset(){Py_BEGIN_ALLOW_THREADS; OMEGA.stop(); Py_END_ALLOW_THREADS; OMEGA.reset(); }
 	void resetThisScene(){Py_BEGIN_ALLOW_THREADS; OMEGA.stop(); Py_END_ALLOW_THREADS; OMEGA.resetCurrentScene(); OMEGA.createSimulationLoop();}
 	void resetCurrentScene(){Py_BEGIN_ALLOW_THREADS; OMEGA.stop(); Py_END_ALLOW_THREADS; OMEGA.resetCurrentScene(); OMEGA.createSimulationLoop();}
 	void resetTime(){ OMEGA.getScene()->iter=0; OMEGA.getScene()->time=0; OMEGA.timeInit(); }
@@ -688,7 +688,7 @@ class pyOmega{
 	
 	// Scene manipulation in multithread situations as python object or as a string (e.g. FEMxDEM, MPI, ...)
 	shared_ptr<Scene> scene_get(){ return OMEGA.getScene(); }
-	void scene_set(const shared_ptr<Scene>& source){ Py_BEGIN_ALLOW_THREADS; reset(); Py_END_ALLOW_THREADS; assertScene(); OMEGA.setScene(source); }
+	void scene_set(const shared_ptr<Scene>& source){ reset(); assertScene(); OMEGA.setScene(source); }
 	
 	string sceneToString(){
 		ostringstream oss;
-- 
2.43.0


From 8dece7d50c98b8c1a2508b78b895007229f5e666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:24 +0000
Subject: [PATCH 08/60] fix: O.stopAtTime only took integers and practically
 never stopped the simulation

The setter took a long (O.stopAtTime=.5 raised an exception) and the simulation
stopped only if the accumulated time was exactly equal to stopAtTime.
---
 core/SimulationFlow.cpp    | 3 ++-
 py/wrapper/yadeWrapper.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/SimulationFlow.cpp b/core/SimulationFlow.cpp
index c91a742..684b85a 100644
--- a/core/SimulationFlow.cpp
+++ b/core/SimulationFlow.cpp
@@ -21,8 +21,9 @@ void SimulationFlow::singleAction()
 		LOG_INFO("Sub-stepping disabled when running simulation continuously.");
 		scene->subStepping=false;
 	}
+	const Real timeBefore=scene->time;
 	scene->moveToNextTimeStep();
 	if(scene->stopAtIter>0 && scene->iter==scene->stopAtIter) setTerminate(true);
-	if(scene->stopAtTime>0 && scene->time==scene->stopAtTime) setTerminate(true);
+	if(scene->stopAtTime>0 && timeBefore<scene->stopAtTime && scene->time>=scene->stopAtTime) setTerminate(true);
 };
 
diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index aa75f02..61d93eb 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -625,7 +625,7 @@ class pyOmega{
 	long stopAtIter_get(){return OMEGA.getScene()->stopAtIter; }
 	void stopAtIter_set(long s){OMEGA.getScene()->stopAtIter=s; }
 	Real stopAtTime_get(){return OMEGA.getScene()->stopAtTime; }
-	void stopAtTime_set(long s){OMEGA.getScene()->stopAtTime=s; }
+	void stopAtTime_set(Real s){OMEGA.getScene()->stopAtTime=s; }
 
 
 	bool timingEnabled_get(){return TimingInfo::enabled;}
-- 
2.43.0


From 86e4b01fdb69a41839378294ec1b0e6097791b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:57 +0000
Subject: [PATCH 09/60] fix: O.engines: assignment was undone if engines had
 been replaced inside the loop before

Engines assigned inside the loop wait in _nextEngines for the next step. If
O.engines was assigned again before that step (outside the loop), the older
_nextEngines were read back and took over at the next step.
---
 py/wrapper/yadeWrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index 61d93eb..8839651 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -731,7 +731,7 @@ class pyOmega{
 	vector<shared_ptr<Engine> > engines_get(void){assertScene(); Scene* scene=OMEGA.getScene().get(); return scene->_nextEngines.empty()?scene->engines:scene->_nextEngines;}
 	void engines_set(const vector<shared_ptr<Engine> >& egs){
 		assertScene(); Scene* scene=OMEGA.getScene().get();
-		if(scene->subStep<0) scene->engines=egs; // not inside the engine loop right now, ok to update directly
+		if(scene->subStep<0) { scene->engines=egs; scene->_nextEngines.clear(); } // not inside the engine loop right now, ok to update directly
 		else scene->_nextEngines=egs; // inside the engine loop, update _nextEngines; O.engines picks that up automatically, and Scene::moveToNextTimestep will put them in place of engines at the start of the next loop
 		mapLabeledEntitiesToVariables();
 	}
-- 
2.43.0


From beb94b037ef08b44dff4fdf02a2a49c831da23c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:16 +0000
Subject: [PATCH 10/60] fix: Omega::stop: crash if the simulation called
 O.pause() just when it was being stopped

simulationLoop was cleared while the background thread could still be using it.
---
 core/Omega.cpp        |  3 ++-
 core/ThreadRunner.cpp | 15 +++++++++------
 core/ThreadRunner.hpp |  2 ++
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/core/Omega.cpp b/core/Omega.cpp
index a1f621f..fe10b07 100644
--- a/core/Omega.cpp
+++ b/core/Omega.cpp
@@ -105,7 +105,8 @@ void Omega::createSimulationLoop(){
 void Omega::stop(){
 	LOG_DEBUG("");
 	if (simulationLoop&&simulationLoop->looping())simulationLoop->stop();
-	if (simulationLoop) simulationLoop=shared_ptr<ThreadRunner>();
+	// the thread may use simulationLoop itself (O.pause() inside the loop), it must have finished before
+	if (simulationLoop) { simulationLoop->join(); simulationLoop=shared_ptr<ThreadRunner>(); }
 }
 
 /* WARNING: even a single simulation step is run asynchronously; the call will return before the iteration is finished. */
diff --git a/core/ThreadRunner.cpp b/core/ThreadRunner.cpp
index 804440e..c4a513e 100644
--- a/core/ThreadRunner.cpp
+++ b/core/ThreadRunner.cpp
@@ -106,14 +106,17 @@ bool ThreadRunner::running()
 	return m_looping || m_runThreads>0;
 }
 
-ThreadRunner::~ThreadRunner()
+void ThreadRunner::join()
 {
 	pleaseTerminate();
-	{
-		// threads which did not get to run() yet have to finish as well
-		boost::mutex::scoped_lock boollock(m_boolmutex);
-		while(m_runThreads>0) m_runThreadsCond.wait(boollock);
-	}
+	// threads which did not get to run() yet have to finish as well
+	boost::mutex::scoped_lock boollock(m_boolmutex);
+	while(m_runThreads>0) m_runThreadsCond.wait(boollock);
+}
+
+ThreadRunner::~ThreadRunner()
+{
+	join();
 	boost::mutex::scoped_lock runlock(m_runmutex);
 	boost::mutex::scoped_lock calllock(m_callmutex);
 }
diff --git a/core/ThreadRunner.hpp b/core/ThreadRunner.hpp
index 391f6ee..13abdd1 100644
--- a/core/ThreadRunner.hpp
+++ b/core/ThreadRunner.hpp
@@ -72,6 +72,8 @@ class ThreadRunner
 		void stop();
 		/// kindly ask the separate thread to terminate
 		void pleaseTerminate();
+		/// pleaseTerminate() and return once the separate thread has finished
+		void join();
 		/// precondition for the loop started with start().
 		bool looping();
 		/// true if looping, or if the thread of the loop that was stopped is still finishing its last singleAction()
-- 
2.43.0


From 44c7744436b0c1583c882cf2f2569d4cba33840b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:32 +0000
Subject: [PATCH 11/60] fix: GlobalStiffnessTimeStepper: computedOnce was not
 saved, a restarted simulation changed its timestep at another iteration

---
 pkg/dem/GlobalStiffnessTimeStepper.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/dem/GlobalStiffnessTimeStepper.hpp b/pkg/dem/GlobalStiffnessTimeStepper.hpp
index 94de675..c02b5fe 100644
--- a/pkg/dem/GlobalStiffnessTimeStepper.hpp
+++ b/pkg/dem/GlobalStiffnessTimeStepper.hpp
@@ -29,8 +29,7 @@ class GlobalStiffnessTimeStepper : public TimeStepper
 		void computeStiffnesses(Scene*);
 
 		Real		newDt;
-		bool		computedSomething,
- 				computedOnce;
+		bool		computedSomething;
 		void findTimeStepFromBody(const shared_ptr<Body>& body, Scene * ncb);
 	
 	public :
@@ -46,8 +45,9 @@ class GlobalStiffnessTimeStepper : public TimeStepper
 			((Real,timestepSafetyCoefficient,0.8,,"safety factor between the minimum eigen-period and the final assigned dt (less than 1)"))
 			((bool,densityScaling,false,,"|yupdate| don't modify this value if you don't plan to modify the scaling factor manually for some bodies. In most cases, it is enough to set :yref:`NewtonIntegrator::densityScaling` and let this one be adjusted automatically."))
 			((Real,targetDt,1,,"if :yref:`NewtonIntegrator::densityScaling` is active, this value will be used as the simulation  timestep and the scaling will use this value of dt as the target value. The value of targetDt is arbitrary and should have no effect in the result in general. However if some bodies have imposed velocities, for instance, they will move more or less per each step depending on this value."))
-			((bool,viscEl,false,,"To use with :yref:`ViscElPhys`. if True, evaluate separetly the minimum eigen-period in the problem considering only the elastic contribution on one hand (spring only), and only the viscous contribution on the other hand (dashpot only). Take then the minimum of the two and use the safety coefficient :yref:`GlobalStiffnessTimestepper::timestepSafetyCoefficient` to take into account the possible coupling between the two contribution.")),
-			computedOnce=false;)
+			((bool,viscEl,false,,"To use with :yref:`ViscElPhys`. if True, evaluate separetly the minimum eigen-period in the problem considering only the elastic contribution on one hand (spring only), and only the viscous contribution on the other hand (dashpot only). Take then the minimum of the two and use the safety coefficient :yref:`GlobalStiffnessTimestepper::timestepSafetyCoefficient` to take into account the possible coupling between the two contribution."))
+			((bool,computedOnce,false,Attr::hidden,"whether the timestep was computed already")),
+			/*ctor*/ )
 		DECLARE_LOGGER;
 };
 
-- 
2.43.0


From 7e26eaf97b70b76c9a66e84ba4e1dfba584ccb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:32 +0000
Subject: [PATCH 12/60] fix: Ip2_CohFrictMat_CohFrictMat_CohFrictPhys:
 cohesionDefinitionIteration was not saved

A simulation saved in the step following setCohesionNow assigned cohesion once more after being loaded, also to contacts which had been created as frictional.
---
 pkg/dem/CohesiveFrictionalContactLaw.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/dem/CohesiveFrictionalContactLaw.hpp b/pkg/dem/CohesiveFrictionalContactLaw.hpp
index 9d8016c..be0437b 100644
--- a/pkg/dem/CohesiveFrictionalContactLaw.hpp
+++ b/pkg/dem/CohesiveFrictionalContactLaw.hpp
@@ -141,7 +141,6 @@ class Ip2_CohFrictMat_CohFrictMat_CohFrictPhys : public IPhysFunctor
 		virtual void go(	const shared_ptr<Material>& b1,
 					const shared_ptr<Material>& b2,
 					const shared_ptr<Interaction>& interaction);
-		int cohesionDefinitionIteration;
 
 		YADE_CLASS_BASE_DOC_ATTRS_CTOR(Ip2_CohFrictMat_CohFrictMat_CohFrictPhys,IPhysFunctor,
 		"Generates cohesive-frictional interactions with moments, used in the contact law :yref:`Law2_ScGeom6D_CohFrictPhys_CohesionMoment`. The normal/shear stiffness and friction definitions are the same as in :yref:`Ip2_FrictMat_FrictMat_FrictPhys`, check the documentation there for details.\n\nAdhesions related to the normal and the shear components are calculated from :yref:`CohFrictMat::normalCohesion` ($C_n$) and :yref:`CohFrictMat::shearCohesion` ($C_s$). For particles of size $R_1$,$R_2$ the adhesion will be $a_i=C_i min(R_1,R_2)^2$, $i=n,s$.\n\nTwist and rolling stiffnesses are proportional to the shear stiffness through dimensionless factors alphaKtw and alphaKr, such that the rotational stiffnesses are defined by $k_s \\alpha_i R_1 R_2$, $i=tw\\,r$",
@@ -150,8 +149,8 @@ class Ip2_CohFrictMat_CohFrictMat_CohFrictPhys : public IPhysFunctor
 		((shared_ptr<MatchMaker>,normalCohesion,,,"Instance of :yref:`MatchMaker` determining tensile strength"))
 		((shared_ptr<MatchMaker>,shearCohesion,,,"Instance of :yref:`MatchMaker` determining cohesive part of the shear strength (a frictional term might be added depending on :yref:`CohFrictPhys::cohesionDisablesFriction`)"))
 		((shared_ptr<MatchMaker>,frictAngle,,,"Instance of :yref:`MatchMaker` determining how to compute interaction's friction angle. If ``None``, minimum value is used."))
+		((int,cohesionDefinitionIteration,-1,Attr::hidden,"iteration in which setCohesionNow is taking effect"))
 		,
-		cohesionDefinitionIteration = -1;
 		);
 	FUNCTOR2D(CohFrictMat,CohFrictMat);
 };
-- 
2.43.0


From d5cfb46ad8253081c2c354eb887263ddfff43733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:32 +0000
Subject: [PATCH 13/60] fix: CpmPhys: damage and strains were not saved, a
 loaded simulation started with undamaged contacts

---
 pkg/dem/ConcretePM.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/dem/ConcretePM.hpp b/pkg/dem/ConcretePM.hpp
index 2c9702d..62b6d18 100644
--- a/pkg/dem/ConcretePM.hpp
+++ b/pkg/dem/ConcretePM.hpp
@@ -141,8 +141,8 @@ class CpmPhys: public NormShearPhys {
 		static long cummBetaIter, cummBetaCount;
 		/*! auxiliary variable for visualization, recalculated in Law2_ScGeom_CpmPhys_Cpm at every iteration */
 		// Fn and Fs are also stored as Vector3r normalForce, shearForce in NormShearPhys 
-		Real omega = 0, Fn = 0, sigmaN, epsN = 0, relResidualStrength, kappaD = 0, epsNPl = 0;
-		Vector3r sigmaT, Fs, epsTPl, epsT;
+		Real sigmaN, relResidualStrength;
+		Vector3r sigmaT;
 
 		static Real solveBeta(const Real c, const Real N);
 		Real computeDmgOverstress(Real dt);
@@ -157,7 +157,6 @@ class CpmPhys: public NormShearPhys {
 		void setRelResidualStrength(Real r);
 
 		virtual ~CpmPhys();
-		#define _ZERO_VECTOR3R(v) v = Vector3r::Zero()
 		YADE_CLASS_BASE_DOC_ATTRS_CTOR_PY(CpmPhys,NormShearPhys,"Representation of a single interaction of the Cpm type: storage for relevant parameters.\n\n Evolution of the contact is governed by :yref:`Law2_ScGeom_CpmPhys_Cpm`, that includes damage effects and chages of parameters inside CpmPhys. See :yref:`cpm-model<CpmMat>` for details.",
 			((Real,E,NaN,,"normal modulus (stiffness / crossSection) [Pa]"))
 			((Real,G,NaN,,"shear modulus [Pa]"))
@@ -181,10 +180,17 @@ class CpmPhys: public NormShearPhys {
 			((int,damLaw,1,,"Law for softening part of uniaxial tension. 0 for linear, 1 for exponential (default)"))
 			//((Real,epsPlSum,0,,"cummulative shear plastic strain measure (scalar) on this contact"))
 			((bool,isCohesive,false,,"if not cohesive, interaction is deleted when distance is greater than zero."))
+			// internal variables; they are the history of the contact and have to be saved with it
+			((Real,omega,0,Attr::hidden,"Damage internal variable"))
+			((Real,Fn,0,Attr::hidden,"Magnitude of normal force"))
+			((Vector3r,Fs,Vector3r::Zero(),Attr::hidden,"Magnitude of shear force"))
+			((Real,epsN,0,Attr::hidden,"Current normal strain"))
+			((Vector3r,epsT,Vector3r::Zero(),Attr::hidden,"Current shear strain"))
+			((Real,kappaD,0,Attr::hidden,"Up to now maximum normal strain (semi-norm), non-decreasing in time"))
+			((Real,epsNPl,0,Attr::hidden,"normal plastic strain (initially zero)"))
+			((Vector3r,epsTPl,Vector3r::Zero(),Attr::hidden,"shear plastic strain (initially zero)"))
 			, // ctors
 			createIndex();
-			epsN = 0;
-			_ZERO_VECTOR3R(epsT); _ZERO_VECTOR3R(Fs); _ZERO_VECTOR3R(epsTPl);
 			,
 			.def_readonly("omega",&CpmPhys::omega,"Damage internal variable |yupdate|")
 			.def_readonly("Fn",&CpmPhys::Fn,"Magnitude of normal force |yupdate|")
@@ -206,7 +212,6 @@ class CpmPhys: public NormShearPhys {
 			.def("setDamage",&CpmPhys::setDamage,"TODO")
 			.def("setRelResidualStrength",&CpmPhys::setRelResidualStrength,"TODO")
 		);
-		#undef _ZERO_VECTOR3R
 	DECLARE_LOGGER;
 	REGISTER_CLASS_INDEX(CpmPhys,NormShearPhys);
 };
-- 
2.43.0


From 38e698dc8ac13b74f01d489ee6d3327353ac9c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:15 +0000
Subject: [PATCH 14/60] fix: loaded interactions got the iteration of loading
 as iterBorn, and could be dropped if an earlier one had no body

InteractionContainer::postLoad__calledFromScene used insert(), which sets iterBorn to the current iteration (as if the contact had just been created), and left the loop at the first interaction with an erased body instead of skipping it.
---
 core/InteractionContainer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 97052b5..829a6c5 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -147,9 +147,11 @@ void InteractionContainer::postLoad__calledFromScene(const shared_ptr<BodyContai
 	FOREACH(const shared_ptr<Interaction>& I, interaction){ 
 		Body::id_t id1=I->getId1(), id2=I->getId2();
 		if (!(*bodies)[id1] || !(*bodies)[id2]) {
-			return;
+			continue;
 		} else {
+			const long iterBorn=I->iterBorn;
 			insert(I);
+			I->iterBorn=iterBorn; // insert() considers the interaction as new, but it was only loaded
 		}
 	}
 	interaction.clear();
-- 
2.43.0


From b5d134b17f2ed9a8912bc92a5e7548f3c57c1fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:39 +0000
Subject: [PATCH 15/60] fix: Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM,
 Ip2_JCFpmMat_JCFpmMat_JCFpmPhys: crack and bond counters lost increments with
 several threads

---
 pkg/dem/JointedCohesiveFrictionalPM.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pkg/dem/JointedCohesiveFrictionalPM.cpp b/pkg/dem/JointedCohesiveFrictionalPM.cpp
index 1c5c1f3..f69cf97 100644
--- a/pkg/dem/JointedCohesiveFrictionalPM.cpp
+++ b/pkg/dem/JointedCohesiveFrictionalPM.cpp
@@ -103,6 +103,11 @@ bool Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM::go(shared_ptr<IGeom>& ig
 	  
 	  if ( phys->isCohesive && (phys->FnMax>0) && (std::abs(D)>Dtensile) ) {
 	    
+	    #ifdef YADE_OPENMP
+	    // totals, body states and files are shared by all contacts, which are treated in parallel
+	    #pragma omp critical(JCFpmCracks)
+	    #endif
+	    {
 	    nbTensCracks++;
 	    phys->isCohesive = 0;
 	    phys->FnMax = 0;
@@ -138,6 +143,7 @@ bool Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM::go(shared_ptr<IGeom>& ig
 			computeTemporalWindow(phys, b1, b2);
         }
 	    cracksFileExist=true;
+	    }
             
 	    if (!neverErase) return false; 
 	    else {
@@ -202,6 +208,10 @@ bool Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM::go(shared_ptr<IGeom>& ig
 
 	  if ( phys->isCohesive ) { 
 
+	    #ifdef YADE_OPENMP
+	    #pragma omp critical(JCFpmCracks)
+	    #endif
+	    {
 	    nbShearCracks++;
 	    phys->isCohesive = 0;
 	    phys->FnMax = 0;
@@ -245,6 +255,7 @@ bool Law2_ScGeom_JCFpmPhys_JointedCohesiveFrictionalPM::go(shared_ptr<IGeom>& ig
 			clusterInteractions(phys, contact);
 			computeTemporalWindow(phys, b1, b2);
         }
+	    }
             
             // option 2: delete contact if in tension
 //	    shearForce *= Fn*phys->tanFrictionAngle/scalarShearForce; // now or at the next timestep? should not be very different -> to TEST
@@ -519,8 +530,10 @@ void Ip2_JCFpmMat_JCFpmMat_JCFpmPhys::go(const shared_ptr<Material>& b1, const s
 	///to set if the contact is cohesive or not
 	if ( ((cohesiveTresholdIteration < 0) || (scene->iter < cohesiveTresholdIteration)) && (std::min(SigT1,SigT2)>0 || std::min(Coh1,Coh2)>0) && (yade1->type == yade2->type)){ 
 	  contactPhysics->isCohesive=true;
-	  st1->nbInitBonds++;
-	  st2->nbInitBonds++;
+	  #ifdef YADE_OPENMP
+	  #pragma omp critical(JCFpmCracks)
+	  #endif
+	  { st1->nbInitBonds++; st2->nbInitBonds++; }
 	}
 	
 	if ( contactPhysics->isCohesive ) {
@@ -584,8 +597,10 @@ void Ip2_JCFpmMat_JCFpmMat_JCFpmPhys::go(const shared_ptr<Material>& b1, const s
 			///to set if the contact is cohesive or not
 			if ( ((cohesiveTresholdIteration < 0) || (scene->iter < cohesiveTresholdIteration)) && (std::min(jcoh1,jcoh2)>0 || std::min(jSigT1,jSigT2)>0) ) {
                             contactPhysics->isCohesive=true;
-                            st1->nbInitBonds++;
-                            st2->nbInitBonds++;
+                            #ifdef YADE_OPENMP
+                            #pragma omp critical(JCFpmCracks)
+                            #endif
+                            { st1->nbInitBonds++; st2->nbInitBonds++; }
 			} 
 			else { contactPhysics->isCohesive=false; contactPhysics->FnMax=0; contactPhysics->FsMax=0; }
 		  
-- 
2.43.0


From 450550b721555669e9c702f33a6ad655b8bc66aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:39 +0000
Subject: [PATCH 16/60] fix: Ip2_CohFrictMat_CohFrictMat_CohFrictPhys:
 setCohesionNow could take effect in two steps with several threads

---
 pkg/dem/CohesiveFrictionalContactLaw.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/dem/CohesiveFrictionalContactLaw.cpp b/pkg/dem/CohesiveFrictionalContactLaw.cpp
index 005bb3d..41bb894 100644
--- a/pkg/dem/CohesiveFrictionalContactLaw.cpp
+++ b/pkg/dem/CohesiveFrictionalContactLaw.cpp
@@ -242,10 +242,17 @@ void Ip2_CohFrictMat_CohFrictMat_CohFrictPhys::go(const shared_ptr<Material>& b1
 	ScGeom6D* geom = YADE_CAST<ScGeom6D*>(interaction->geom.get());
 
 	//Create cohesive interractions only once
-	if (setCohesionNow && cohesionDefinitionIteration==-1) cohesionDefinitionIteration=scene->iter;
-	if (setCohesionNow && cohesionDefinitionIteration!=-1 && cohesionDefinitionIteration!=scene->iter) {
-		cohesionDefinitionIteration = -1;
-		setCohesionNow = 0;}
+	if (setCohesionNow) {
+		#ifdef YADE_OPENMP
+		#pragma omp critical(CohesionDefinition) // other threads must not see one of both variables changed without the other
+		#endif
+		{
+			if (setCohesionNow && cohesionDefinitionIteration==-1) cohesionDefinitionIteration=scene->iter;
+			if (setCohesionNow && cohesionDefinitionIteration!=-1 && cohesionDefinitionIteration!=scene->iter) {
+				cohesionDefinitionIteration = -1;
+				setCohesionNow = 0;}
+		}
+	}
 
 	if (geom) {
 		const auto normalAdhPreCalculated = (normalCohesion) ? (*normalCohesion)(b1->id,b2->id) : std::min(sdec1->normalCohesion,sdec2->normalCohesion);
-- 
2.43.0


From 39cdf8b3c02953f449307fff8e23052b9c9a2265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:06 +0000
Subject: [PATCH 17/60] fix: saving a simulation to a file ignored write errors
 (full disk), reporting success or never returning

---
 lib/serialization/ObjectIO.hpp | 45 ++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/lib/serialization/ObjectIO.hpp b/lib/serialization/ObjectIO.hpp
index 7aff77c..528b8d9 100644
--- a/lib/serialization/ObjectIO.hpp
+++ b/lib/serialization/ObjectIO.hpp
@@ -2,7 +2,10 @@
 
 #pragma once
 
+#include <fstream>
 #include <locale>
+#include <sstream>
+#include <boost/iostreams/copy.hpp>
 #include <boost/archive/codecvt_null.hpp>
 #include <boost/iostreams/filtering_stream.hpp>
 #include <boost/iostreams/filter/bzip2.hpp>
@@ -44,16 +47,44 @@ struct ObjectIO{
 		iarchive ia(ifs,boost::archive::no_codecvt);
 		ia >> boost::serialization::make_nvp(objectTag.c_str(),object);
 	}
+	// file for writing, throws when data can not be written (boost::iostreams::file_sink does not, compressors then retry forever)
+	struct CheckedFileSink{
+		typedef char char_type;
+		typedef boost::iostreams::sink_tag category;
+		std::shared_ptr<std::ofstream> file;
+		CheckedFileSink(const std::shared_ptr<std::ofstream>& f): file(f){}
+		std::streamsize write(const char* s, std::streamsize n){
+			if(!file->write(s,n)) throw std::runtime_error("Error writing file.");
+			return n;
+		}
+	};
+	// call writer(std::ostream&) for given file, guessing compression from extension; throws unless everything was written
+	template<class Writer>
+	static void writeFile(const string& fileName, Writer writer){
+		std::shared_ptr<std::ofstream> file=std::make_shared<std::ofstream>(fileName.c_str(),std::ios::out|std::ios::binary|std::ios::trunc);
+		if(!file->good()) throw std::runtime_error("Error opening file "+fileName+" for writing.");
+		bool ok=false;
+		try{
+			boost::iostreams::filtering_ostream out;
+			if(boost::algorithm::ends_with(fileName,".bz2")) out.push(boost::iostreams::bzip2_compressor());
+			if(boost::algorithm::ends_with(fileName,".gz")) out.push(boost::iostreams::gzip_compressor());
+			out.push(CheckedFileSink(file));
+			writer(out);
+			ok=out.good();
+		} catch(...) {
+			// another error than writing the file: pass it on
+			if(file->good()) throw;
+		}
+		file->close();
+		if(!ok || !file->good()) throw std::runtime_error("Error writing file "+fileName+" (disk full?), it is not complete.");
+	}
 	// save to given file, guessing compression and XML/binary from extension
 	template<class T>
 	static void save(const string fileName, const string& objectTag, T& object){
-		boost::iostreams::filtering_ostream out;
-		if(boost::algorithm::ends_with(fileName,".bz2")) out.push(boost::iostreams::bzip2_compressor());
-		if(boost::algorithm::ends_with(fileName,".gz")) out.push(boost::iostreams::gzip_compressor());
-		out.push(boost::iostreams::file_sink(fileName));
-		if(!out.good()) throw std::runtime_error("Error opening file "+fileName+" for writing.");
-		if(isXmlFilename(fileName)) save<T,boost::archive::xml_oarchive>(out,objectTag,object);
-		else save<T,boost::archive::binary_oarchive>(out,objectTag,object);
+		writeFile(fileName,[&](std::ostream& out){
+			if(isXmlFilename(fileName)) save<T,boost::archive::xml_oarchive>(out,objectTag,object);
+			else save<T,boost::archive::binary_oarchive>(out,objectTag,object);
+		});
 	}
 	// load from given file, guessing compression and XML/binary from extension
 	template<class T>
-- 
2.43.0


From 5d5b25b80adf4bd72fed0a2b7473992a72ed7520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:06 +0000
Subject: [PATCH 18/60] fix: O.tmpToFile had its arguments swapped against the
 documentation, ignored write errors and .gz

---
 py/wrapper/yadeWrapper.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index 8839651..bb9e21c 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -663,14 +663,10 @@ class pyOmega{
 	void saveTmp(string mark="", bool quiet=false){ save(":memory:"+mark,quiet);}
 	void loadTmp(string mark="", bool quiet=false){ load(":memory:"+mark,quiet);}
 	py::list lsTmp(){ py::list ret; typedef pair<std::string,string> strstr; FOREACH(const strstr& sim,OMEGA.memSavedSimulations){ string mark=sim.first; boost::algorithm::replace_first(mark,":memory:",""); ret.append(mark); } return ret; }
-	void tmpToFile(string mark, string filename){
+	void tmpToFile(string filename, string mark){
 		if(OMEGA.memSavedSimulations.count(":memory:"+mark)==0) throw runtime_error("No memory-saved simulation named "+mark);
-		boost::iostreams::filtering_ostream out;
-		if(boost::algorithm::ends_with(filename,".bz2")) out.push(boost::iostreams::bzip2_compressor());
-		out.push(boost::iostreams::file_sink(filename));
-		if(!out.good()) throw runtime_error("Error while opening file `"+filename+"' for writing.");
 		LOG_INFO("Saving :memory:"<<mark<<" to "<<filename);
-		out<<OMEGA.memSavedSimulations[":memory:"+mark];
+		yade::ObjectIO::writeFile(filename,[&](std::ostream& out){ out<<OMEGA.memSavedSimulations[":memory:"+mark]; out.flush(); });
 	}
 	string tmpToString(string mark){
 		if(OMEGA.memSavedSimulations.count(":memory:"+mark)==0) throw runtime_error("No memory-saved simulation named "+mark);
-- 
2.43.0


From a3f8350f66525505756c246a7f484f386dcfaceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:06 +0000
Subject: [PATCH 19/60] fix: loading an XML file cut off inside its last tag
 terminated the process

---
 lib/serialization/ObjectIO.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/serialization/ObjectIO.hpp b/lib/serialization/ObjectIO.hpp
index 528b8d9..7de4364 100644
--- a/lib/serialization/ObjectIO.hpp
+++ b/lib/serialization/ObjectIO.hpp
@@ -94,7 +94,13 @@ struct ObjectIO{
 		if(boost::algorithm::ends_with(fileName,".gz")) in.push(boost::iostreams::gzip_decompressor());
 		in.push(boost::iostreams::file_source(fileName));
 		if(!in.good()) throw std::runtime_error("Error opening file "+fileName+" for reading.");
-		if(isXmlFilename(fileName)) load<T,boost::archive::xml_iarchive>(in,objectTag,object);
+		if(isXmlFilename(fileName)){
+			// boost::archive::xml_iarchive reads the closing tag in its destructor, and the process terminates if it is incomplete
+			std::stringstream xml;
+			boost::iostreams::copy(in,xml);
+			if(!boost::algorithm::ends_with(boost::algorithm::trim_right_copy(xml.str()),"</boost_serialization>")) throw std::runtime_error("File "+fileName+" is not complete.");
+			load<T,boost::archive::xml_iarchive>(xml,objectTag,object);
+		}
 		else load<T,boost::archive::binary_iarchive>(in,objectTag,object);
 	}
 };
-- 
2.43.0


From 73b4dc6bb08cc7bfc5b08fad8478ec77dc90e16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:31 +0000
Subject: [PATCH 20/60] fix: InsertionSortCollider: crash or missed contacts
 after O.periodic was toggled or bodies were replaced by fewer ones

---
 pkg/common/InsertionSortCollider.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/common/InsertionSortCollider.cpp b/pkg/common/InsertionSortCollider.cpp
index 8d98727..4431172 100644
--- a/pkg/common/InsertionSortCollider.cpp
+++ b/pkg/common/InsertionSortCollider.cpp
@@ -198,7 +198,7 @@ void InsertionSortCollider::action(){
 	#endif
 	// periodicity changed, force reinit
 	if(scene->isPeriodic != periodic){
-		for(int i=0; i<3; i++) BB[i].vec.clear();
+		invalidatePersistentData();
 		periodic=scene->isPeriodic;
 	}
 	// pre-conditions
@@ -213,7 +213,7 @@ void InsertionSortCollider::action(){
 			LOG_DEBUG("Resize bounds containers from "<<BBsize<<" to "<<nBodies*2<<", will std::sort.");
 			// bodies deleted; clear the container completely, and do as if all bodies were added (rather slow…)
 			// future possibility: insertion sort with such operator that deleted bodies would all go to the end, then just trim bounds
-			if(2*nBodies<BBsize){ for(int i=0; i<3; i++) BB[i].vec.clear(); }
+			if(2*nBodies<BBsize){ invalidatePersistentData(); BBsize=0; }
 			// more than 100 bodies was added, do initial sort again
 			// maybe: should rather depend on ratio of added bodies to those already present...?
 			if(2*nBodies-BBsize>200 || BBsize==0) doInitSort=true;
-- 
2.43.0


From 36c9926201afca1820249d82e7cef3194d634d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:31 +0000
Subject: [PATCH 21/60] fix: InsertionSortCollider: contacts of bodies added to
 a periodic simulation could be missed across the boundary

---
 pkg/common/InsertionSortCollider.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/common/InsertionSortCollider.cpp b/pkg/common/InsertionSortCollider.cpp
index 4431172..1f7ae18 100644
--- a/pkg/common/InsertionSortCollider.cpp
+++ b/pkg/common/InsertionSortCollider.cpp
@@ -216,7 +216,8 @@ void InsertionSortCollider::action(){
 			if(2*nBodies<BBsize){ invalidatePersistentData(); BBsize=0; }
 			// more than 100 bodies was added, do initial sort again
 			// maybe: should rather depend on ratio of added bodies to those already present...?
-			if(2*nBodies-BBsize>200 || BBsize==0) doInitSort=true;
+			// periodic: new bounds would start in the middle of the circular list, possibly within bounds of other bodies, and overlaps with those would be missed
+			if(2*nBodies-BBsize>200 || BBsize==0 || periodic) doInitSort=true;
 			assert((BBsize%2)==0);
 			for(int i=0; i<3; i++){
 				BB[i].vec.reserve(2*nBodies);
-- 
2.43.0


From 49cd8183002bb657a036e45d6220427c40ec3976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:31 +0000
Subject: [PATCH 22/60] fix: Bo1_Sphere_Aabb: bounding boxes were too small in
 a periodic cell sheared in several directions

---
 pkg/common/Bo1_Aabb.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pkg/common/Bo1_Aabb.cpp b/pkg/common/Bo1_Aabb.cpp
index 4920b04..774e6e0 100644
--- a/pkg/common/Bo1_Aabb.cpp
+++ b/pkg/common/Bo1_Aabb.cpp
@@ -21,14 +21,9 @@ void Bo1_Sphere_Aabb::go(const shared_ptr<Shape>& cm, shared_ptr<Bound>& bv, con
 	}
 	// adjust box size along axes so that sphere doesn't stick out of the box even if sheared (i.e. parallelepiped)
 	if(scene->cell->hasShear()) {
-		Vector3r refHalfSize(halfSize);
-		const Vector3r& cos=scene->cell->getCos();
-		for(int i=0; i<3; i++){
-			//cerr<<"cos["<<i<<"]"<<cos[i]<<" ";
-			int i1=(i+1)%3,i2=(i+2)%3;
-			halfSize[i1]+=.5*refHalfSize[i1]*(1/cos[i]-1);
-			halfSize[i2]+=.5*refHalfSize[i2]*(1/cos[i]-1);
-		}
+		// the sphere is an ellipsoid in the unsheared space; its half-size along an axis is given by the respective row of the transformation
+		const Matrix3r& unshear=scene->cell->getUnshearTrsf();
+		for(int i=0; i<3; i++) halfSize[i]*=unshear.row(i).norm();
 	}
 	//cerr<<" || "<<halfSize<<endl;
 	aabb->min = scene->cell->unshearPt(se3.position)-halfSize;
-- 
2.43.0


From 3e7d5bfaf2953ad16cedcc2359ce197bd3d17867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:31 +0000
Subject: [PATCH 23/60] fix: BoundDispatcher: targetInterv=0 shrank bounds
 instead of using verletDist, remote bodies of MPI subdomains missed contacts

---
 pkg/common/Dispatching.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/common/Dispatching.cpp b/pkg/common/Dispatching.cpp
index 604c24a..2cf7763 100644
--- a/pkg/common/Dispatching.cpp
+++ b/pkg/common/Dispatching.cpp
@@ -39,7 +39,7 @@ void BoundDispatcher::processBody(const shared_ptr<Body>& b)
 		#endif
 		if(!b->bound) return; // the functor did not create new bound
 		Real& sweepLength = b->bound->sweepLength;
-		if (targetInterv>=0 and scene->iter>b->bound->lastUpdateIter) {//at iteration zero checking displacement makes no sense
+		if (targetInterv>0 and scene->iter>b->bound->lastUpdateIter) {//at iteration zero checking displacement makes no sense
 			Vector3r disp = b->state->pos-b->bound->refPos;
 			Real dist = max(std::abs(disp[0]),max(std::abs(disp[1]),std::abs(disp[2])));
 			if (dist){
-- 
2.43.0


From 4361ab615a2f13e84c5b60eb405a14cd69f86c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:31 +0000
Subject: [PATCH 24/60] fix: O.step() kept the GIL and deadlocked with python
 engines in a parallel group

---
 py/wrapper/yadeWrapper.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index bb9e21c..a822af5 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -6,6 +6,7 @@
 #include <boost/thread/thread.hpp>
 #include <boost/date_time/posix_time/posix_time.hpp>
 #include <boost/algorithm/string.hpp>
+#include <mutex>
 
 #include <lib/base/Logging.hpp>
 #include <lib/pyutil/gil.hpp>
@@ -644,7 +645,14 @@ class pyOmega{
 		if(doWait) wait();
 	}
 	void pause(){Py_BEGIN_ALLOW_THREADS; OMEGA.pause(); Py_END_ALLOW_THREADS; LOG_DEBUG("PAUSE!");}
-	void step() { if(OMEGA.isRunning()) throw runtime_error("Called O.step() while simulation is running."); OMEGA.getScene()->moveToNextTimeStep(); /* LOG_DEBUG("STEP!"); run(1); wait(); */ }
+	void step() {
+		if(OMEGA.isRunning()) throw runtime_error("Called O.step() while simulation is running.");
+		// release the GIL, like the background thread does: python engines which another thread of a ParallelEngine runs need it
+		struct AllowThreads { PyThreadState* ts; AllowThreads(): ts(PyEval_SaveThread()){} ~AllowThreads(){ PyEval_RestoreThread(ts); } } allowThreads;
+		static std::recursive_mutex stepMutex; // python threads cannot step concurrently (an engine may, though, call O.step())
+		std::lock_guard<std::recursive_mutex> lock(stepMutex);
+		OMEGA.getScene()->moveToNextTimeStep();
+	}
 	void wait(){
 		if(OMEGA.isRunning()){LOG_DEBUG("WAIT!");}
 		timespec t1,t2; t1.tv_sec=0; t1.tv_nsec=40000000; /* 40 ms */ Py_BEGIN_ALLOW_THREADS; while(OMEGA.isRunning()) nanosleep(&t1,&t2); Py_END_ALLOW_THREADS;
-- 
2.43.0


From b1be987edb71cecd682eb6a14f2e55bab4ac1666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:48 +0000
Subject: [PATCH 25/60] fix: O.sceneToString(), O.tmpToString() raised
 UnicodeDecodeError with python 3

---
 py/wrapper/yadeWrapper.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index a822af5..223f273 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -676,9 +676,11 @@ class pyOmega{
 		LOG_INFO("Saving :memory:"<<mark<<" to "<<filename);
 		yade::ObjectIO::writeFile(filename,[&](std::ostream& out){ out<<OMEGA.memSavedSimulations[":memory:"+mark]; out.flush(); });
 	}
-	string tmpToString(string mark){
+	// binary data: str in python 2, bytes in python 3 (where it cannot be decoded to str)
+	static py::object binaryString(const string& s){ return py::object(py::handle<>(PyBytes_FromStringAndSize(s.data(),s.size()))); }
+	py::object tmpToString(string mark){
 		if(OMEGA.memSavedSimulations.count(":memory:"+mark)==0) throw runtime_error("No memory-saved simulation named "+mark);
-		return OMEGA.memSavedSimulations[":memory:"+mark];
+		return binaryString(OMEGA.memSavedSimulations[":memory:"+mark]);
 	}
 
 	void reset(){Py_BEGIN_ALLOW_THREADS; OMEGA.stop(); Py_END_ALLOW_THREADS; OMEGA.reset(); }
@@ -694,11 +696,11 @@ class pyOmega{
 	shared_ptr<Scene> scene_get(){ return OMEGA.getScene(); }
 	void scene_set(const shared_ptr<Scene>& source){ reset(); assertScene(); OMEGA.setScene(source); }
 	
-	string sceneToString(){
+	py::object sceneToString(){
 		ostringstream oss;
 		yade::ObjectIO::save<decltype(OMEGA.getScene()),boost::archive::binary_oarchive>(oss,"scene",OMEGA.getScene());
 		oss.flush();
-		return oss.str();
+		return binaryString(oss.str());
 	}
 	void stringToScene(const string &sstring, string mark=""){
 		Py_BEGIN_ALLOW_THREADS; OMEGA.stop(); Py_END_ALLOW_THREADS;
-- 
2.43.0


From 5682e41f19f2fb54199107a81681d98fab87e7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:48 +0000
Subject: [PATCH 26/60] fix: mpy, mpf: states were not exchanged with
 USE_CPP_MPI=False (undefined name)

---
 py/mpf.py           | 2 +-
 py/mpf_bisection.py | 2 +-
 py/mpy.py           | 2 +-
 py/mpy_bisection.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/py/mpf.py b/py/mpf.py
index 0bcfc46..c76985b 100644
--- a/py/mpf.py
+++ b/py/mpf.py
@@ -363,7 +363,7 @@ def sendRecvStates():
 			comm.send(genUpdatedStates(O.subD.intersections[k]), dest=k, tag=_ID_STATE_SHAPE_) #should be non-blocking if n>2, else lock?
 		else:
 			if not USE_CPP_MPI:
-				reqs.append(comm.isend(subD.getStateValues(k), dest=k, tag=_ID_STATE_SHAPE_)) #should be non-blocking if n>2, else lock?
+				reqs.append(comm.isend(O.subD.getStateValues(k), dest=k, tag=_ID_STATE_SHAPE_)) #should be non-blocking if n>2, else lock?
 			else:
 				O.subD.mpiSendStates(k)
 		for r in reqs: r.wait() #empty if USE_CPP_MPI
diff --git a/py/mpf_bisection.py b/py/mpf_bisection.py
index 0e2053a..1ab6772 100644
--- a/py/mpf_bisection.py
+++ b/py/mpf_bisection.py
@@ -370,7 +370,7 @@ def sendRecvStates():
 			comm.send(genUpdatedStates(O.subD.intersections[k]), dest=k, tag=_ID_STATE_SHAPE_) #should be non-blocking if n>2, else lock?
 		else:
 			if not USE_CPP_MPI:
-				reqs.append(comm.isend(subD.getStateValues(k), dest=k, tag=_ID_STATE_SHAPE_)) #should be non-blocking if n>2, else lock?
+				reqs.append(comm.isend(O.subD.getStateValues(k), dest=k, tag=_ID_STATE_SHAPE_)) #should be non-blocking if n>2, else lock?
 			else:
 				O.subD.mpiSendStates(k)
 		for r in reqs: r.wait() #empty if USE_CPP_MPI
diff --git a/py/mpy.py b/py/mpy.py
index 0f278f7..a76dd43 100644
--- a/py/mpy.py
+++ b/py/mpy.py
@@ -320,7 +320,7 @@ def sendRecvStates():
 			comm.send(genUpdatedStates(O.subD.intersections[k]), dest=k, tag=_ID_STATE_SHAPE_) #should be non-blocking if n>2, else lock?
 		else:
 			if not USE_CPP_MPI:
-				reqs.append(comm.isend(subD.getStateValues(k), dest=k, tag=_ID_STATE_SHAPE_)) #should be non-blocking if n>2, else lock?
+				reqs.append(comm.isend(O.subD.getStateValues(k), dest=k, tag=_ID_STATE_SHAPE_)) #should be non-blocking if n>2, else lock?
 			else:
 				O.subD.mpiSendStates(k)
 		for r in reqs: r.wait() #empty if USE_CPP_MPI
diff --git a/py/mpy_bisection.py b/py/mpy_bisection.py
index afcfa93..33459d6 100644
--- a/py/mpy_bisection.py
+++ b/py/mpy_bisection.py
@@ -329,7 +329,7 @@ def sendRecvStates():
 			comm.send(genUpdatedStates(O.subD.intersections[k]), dest=k, tag=_ID_STATE_SHAPE_) #should be non-blocking if n>2, else lock?
 		else:
 			if not USE_CPP_MPI:
-				reqs.append(comm.isend(subD.getStateValues(k), dest=k, tag=_ID_STATE_SHAPE_)) #should be non-blocking if n>2, else lock?
+				reqs.append(comm.isend(O.subD.getStateValues(k), dest=k, tag=_ID_STATE_SHAPE_)) #should be non-blocking if n>2, else lock?
 			else:
 				O.subD.mpiSendStates(k)
 		for r in reqs: r.wait() #empty if USE_CPP_MPI
-- 
2.43.0


From dcac11eb4139306c21fd402881657813461cae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:48 +0000
Subject: [PATCH 27/60] fix: mpy, mpf: subdomains which do not touch the
 master's bodies sent forces that nobody received (deadlock, or stale forces
 later)

---
 py/mpf.py           | 1 +
 py/mpf_bisection.py | 1 +
 py/mpy.py           | 1 +
 py/mpy_bisection.py | 1 +
 4 files changed, 4 insertions(+)

diff --git a/py/mpf.py b/py/mpf.py
index c76985b..ad459d6 100644
--- a/py/mpf.py
+++ b/py/mpf.py
@@ -396,6 +396,7 @@ def isendRecvForces():
 	O.freqs=[] #keep that one defined even if empty, it is accessed in other functions
 	if ACCUMULATE_FORCES:
 		if rank!=0:
+			if len(O.subD.mirrorIntersections[0])==0: return #master only expects forces from the subdomains it intersects
 			forces0=[[id,O.forces.f(id),O.forces.t(id)] for id in  O.subD.mirrorIntersections[0]]
 			#wprint ("worker "+str(rank)+": sending "+str(len(forces0))+" "+str("forces to 0 "))
 			#O.freqs.append(comm.isend(forces0, dest=0, tag=_FORCES_))
diff --git a/py/mpf_bisection.py b/py/mpf_bisection.py
index 1ab6772..9df5165 100644
--- a/py/mpf_bisection.py
+++ b/py/mpf_bisection.py
@@ -403,6 +403,7 @@ def isendRecvForces():
 	O.freqs=[] #keep that one defined even if empty, it is accessed in other functions
 	if ACCUMULATE_FORCES:
 		if rank!=0:
+			if len(O.subD.mirrorIntersections[0])==0: return #master only expects forces from the subdomains it intersects
 			forces0=[[id,O.forces.f(id),O.forces.t(id)] for id in  O.subD.mirrorIntersections[0]]
 			#wprint ("worker "+str(rank)+": sending "+str(len(forces0))+" "+str("forces to 0 "))
 			#O.freqs.append(comm.isend(forces0, dest=0, tag=_FORCES_))
diff --git a/py/mpy.py b/py/mpy.py
index a76dd43..d4000ae 100644
--- a/py/mpy.py
+++ b/py/mpy.py
@@ -353,6 +353,7 @@ def isendRecvForces():
 	O.freqs=[] #keep that one defined even if empty, it is accessed in other functions
 	if ACCUMULATE_FORCES:
 		if rank!=0:
+			if len(O.subD.mirrorIntersections[0])==0: return #master only expects forces from the subdomains it intersects
 			forces0=[[id,O.forces.f(id),O.forces.t(id)] for id in  O.subD.mirrorIntersections[0]]
 			#wprint ("worker "+str(rank)+": sending "+str(len(forces0))+" "+str("forces to 0 "))
 			#O.freqs.append(comm.isend(forces0, dest=0, tag=_FORCES_))
diff --git a/py/mpy_bisection.py b/py/mpy_bisection.py
index 33459d6..fe86463 100644
--- a/py/mpy_bisection.py
+++ b/py/mpy_bisection.py
@@ -362,6 +362,7 @@ def isendRecvForces():
 	O.freqs=[] #keep that one defined even if empty, it is accessed in other functions
 	if ACCUMULATE_FORCES:
 		if rank!=0:
+			if len(O.subD.mirrorIntersections[0])==0: return #master only expects forces from the subdomains it intersects
 			forces0=[[id,O.forces.f(id),O.forces.t(id)] for id in  O.subD.mirrorIntersections[0]]
 			#wprint ("worker "+str(rank)+": sending "+str(len(forces0))+" "+str("forces to 0 "))
 			#O.freqs.append(comm.isend(forces0, dest=0, tag=_FORCES_))
-- 
2.43.0


From 5038eaef8d2f55475035bcf27f80d25bfa4e26e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:48 +0000
Subject: [PATCH 28/60] fix: mpy, mpf: mpirun(n) after mpirun(n,True) did not
 stop at collider updates any more

---
 py/mpf.py           | 1 +
 py/mpf_bisection.py | 1 +
 py/mpy.py           | 1 +
 py/mpy_bisection.py | 1 +
 4 files changed, 4 insertions(+)

diff --git a/py/mpf.py b/py/mpf.py
index ad459d6..07e732d 100644
--- a/py/mpf.py
+++ b/py/mpf.py
@@ -642,6 +642,7 @@ def mpirun(nSteps,mergeSplit=False):
 	if YADE_TIMING:
 		O.timingEnabled=True
 	if not mergeSplit: #run until collider is activated then stop		
+		collisionChecker.dead=False
 		O.run(nSteps,True)
 	else: #merge/split for each collider update
 		collisionChecker.dead=True
diff --git a/py/mpf_bisection.py b/py/mpf_bisection.py
index 9df5165..f645b83 100644
--- a/py/mpf_bisection.py
+++ b/py/mpf_bisection.py
@@ -686,6 +686,7 @@ def mpirun(nSteps,mergeSplit=False):
 	if YADE_TIMING:
 		O.timingEnabled=True
 	if not mergeSplit: #run until collider is activated then stop		
+		collisionChecker.dead=False
 		O.run(nSteps,True)
 	else: #merge/split for each collider update
 		collisionChecker.dead=True
diff --git a/py/mpy.py b/py/mpy.py
index d4000ae..a517f3c 100644
--- a/py/mpy.py
+++ b/py/mpy.py
@@ -555,6 +555,7 @@ def mpirun(nSteps,mergeSplit=False):
 	if YADE_TIMING:
 		O.timingEnabled=True
 	if not mergeSplit: #run until collider is activated then stop		
+		collisionChecker.dead=False
 		O.run(nSteps,True)
 	else: #merge/split for each collider update
 		collisionChecker.dead=True
diff --git a/py/mpy_bisection.py b/py/mpy_bisection.py
index fe86463..7545e78 100644
--- a/py/mpy_bisection.py
+++ b/py/mpy_bisection.py
@@ -615,6 +615,7 @@ def mpirun(nSteps,mergeSplit=False):
 	if YADE_TIMING:
 		O.timingEnabled=True
 	if not mergeSplit: #run until collider is activated then stop		
+		collisionChecker.dead=False
 		O.run(nSteps,True)
 	else: #merge/split for each collider update
 		collisionChecker.dead=True
-- 
2.43.0


From 8e2fbb7443e2cba07ce9b8ed5e78834f8d0a1606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:49 +0000
Subject: [PATCH 29/60] fix: mpy, mpf: a collider update due at the end of
 mpirun(n,True) was not done by the next one, contacts between subdomains were
 missed

---
 py/mpf.py           | 3 +++
 py/mpf_bisection.py | 3 +++
 py/mpy.py           | 3 +++
 py/mpy_bisection.py | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/py/mpf.py b/py/mpf.py
index 07e732d..5920863 100644
--- a/py/mpf.py
+++ b/py/mpf.py
@@ -639,6 +639,9 @@ def mpirun(nSteps,mergeSplit=False):
 		#yappi.start(builtins=True)
 	initStep = O.iter
 	if not O.splitted: splitScene()
+	elif mergeSplit and checkColliderActivated(): #triggered by the last step of the previous run
+		mergeScene()
+		splitScene()
 	if YADE_TIMING:
 		O.timingEnabled=True
 	if not mergeSplit: #run until collider is activated then stop		
diff --git a/py/mpf_bisection.py b/py/mpf_bisection.py
index f645b83..388690b 100644
--- a/py/mpf_bisection.py
+++ b/py/mpf_bisection.py
@@ -683,6 +683,9 @@ def mpirun(nSteps,mergeSplit=False):
 		#yappi.start(builtins=True)
 	initStep = O.iter
 	if not O.splitted: splitScene()
+	elif mergeSplit and checkColliderActivated(): #triggered by the last step of the previous run
+		mergeScene()
+		splitScene()
 	if YADE_TIMING:
 		O.timingEnabled=True
 	if not mergeSplit: #run until collider is activated then stop		
diff --git a/py/mpy.py b/py/mpy.py
index a517f3c..b81bf08 100644
--- a/py/mpy.py
+++ b/py/mpy.py
@@ -552,6 +552,9 @@ def splitScene():
 def mpirun(nSteps,mergeSplit=False):
 	initStep = O.iter
 	if not O.splitted: splitScene()
+	elif mergeSplit and checkColliderActivated(): #triggered by the last step of the previous run
+		mergeScene()
+		splitScene()
 	if YADE_TIMING:
 		O.timingEnabled=True
 	if not mergeSplit: #run until collider is activated then stop		
diff --git a/py/mpy_bisection.py b/py/mpy_bisection.py
index 7545e78..748ab79 100644
--- a/py/mpy_bisection.py
+++ b/py/mpy_bisection.py
@@ -612,6 +612,9 @@ def splitScene():
 def mpirun(nSteps,mergeSplit=False):
 	initStep = O.iter
 	if not O.splitted: splitScene()
+	elif mergeSplit and checkColliderActivated(): #triggered by the last step of the previous run
+		mergeScene()
+		splitScene()
 	if YADE_TIMING:
 		O.timingEnabled=True
 	if not mergeSplit: #run until collider is activated then stop		
-- 
2.43.0


From 9926d4b07c9001d5ce9f816121fd0325d3d40205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:49 +0000
Subject: [PATCH 30/60] fix: mpf: contacts with remote bodies could be missed
 when the scene was split again

---
 py/mpf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/mpf.py b/py/mpf.py
index 5920863..0338399 100644
--- a/py/mpf.py
+++ b/py/mpf.py
@@ -610,7 +610,7 @@ def splitScene():
 					for c in O.bodies[id].shape.getConnections():
 						if c.bounded: connected = True
 				if not connected: O.bodies.erase(id)
-	#collider.doSort = True
+	collider.doSort = True #bodies bound anew (remote bodies) may overlap without any inversion of their bounds
 	collider.__call__()
 				
 	idx = O.engines.index(utils.typedEngine("NewtonIntegrator"))
-- 
2.43.0


From 3d4c81c8ea8717ed347921f58904785c00965411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:49 +0000
Subject: [PATCH 31/60] fix: mpf_bisection: undefined names in splitScene and
 in the collision checker

---
 py/mpf_bisection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/mpf_bisection.py b/py/mpf_bisection.py
index 388690b..988bec1 100644
--- a/py/mpf_bisection.py
+++ b/py/mpf_bisection.py
@@ -53,7 +53,7 @@ SEND_SHAPES=False #if false only bodies' states are communicated between threads
 ERASE_REMOTE = True #erase bodies not interacting wit a given subdomain? else keep dead clones of all bodies in each scene
 OPTIMIZE_COM=True
 USE_CPP_MPI=True and OPTIMIZE_COM
-BISECTION_DEOMPOSITION=True
+BISECTION_DECOMPOSITION=True
 NDIM=2
 YADE_TIMING=True #report timing.stats()?
 REASSIGN_SUBDOMAINS=False
@@ -668,7 +668,7 @@ def splitScene():
 		
 		# append engine waiting until forces are effectively sent to master
 		O.engines=O.engines+[PyRunner(iterPeriod=1,initRun=True,command="sys.modules['yade.mpf_bisection'].waitForces()",label="waitForcesRunner")]
-		O.engines=O.engines+[PyRunner(iterPeriod=1,initRun=True,command="if sys.modules['yade.mpfx'].checkColliderActivated(): O.pause()",label="collisionChecker")]
+		O.engines=O.engines+[PyRunner(iterPeriod=1,initRun=True,command="if sys.modules['yade.mpf_bisection'].checkColliderActivated(): O.pause()",label="collisionChecker")]
 	else:
 		sendRecvStatesRunner.dead = isendRecvForcesRunner.dead = waitForcesRunner.dead = False
 	
-- 
2.43.0


From 00b480c98532a671b702aff936baf6bf1f7aef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:55 +0000
Subject: [PATCH 32/60] fix: InteractionContainer::eraseNonReal skipped
 interactions or crashed (it erased from the container it was iterating over)

---
 core/InteractionContainer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 829a6c5..3979220 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -120,7 +120,11 @@ void InteractionContainer::requestErase(Interaction* I){
 }
 
 void InteractionContainer::eraseNonReal(){
-	FOREACH(const shared_ptr<Interaction>& i, *this) if(!i->isReal()) this->erase(i->getId1(),i->getId2(),i->linIx);
+	// erase() moves the last interaction to the place of the erased one
+	for(size_t linPos=0; linPos<currSize;){
+		const shared_ptr<Interaction> i=linIntrs[linPos];
+		if(i->isReal() || !erase(i->getId1(),i->getId2(),linPos)) linPos++;
+	}
 }
 
 // compare interaction based on their first id
-- 
2.43.0


From 95fc08e1dccb8c253053f681ef7fe73653c2e68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:55 +0000
Subject: [PATCH 33/60] fix: O.bodies.erase, O.bodies.insertAtId,
 O.interactions.has: crash with ids which are out of range or of erased bodies

---
 core/BodyContainer.cpp        |  4 ++--
 core/InteractionContainer.cpp |  2 +-
 core/InteractionContainer.hpp | 14 +++++---------
 3 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index 3de4120..d2e9494 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -28,7 +28,7 @@ Body::id_t BodyContainer::insert(shared_ptr<Body> b){
 }
 
 Body::id_t BodyContainer::insertAtId(shared_ptr<Body> b, Body::id_t candidate){
-	if(body[candidate] or candidate>=size()) {LOG_ERROR("invalid candidate id"); return -1;}
+	if(candidate<0 or (size_t)candidate>=size() or body[candidate]) {LOG_ERROR("invalid candidate id"); return -1;}
 	const shared_ptr<Scene>& scene=Omega::instance().getScene(); 
 	b->iterBorn=scene->iter;
 	b->timeBorn=scene->time;
@@ -39,7 +39,7 @@ Body::id_t BodyContainer::insertAtId(shared_ptr<Body> b, Body::id_t candidate){
 }
 
 bool BodyContainer::erase(Body::id_t id, bool eraseClumpMembers){//default is false (as before)
-	if(!body[id]) return false;
+	if(id<0 or (size_t)id>=body.size() or !body[id]) return false;
 	const shared_ptr<Body>& b=Body::byId(id);
 	if ((b) and (b->isClumpMember())) {
 		const shared_ptr<Body> clumpBody=Body::byId(b->clumpId);
diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 3979220..5070292 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -92,7 +92,7 @@ const shared_ptr<Interaction>& InteractionContainer::find(Body::id_t id1,Body::i
 	assert(bodies);
 	if (id1>id2) swap(id1,id2); 
 	// those checks could be perhaps asserts, but pyInteractionContainer has no access to the body container...
-	if(id2>=(Body::id_t)bodies->size()){ empty=shared_ptr<Interaction>(); return empty; }
+	if(id1<0 || id2>=(Body::id_t)bodies->size()){ empty=shared_ptr<Interaction>(); return empty; }
 	const shared_ptr<Body>& b1((*bodies)[id1]);
 	if(!b1) { empty=shared_ptr<Interaction>(); return empty; }
 	Body::MapId2IntrT::iterator I(b1->intrs.find(id2));
diff --git a/core/InteractionContainer.hpp b/core/InteractionContainer.hpp
index 14843ed..0c73b84 100644
--- a/core/InteractionContainer.hpp
+++ b/core/InteractionContainer.hpp
@@ -74,15 +74,11 @@ class InteractionContainer: public Serializable{
 		const shared_ptr<Interaction>& find(Body::id_t id1,Body::id_t id2);
 		inline bool found(const Body::id_t& id1,const Body::id_t& id2){
 			assert(bodies);
-			if(id2>=(Body::id_t)bodies->size() or (id1 == id2)) {
-				return false;
-			} else {
-				if (id1>id2) {
-					return (*bodies)[id2]->intrs.count(id1);
-				} else {
-					return (*bodies)[id1]->intrs.count(id2);
-				}
-			}
+			const Body::id_t& lo=(id1<id2 ? id1 : id2);
+			const Body::id_t& hi=(id1<id2 ? id2 : id1);
+			if(lo<0 or hi>=(Body::id_t)bodies->size() or lo==hi) return false;
+			const shared_ptr<Body>& b=(*bodies)[lo];
+			return b and b->intrs.count(hi);
 		}
 		// index access
 		shared_ptr<Interaction>& operator[](size_t id){return linIntrs[id];}
-- 
2.43.0


From 621538218299c468c01fb86a53cc966a348ad516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:38 +0000
Subject: [PATCH 34/60] fix: O.bodies.insertAtId: contacts of the new body were
 missed or inconsistent when an erased body with this id had contacts

---
 core/BodyContainer.cpp        | 6 ++++++
 core/InteractionContainer.cpp | 9 +++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/BodyContainer.cpp b/core/BodyContainer.cpp
index d2e9494..8852944 100644
--- a/core/BodyContainer.cpp
+++ b/core/BodyContainer.cpp
@@ -34,6 +34,12 @@ Body::id_t BodyContainer::insertAtId(shared_ptr<Body> b, Body::id_t candidate){
 	b->timeBorn=scene->time;
 	b->id=candidate;
 	scene->doSort = true; 
+	// interactions of the body which had this id before may still be there as potential ones, they do not belong to the new body
+	InteractionContainer& intrs=*scene->interactions;
+	for(size_t n=0; n<intrs.size();){
+		const shared_ptr<Interaction> I=intrs[n];
+		if((I->getId1()!=candidate && I->getId2()!=candidate) || !intrs.erase(I->getId1(),I->getId2(),n)) n++;
+	}
   body[b->id] = b; 
 	return b->id;
 }
diff --git a/core/InteractionContainer.cpp b/core/InteractionContainer.cpp
index 5070292..64090bd 100644
--- a/core/InteractionContainer.cpp
+++ b/core/InteractionContainer.cpp
@@ -58,8 +58,13 @@ bool InteractionContainer::erase(Body::id_t id1,Body::id_t id2, int linPos){
 	const shared_ptr<Body>& b1((*bodies)[id1]);
 	const shared_ptr<Body>& b2((*bodies)[id2]);
 	int linIx=-1;
-	if(!b1) linIx=linPos;
-	else {
+	if(!b1) {
+		linIx=linPos;
+		if(b2 && linPos>=0) { // the other body must forget this interaction as well
+			Body::MapId2IntrT::iterator I2(b2->intrs.find(id1));
+			if(I2!=b2->intrs.end() && I2->second==linIntrs[linPos]) b2->intrs.erase(I2);
+		}
+	} else {
 		Body::MapId2IntrT::iterator I(b1->intrs.find(id2));
 		if(I==b1->intrs.end()) linIx=linPos;
 		else {
-- 
2.43.0


From 166605183506ac5047a9ce4c5293f0ade5fc9dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:38 +0000
Subject: [PATCH 35/60] fix: SpatialQuickSortCollider: crash or false contacts
 after a body was erased

---
 pkg/common/SpatialQuickSortCollider.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/common/SpatialQuickSortCollider.cpp b/pkg/common/SpatialQuickSortCollider.cpp
index 3710377..c940775 100644
--- a/pkg/common/SpatialQuickSortCollider.cpp
+++ b/pkg/common/SpatialQuickSortCollider.cpp
@@ -38,7 +38,7 @@ void SpatialQuickSortCollider::action()
 	Vector3r min,max;
 	int i=0;
 	FOREACH(const shared_ptr<Body>& b, *bodies){
-		if(!b->bound) continue;
+		if(!b || !b->bound) continue;
 		min = b->bound->min;
 		max = b->bound->max;
 		rank[i]->id = b->getId();
@@ -46,11 +46,12 @@ void SpatialQuickSortCollider::action()
 		rank[i]->max = max;
 		i++;
 	}
+	nbElements=i; // the rest of rank is of no meaning if there are bodies which were erased or have no bound
 	
 	const shared_ptr<InteractionContainer>& interactions=scene->interactions;
 	scene->interactions->iterColliderLastRun=scene->iter;
 
-	sort(rank.begin(), rank.end(), xBoundComparator()); // sorting along X
+	sort(rank.begin(), rank.begin()+nbElements, xBoundComparator()); // sorting along X
 
 	int id,id2; size_t j;
 	shared_ptr<Interaction> interaction;
-- 
2.43.0


From bf9ccfd80d2c845e1ecb103569f17a1bfaaec5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:03 +0000
Subject: [PATCH 36/60] fix: createInteraction crashed in a simulation which
 was loaded and did not run yet

---
 pkg/common/Dispatching.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/common/Dispatching.cpp b/pkg/common/Dispatching.cpp
index 2cf7763..ec723c9 100644
--- a/pkg/common/Dispatching.cpp
+++ b/pkg/common/Dispatching.cpp
@@ -139,6 +139,7 @@ void IGeomDispatcher::action(){
 
 
 void IPhysDispatcher::explicitAction(shared_ptr<Material>& pp1, shared_ptr<Material>& pp2, shared_ptr<Interaction>& I){
+	scene=Omega::instance().getScene().get(); // to make sure if called from outside of the loop
 	updateScenePtr();
 	if(!I->geom) throw invalid_argument(string(__FILE__)+": explicitAction received interaction without geom.");
 	if(!I->functorCache.phys){
-- 
2.43.0


From bc4728cecf79eeadcf901d5dd17ddaee03640ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:55 +0000
Subject: [PATCH 37/60] fix: Clump::updateProperties: the principal axes were
 wrong for about half of clumps (left-handed eigenvectors)

---
 core/Clump.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index 8cb5699..a22e1dc 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -216,7 +216,8 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 	LOG_TRACE("Ic_orientG=\n"<<Ic_orientG);
 	Ic_orientG(1,0)=Ic_orientG(0,1); Ic_orientG(2,0)=Ic_orientG(0,2); Ic_orientG(2,1)=Ic_orientG(1,2); // symmetrize
 	Eigen::SelfAdjointEigenSolver<Matrix3r> decomposed(Ic_orientG);
-	const Matrix3r& R_g2c(decomposed.eigenvectors());
+	Matrix3r R_g2c(decomposed.eigenvectors());
+	if(R_g2c.determinant()<0) R_g2c.col(0)*=-1; // eigenvectors may be left-handed, that would not be a rotation
 	// has NaNs for identity matrix??
 	LOG_TRACE("R_g2c=\n"<<R_g2c);
 	// set quaternion from rotation matrix
-- 
2.43.0


From d3d1396dfc5c4f4d7860305e64ea1cba49b82eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:55 +0000
Subject: [PATCH 38/60] fix: O.bodies.addToClump: members of a clump added to
 another one became standalone bodies

---
 core/Clump.cpp             | 1 +
 py/wrapper/yadeWrapper.cpp | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index a22e1dc..daebe29 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -33,6 +33,7 @@ void Clump::add(const shared_ptr<Body>& clumpBody, const shared_ptr<Body>& subBo
 			clump->members[memberId]=Se3r();// meaningful values will be put in by Clump::updateProperties
 			//LOG_DEBUG("Added body #"<<memberId->id<<" to clump #"<<clumpBody->id);
 		}
+		subClump->members.clear(); // they are not its members any more; erasing it would make them standalone
 		//LOG_DEBUG("Clump #"<<subClump->id<<" will be erased.");// see addToClump() in yadeWrapper.cpp
 	}
 	else{	// subBody must be a standalone!
diff --git a/py/wrapper/yadeWrapper.cpp b/py/wrapper/yadeWrapper.cpp
index 223f273..7179f7c 100644
--- a/py/wrapper/yadeWrapper.cpp
+++ b/py/wrapper/yadeWrapper.cpp
@@ -186,14 +186,14 @@ class pyBodyContainer{
 		FOREACH(Body::id_t bid, bids) {
 			shared_ptr<Body> bp = Body::byId(bid,scene);		// get body pointer
 			if (bp->isClump()){
-				if (bp == clp) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" and clump "+boost::lexical_cast<string>(cid)+" are the same bodies. Body was not added.").c_str()); return;}
+				if (bp == clp) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" and clump "+boost::lexical_cast<string>(cid)+" are the same bodies. Body was not added.").c_str()); continue;}
 				Clump::add(clp,bp);//add clump bid to clump cid
 				eraseList.push_back(bid);
 			}
 			else if (bp->isClumpMember()){
 				Body::id_t bpClumpId = bp->clumpId;
 				shared_ptr<Body> bpClumpPointer = Body::byId(bpClumpId,scene);
-				if (bpClumpPointer == clp) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" is already a clump member of clump "+boost::lexical_cast<string>(cid)+". Body was not added.").c_str()); return;} 
+				if (bpClumpPointer == clp) {PyErr_Warn(PyExc_UserWarning,("Warning: Body "+boost::lexical_cast<string>(bid)+" is already a clump member of clump "+boost::lexical_cast<string>(cid)+". Body was not added.").c_str()); continue;} 
 				Clump::add(clp,bpClumpPointer);//add clump bpClumpId to clump cid
 				eraseList.push_back(bpClumpId);
 			}
-- 
2.43.0


From aa3ec6afb3d4c1afc533f1aca85cda3584b6b705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:56 +0000
Subject: [PATCH 39/60] fix: Clump::updateProperties: a clump which was set to
 rest went on rotating (angular momentum was not reset)

---
 core/Clump.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/Clump.cpp b/core/Clump.cpp
index daebe29..1bca754 100644
--- a/core/Clump.cpp
+++ b/core/Clump.cpp
@@ -107,7 +107,7 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 		state->inertia=subState->inertia;	
 		state->mass=subState->mass;
 		state->vel=Vector3r::Zero();
-		state->angVel=Vector3r::Zero();
+		state->angVel=state->angMom=Vector3r::Zero();
 		return;
 	}
 	//check for intersections:
@@ -227,7 +227,7 @@ void Clump::updateProperties(const shared_ptr<Body>& clumpBody, unsigned int dis
 	state->mass=M;
 	
 	// TODO: these might be calculated from members... but complicated... - someone needs that?!
-	state->vel=state->angVel=Vector3r::Zero();
+	state->vel=state->angVel=state->angMom=Vector3r::Zero();
 	clumpBody->setAspherical(state->inertia[0]!=state->inertia[1] || state->inertia[0]!=state->inertia[2]);
 
 	// update subBodySe3s; subtract clump orientation (=apply its inverse first) to subBody's orientation
@@ -263,7 +263,7 @@ void Clump::updatePropertiesNonSpherical(const shared_ptr<Body>& clumpBody, bool
 		state->inertia=subState->inertia;	
 		state->mass=subState->mass;
 		state->vel=Vector3r::Zero();
-		state->angVel=Vector3r::Zero();
+		state->angVel=state->angMom=Vector3r::Zero();
 		return;
 	}
 
@@ -330,7 +330,7 @@ void Clump::updatePropertiesNonSpherical(const shared_ptr<Body>& clumpBody, bool
 	//TRWM3VEC(state->inertia);
 
 	// TODO: these might be calculated from members... but complicated... - someone needs that?!
-	state->vel=state->angVel=Vector3r::Zero();
+	state->vel=state->angVel=state->angMom=Vector3r::Zero();
 
 	clumpBody->setAspherical(state->inertia[0]!=state->inertia[1] || state->inertia[0]!=state->inertia[2]);
 
@@ -367,7 +367,7 @@ void Clump::updatePropertiesNonSpherical(const shared_ptr<Body>& clumpBody, bool
 		state->inertia=subState->inertia;	
 		state->mass=subState->mass;
 		state->vel=Vector3r::Zero();
-		state->angVel=Vector3r::Zero();
+		state->angVel=state->angMom=Vector3r::Zero();
 		return;
 	}
 
@@ -434,7 +434,7 @@ void Clump::updatePropertiesNonSpherical(const shared_ptr<Body>& clumpBody, bool
 	//TRWM3VEC(state->inertia);
 
 	// TODO: these might be calculated from members... but complicated... - someone needs that?!
-	state->vel=state->angVel=Vector3r::Zero();
+	state->vel=state->angVel=state->angMom=Vector3r::Zero();
 
 	clumpBody->setAspherical(state->inertia[0]!=state->inertia[1] || state->inertia[0]!=state->inertia[2]);
 
-- 
2.43.0


From acd47751f29b69b7f9be5d00764c09482e6b07df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:19 +0000
Subject: [PATCH 40/60] fix: NewtonIntegrator::updateEnergy: the kinetic energy
 of a rotated aspherical body was wrong

The inertia tensor was rotated from the global to the local frame instead of the other way round (Shop::kineticEnergy has it right).
---
 pkg/dem/NewtonIntegrator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dem/NewtonIntegrator.cpp b/pkg/dem/NewtonIntegrator.cpp
index ab1aaa2..e6a3aee 100644
--- a/pkg/dem/NewtonIntegrator.cpp
+++ b/pkg/dem/NewtonIntegrator.cpp
@@ -52,7 +52,7 @@ void NewtonIntegrator::updateEnergy(const shared_ptr<Body>& b, const State* stat
 	if(b->isAspherical()){
 		Matrix3r mI; mI<<state->inertia[0],0,0, 0,state->inertia[1],0, 0,0,state->inertia[2];
 		Matrix3r T(state->ori);
-		Erot=.5*b->state->angVel.transpose().dot((T.transpose()*mI*T)*b->state->angVel);
+		Erot=.5*b->state->angVel.transpose().dot((T*mI*T.transpose())*b->state->angVel);
 	} else { Erot=0.5*state->angVel.dot(state->inertia.cwiseProduct(state->angVel)); }
 	if(!kinSplit) scene->energy->add(Etrans+Erot,"kinetic",kinEnergyIx,/*non-incremental*/true);
 	else{ scene->energy->add(Etrans,"kinTrans",kinEnergyTransIx,true); scene->energy->add(Erot,"kinRot",kinEnergyRotIx,true); }
-- 
2.43.0


From efd973185a6f6150361952bdca70ceedbf07f899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:54 +0000
Subject: [PATCH 41/60] fix: yade-batch: a job could be started twice

A job was only marked as running by its own thread; if that thread did not get that far within the 0.5 s until the main loop looks for the next job (busy machine), the job was still pending and was started again, and its cores were given to other jobs.
---
 core/main/yade-batch.in | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/main/yade-batch.in b/core/main/yade-batch.in
index db2cbda..2de8fe5 100755
--- a/core/main/yade-batch.in
+++ b/core/main/yade-batch.in
@@ -265,8 +265,6 @@ def runHttpStatsServer():
 
 
 def runJob(job):
-	job.status='RUNNING'
-	job.started=time.time();
 	print '#%d (%s%s%s) started on %s'%(job.num,job.id,'' if job.nCores==1 else '/%d'%job.nCores,(' ['+','.join([str(c) for c in job.cores])+']') if job.cores else '',time.asctime())
 	#print '#%d cores',%(job.num,job.cores)
 	if job.cores:
@@ -313,6 +311,7 @@ def runJobs(jobs,numCores):
 					# only set cores if CPU affinity is desired; otherwise, just numer of cores is used
 					if j.affinity: j.cores=list(freeCores)[0:j.nCores] # take required number of free cores
 				# if overloaded, do not assign cores directly
+				j.started=time.time(); j.status='RUNNING' # here and not in the thread, which might not have got that far when we look for the next job
 				thread.start_new_thread(runJob,(j,))
 				break
 		time.sleep(.5)
-- 
2.43.0


From a58b0b448015c2195bfc6970a3e320ce7735ca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:54 +0000
Subject: [PATCH 42/60] fix: yade-batch: never ended if a job could not write
 its log

If the shell cannot create the log file (such as in a directory which does not exist), the job fails, and looking for the normal exit mark in its log raised an exception before the job was marked as done.
---
 core/main/yade-batch.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/main/yade-batch.in b/core/main/yade-batch.in
index 2de8fe5..7e27170 100755
--- a/core/main/yade-batch.in
+++ b/core/main/yade-batch.in
@@ -274,7 +274,7 @@ def runJob(job):
 	else:
 		job.command=job.command.replace('[threadspec]','--threads=%d'%job.nCores); job.hrefCommand=job.hrefCommand.replace('[threadspec]','--threads=%d'%job.nCores)
 	job.exitStatus=os.system(job.command)
-	if job.exitStatus!=0 and len([l for l in open(job.log) if l.startswith('Yade: normal exit.')])>0: job.exitStatus=0
+	if job.exitStatus!=0 and os.path.exists(job.log) and len([l for l in open(job.log) if l.startswith('Yade: normal exit.')])>0: job.exitStatus=0
 	job.finished=time.time()
 	dt=job.finished-job.started;
 	job.durationSec=dt
-- 
2.43.0


From e62bdb1afc325ac541d084f7486aa2e7d66d7c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:54 +0000
Subject: [PATCH 43/60] fix: yade-batch: columns which set environment
 variables raised NameError

---
 core/main/yade-batch.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/main/yade-batch.in b/core/main/yade-batch.in
index 7e27170..3178a9b 100755
--- a/core/main/yade-batch.in
+++ b/core/main/yade-batch.in
@@ -452,7 +452,7 @@ for i,l in enumerate(useLines):
 		elif col=='!SCRIPT': script=val
 		elif col=='!AFFINITY': jobAffinity=eval(val)
 		elif col=='!COUNT': jobCount=eval(val)
-		else: envVars+=['%s=%s'%(head[1:],values[l][col])]
+		else: envVars+=['%s=%s'%(col[1:],val)]
 	if not script:
 		raise ValueError('When only batch table is given without script to run, it must contain !SCRIPT column with simulation to be run.')
 	logFile=logFormat.replace('$',script).replace('%',str(l)).replace('@',params[l]['description'])
-- 
2.43.0


From d791a4e40ab811e809c579215f553b8c5bdc9495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:54 +0000
Subject: [PATCH 44/60] fix: yade-batch --lines: a range of one line gave a
 wrong line or IndexError

---
 core/main/yade-batch.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/main/yade-batch.in b/core/main/yade-batch.in
index 3178a9b..f55929f 100755
--- a/core/main/yade-batch.in
+++ b/core/main/yade-batch.in
@@ -412,7 +412,7 @@ if table:
 		def numRange2List(s):
 			ret=[]
 			for l in s.split(','):
-				if "-" in l: ret+=range(*[int(s) for s in l.split('-')]); ret+=[ret[-1]+1]
+				if "-" in l: first,last=[int(s) for s in l.split('-')]; ret+=range(first,last+1)
 				else: ret+=[int(l)]
 			return ret
 		useLines0=numRange2List(lineList)
-- 
2.43.0


From c5b6e18660cc3984ba67fce205395a66b59092aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:54 +0000
Subject: [PATCH 45/60] fix: yade-batch: the !COUNT column was ignored

---
 core/main/yade-batch.in | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/main/yade-batch.in b/core/main/yade-batch.in
index f55929f..4efec84 100755
--- a/core/main/yade-batch.in
+++ b/core/main/yade-batch.in
@@ -470,9 +470,9 @@ for i,l in enumerate(useLines):
 			logging.warning('Job #%d will be uselessly run with %d threads (compiled without OpenMP support).'%(i,nCores))
 	executables.add(jobExecutable)
 	# compose command-line: build the hyper-linked variant, then strip HTML tags (ugly, but ensures consistency)
-	for j in range(0,opts.timing if opts.timing>0 else 1):
+	for j in range(0,jobCount if jobCount>0 else 1):
 		jobNum=len(jobs)
-		logFile2=logFile+('.%d'%j if opts.timing>0 else '')
+		logFile2=logFile+('.%d'%j if jobCount>0 else '')
 		# append numbers to log file if it already exists, to prevent overwriting
 		if logFile2 in logFiles:
 			i=0;
@@ -488,7 +488,7 @@ for i,l in enumerate(useLines):
 		fullCmd=re.sub('(<a href="[^">]+">|</a>)','',hrefCmd)
 		desc=params[l]['description']
 		if '!SCRIPT' in params[l].keys(): desc=script+'.'+desc # prepend filename if script is specified explicitly
-		if opts.timing>0: desc+='[%d]'%j
+		if jobCount>0: desc+='[%d]'%j
 		jobs.append(JobInfo(jobNum,desc,fullCmd,hrefCmd,logFile2,nCores,script=script,table=table,lineNo=l,affinity=jobAffinity))
 
 print "Master process pid",os.getpid()
-- 
2.43.0


From e67666fd46f7d408ac43d0270df0a210eafced51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:54 +0000
Subject: [PATCH 46/60] fix: yade-batch: the script link of a job could lead to
 another job

---
 core/main/yade-batch.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/main/yade-batch.in b/core/main/yade-batch.in
index 4efec84..9803599 100755
--- a/core/main/yade-batch.in
+++ b/core/main/yade-batch.in
@@ -482,7 +482,7 @@ for i,l in enumerate(useLines):
 		env='YADE_BATCH='
 		if table: env+='<a href="jobs/%d/table">%s:%d</a>'%(jobNum,table,l) # keep YADE_BATCH empty (but still defined) if running a single simulation
 		env+=' DISPLAY= %s '%(' '.join(envVars))
-		cmd='%s%s [threadspec] %s -x <a href="jobs/%d/script">%s</a>'%(jobExecutable,'','--nice=%s'%nice if nice!=None else '',i,script)
+		cmd='%s%s [threadspec] %s -x <a href="jobs/%d/script">%s</a>'%(jobExecutable,'','--nice=%s'%nice if nice!=None else '',jobNum,script)
 		log='> <a href="jobs/%d/log">%s</a> 2>&1'%(jobNum,pipes.quote(logFile2))
 		hrefCmd=env+cmd+log
 		fullCmd=re.sub('(<a href="[^">]+">|</a>)','',hrefCmd)
-- 
2.43.0


From 14a4f427452a9fa8a3b3a28113ddc0f6cd33f2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:54 +0000
Subject: [PATCH 47/60] fix: TableParamReader: the last character of a table
 without newline at its end was lost

---
 py/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/utils.py b/py/utils.py
index 414fa0c..7a6b5e7 100644
--- a/py/utils.py
+++ b/py/utils.py
@@ -706,7 +706,7 @@ This class is used by :yref:`yade.utils.readParamsFromTable`.
 		"Setup the reader class, read data into memory."
 		import re
 		# read file in memory, remove newlines and comments; the [''] makes lines 1-indexed
-		ll=[re.sub('\s*#.*','',l[:-1]) for l in ['']+open(file,'r').readlines()]
+		ll=[re.sub('\s*#.*','',l.rstrip('\r\n')) for l in ['']+open(file,'r').readlines()]
 		# usable lines are those that contain something else than just spaces
 		usableLines=[i for i in range(len(ll)) if not re.match(r'^\s*(#.*)?$',ll[i])]
 		headings=ll[usableLines[0]].split()
-- 
2.43.0


From c1f9b2e400f9eca1decb2c7dbbccdfc6ed71e9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:54 +0000
Subject: [PATCH 48/60] fix: readParamsFromTable: * (use the default) raised
 TypeError unless the default was a string

---
 py/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/utils.py b/py/utils.py
index 7a6b5e7..22d6063 100644
--- a/py/utils.py
+++ b/py/utils.py
@@ -820,8 +820,8 @@ def readParamsFromTable(tableFileLine=None,noTableOk=True,unknownOk=False,**kw):
 		for col in vv.keys():
 			if col=='description' or col[0]=='!': continue
 			if col not in kw.keys() and (not unknownOk): raise NameError("Parameter `%s' has no default value assigned"%col)
-			if vv[col]=='*': vv[col]=kw[col] # use default value for * in the table
-			elif col in kw.keys(): kw.pop(col) # remove the var from kw, so that it contains only those that were default at the end of this loop
+			if vv[col]=='*': continue # use default value for * in the table
+			if col in kw.keys(): kw.pop(col) # remove the var from kw, so that it contains only those that were default at the end of this loop
 			#print 'ASSIGN',col,vv[col]
 			tagsParams+=['%s=%s'%(col,vv[col])];
 			dictParams[col]=eval(vv[col],math.__dict__)
-- 
2.43.0


From d152f6d36dc8694232426c89513ab4cf379dc6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:02 +0000
Subject: [PATCH 49/60] fix: yade-batch --timing: the table of times failed
 with scripts given as script.py/nCores

---
 core/main/yade-batch.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/main/yade-batch.in b/core/main/yade-batch.in
index 9803599..534dd56 100755
--- a/core/main/yade-batch.in
+++ b/core/main/yade-batch.in
@@ -545,7 +545,7 @@ if opts.timing>0:
 		tMin,tMax=min(jobTimes),max(jobTimes)
 		tDev=math.sqrt(sum((t-tAvg)**2 for t in jobTimes)/len(jobTimes))
 		tRelDev=tDev/tAvg
-		out.write('%d\t%d\t%.2f\t%.2f\t%.3g\t%.2f\t%.2f\t|\t'%(l,len(jobTimes),tAvg,tDev,tRelDev,tMin,tMax)+'\t'.join([params[l][p] for p in paramNames])+'\n')
+		out.write('%d\t%d\t%.2f\t%.2f\t%.3g\t%.2f\t%.2f\t|\t'%(l,len(jobTimes),tAvg,tDev,tRelDev,tMin,tMax)+'\t'.join([str(params[l].get(p,'')) for p in paramNames])+'\n')
 
 if not gnuplotOut:
 	print 'Bye.'
-- 
2.43.0


From 1052cd8b8153be6ab768718944c8cc7e6234eb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:46 +0000
Subject: [PATCH 50/60] fix: FlowEngine: pressures interpolated on a new mesh
 by several threads came from each other's cells

The handle of the old cell was shared by the threads of the parallel loop.
---
 lib/triangulation/FlowBoundingSphere.ipp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/triangulation/FlowBoundingSphere.ipp b/lib/triangulation/FlowBoundingSphere.ipp
index 8867c74..5b76d8f 100644
--- a/lib/triangulation/FlowBoundingSphere.ipp
+++ b/lib/triangulation/FlowBoundingSphere.ipp
@@ -450,7 +450,6 @@ CVector FlowBoundingSphere<Tesselation>::cellBarycenter(CellHandle& cell)
 template <class Tesselation>
 void FlowBoundingSphere<Tesselation>::interpolate(Tesselation& Tes, Tesselation& NewTes)
 {
-	CellHandle oldCell;    
 	RTriangulation& Tri = Tes.Triangulation();
 	#ifdef YADE_OPENMP
 		const long size = NewTes.cellHandles.size();
@@ -477,7 +476,7 @@ void FlowBoundingSphere<Tesselation>::interpolate(Tesselation& Tes, Tesselation&
 					}
 				}
 			}
-			oldCell = Tri.locate(CGT::Sphere(center[0],center[1],center[2]));
+			CellHandle oldCell = Tri.locate(CGT::Sphere(center[0],center[1],center[2]));
 			if (!newCell->info().Pcondition) newCell->info().getInfo(oldCell->info());
 			if (!newCell->info().Tcondition && thermalEngine) newCell->info().temp() = oldCell->info().temp();
 		}
-- 
2.43.0


From 86907a690114e10b6ff1f82aaee1837c86b44548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:46 +0000
Subject: [PATCH 51/60] fix: FlowEngine: changing boundary conditions after
 imposing a pressure read past the list of cells

Pressures imposed since the last triangulation have no cell yet.
---
 lib/triangulation/FlowBoundingSphere.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/triangulation/FlowBoundingSphere.ipp b/lib/triangulation/FlowBoundingSphere.ipp
index 5b76d8f..747ab18 100644
--- a/lib/triangulation/FlowBoundingSphere.ipp
+++ b/lib/triangulation/FlowBoundingSphere.ipp
@@ -904,7 +904,8 @@ bool FlowBoundingSphere<Tesselation>::reApplyBoundaryConditions()
                 }
         }
         if (ppval && pxpos) applyUserDefinedPressure(T[currentTes].Triangulation(),*pxpos,*ppval);
-        for (unsigned int n=0; n<imposedP.size();n++) {
+        // pressures imposed since last triangulation have no cell yet, they will be assigned one in initializePressure()
+        for (unsigned int n=0; n<min(imposedP.size(),IPCells.size());n++) {
 		IPCells[n]->info().p()=imposedP[n].second;
 		IPCells[n]->info().Pcondition=true;}
 	pressureChanged=false;
-- 
2.43.0


From 2cb1494134c351d578d0ddb0431bd9a51bf90117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:46 +0000
Subject: [PATCH 52/60] fix: FlowEngine: no flow (and crash) after loading a
 simulation

'first' was saved as False, hence the mesh was never built for the loaded engine.
---
 pkg/pfv/FlowEngine.hpp.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pfv/FlowEngine.hpp.in b/pkg/pfv/FlowEngine.hpp.in
index 24f2ff0..035c5ba 100644
--- a/pkg/pfv/FlowEngine.hpp.in
+++ b/pkg/pfv/FlowEngine.hpp.in
@@ -263,7 +263,7 @@ class TemplateFlowEngine_@TEMPLATE_FLOW_NAME@ : public PartialEngine
 
 		YADE_CLASS_PYCLASS_BASE_DOC_ATTRS_DEPREC_INIT_CTOR_PY(TemplateFlowEngine_@TEMPLATE_FLOW_NAME@,@TEMPLATE_FLOW_NAME@,PartialEngine,"A generic engine from wich more specialized engines can inherit. It is defined for the sole purpose of inserting the right data classes CellInfo and VertexInfo in the triangulation, and it should not be used directly. Instead, look for specialized engines, e.g. :yref:`FlowEngine`, :yref:`PeriodicFlowEngine`, or :yref:`DFNFlowEngine`.",
 		((bool,isActivated,true,,"Activates Flow Engine"))
-		((bool,first,true,,"Controls the initialization/update phases"))
+		((bool,first,true,Attr::noSave,"Controls the initialization/update phases (the mesh is not saved, hence it is always built at first step after loading)"))
 		((int,idOffset,0,,"If the bounding walls of the fluid mesh are not walls of the scene (i.e. are not elements of O.bodies), the offset should be set equal to the size of O.bodies. If the bounding walls are bodies of the scene but are not numbered as 0-5 then offset should be the number of bodies comming before the walls. Set offset<0 to get it set equal to O.bodies.size(), it will also update :yref:`FlowEngine::wallIds`."))
 		((bool,convertClumps,true,,"If true the clumps will be temptatively converted into equivalent spheres in the triangulation, and clump members are skipped. Else clumps are ignored and spherical clump members are triangulated as independent bodies."))
 		((bool,doInterpolate,false,,"Force the interpolation of cell's info while remeshing. By default, interpolation would be done only for compressible fluids. It can be forced with this flag."))
-- 
2.43.0


From 3864caadd1406d01fb041f7962e541e86fd9a3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:46 +0000
Subject: [PATCH 53/60] fix: FlowEngine: bounds of the packing were reset in
 the wrong solver

With multithread=True the solver in use got infinite bounds, and the background one kept arbitrary ones (1000,-10000).
---
 pkg/pfv/FlowEngine.ipp.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pfv/FlowEngine.ipp.in b/pkg/pfv/FlowEngine.ipp.in
index a851509..6db0105 100644
--- a/pkg/pfv/FlowEngine.ipp.in
+++ b/pkg/pfv/FlowEngine.ipp.in
@@ -360,7 +360,7 @@ template< class _CellInfo, class _VertexInfo, class _Tesselation, class solverT
 void TemplateFlowEngine_@TEMPLATE_FLOW_NAME@<_CellInfo,_VertexInfo,_Tesselation,solverT>::addBoundary ( Solver& flow )
 {
 	vector<posData>& buffer = multithread ? positionBufferParallel : positionBufferCurrent;
-        solver->xMin = Mathr::MAX_REAL, solver->xMax = -Mathr::MAX_REAL, solver->yMin = Mathr::MAX_REAL, solver->yMax = -Mathr::MAX_REAL, solver->zMin = Mathr::MAX_REAL, solver->zMax = -Mathr::MAX_REAL;
+        flow.xMin = Mathr::MAX_REAL, flow.xMax = -Mathr::MAX_REAL, flow.yMin = Mathr::MAX_REAL, flow.yMax = -Mathr::MAX_REAL, flow.zMin = Mathr::MAX_REAL, flow.zMax = -Mathr::MAX_REAL;
         FOREACH ( const posData& b, buffer ) {
                 if ( !b.exists ) continue;
                 if ( b.isSphere || b.isClump ) {
-- 
2.43.0


From 32de8e3e786269c1897d7bb023d6b0b8ecbb41cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:46 +0000
Subject: [PATCH 54/60] fix: FlowEngine: background thread outlived the engine
 and its scene

Reset, loading or replacing the engine during a background triangulation was a use after free.
---
 pkg/pfv/FlowEngine.hpp.in      |  3 +++
 pkg/pfv/FlowEngine.ipp.in      | 16 ++++++++++++----
 pkg/pfv/PeriodicFlowEngine.cpp |  5 +++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/pkg/pfv/FlowEngine.hpp.in b/pkg/pfv/FlowEngine.hpp.in
index 035c5ba..0ea9cba 100644
--- a/pkg/pfv/FlowEngine.hpp.in
+++ b/pkg/pfv/FlowEngine.hpp.in
@@ -62,6 +62,9 @@ class TemplateFlowEngine_@TEMPLATE_FLOW_NAME@ : public PartialEngine
 		shared_ptr<FlowSolver> solver;
 		shared_ptr<FlowSolver> backgroundSolver;
 		volatile bool backgroundCompleted;
+		shared_ptr<boost::thread> workerThread;//executing backgroundAction
+		Real backgroundDt;//timestep used by backgroundAction
+		bool bcsChanged;//boundary conditions changed since backgroundAction started
 		Cell cachedCell;
 		struct posData {Body::id_t id; Vector3r pos; Real radius; bool isSphere; bool isClump; bool exists; posData(){exists=0; isClump=0;}};
 		vector<posData> positionBufferCurrent;//reflect last known positions before we start computations
diff --git a/pkg/pfv/FlowEngine.ipp.in b/pkg/pfv/FlowEngine.ipp.in
index 6db0105..2536f51 100644
--- a/pkg/pfv/FlowEngine.ipp.in
+++ b/pkg/pfv/FlowEngine.ipp.in
@@ -17,7 +17,14 @@
 #include<pkg/dem/JointedCohesiveFrictionalPM.hpp>
 
 template< class _CellInfo, class _VertexInfo, class _Tesselation, class solverT >
-TemplateFlowEngine_@TEMPLATE_FLOW_NAME@<_CellInfo,_VertexInfo,_Tesselation,solverT>::~TemplateFlowEngine_@TEMPLATE_FLOW_NAME@() {}
+TemplateFlowEngine_@TEMPLATE_FLOW_NAME@<_CellInfo,_VertexInfo,_Tesselation,solverT>::~TemplateFlowEngine_@TEMPLATE_FLOW_NAME@()
+{
+	// the background thread works on this engine: wait for it (without the GIL, which it may need for blockHook)
+	if (!workerThread) return;
+	PyThreadState* gil = (Py_IsInitialized() && PyGILState_Check()) ? PyEval_SaveThread() : NULL;
+	workerThread->join();
+	if (gil) PyEval_RestoreThread(gil);
+}
 
 // YADE_PLUGIN((TFlowEng));
 template< class _CellInfo, class _VertexInfo, class _Tesselation, class solverT >
@@ -140,8 +147,9 @@ void TemplateFlowEngine_@TEMPLATE_FLOW_NAME@<_CellInfo,_VertexInfo,_Tesselation,
 			updateTriangulation=false;
 			epsVolCumulative=0;
 			ellapsedIter=0;
-			boost::thread workerThread(&TemplateFlowEngine_@TEMPLATE_FLOW_NAME@::backgroundAction,this);
-			workerThread.detach();
+			if (workerThread) workerThread->join();// it is done already, except for its last instructions
+			backgroundDt=scene->dt;
+			workerThread=shared_ptr<boost::thread>(new boost::thread(&TemplateFlowEngine_@TEMPLATE_FLOW_NAME@::backgroundAction,this));
 			if (debug) cerr<<"backgrounded"<<endl;
 			initializeVolumes(*solver);
 			computeViscousForces(*solver);
@@ -173,7 +181,7 @@ void TemplateFlowEngine_@TEMPLATE_FLOW_NAME@<_CellInfo,_VertexInfo,_Tesselation,
 	if (useSolver<1) {LOG_ERROR("background calculations not available for Gauss-Seidel"); return;}
         buildTriangulation ( pZero,*backgroundSolver );
 	backgroundSolver->factorizeOnly = true;
-	backgroundSolver->gaussSeidel(scene->dt);
+	backgroundSolver->gaussSeidel(backgroundDt);//not scene->dt, the scene may be gone by now
 	backgroundSolver->factorizeOnly = false;
 	//FIXME(2): and here we need only cached variables, not forces <- this appears to be fixed already inside computeFacetForcesWithCache
 	backgroundSolver->computeFacetForcesWithCache(/*onlyCache?*/ true);
diff --git a/pkg/pfv/PeriodicFlowEngine.cpp b/pkg/pfv/PeriodicFlowEngine.cpp
index 091ac7d..900bdb8 100644
--- a/pkg/pfv/PeriodicFlowEngine.cpp
+++ b/pkg/pfv/PeriodicFlowEngine.cpp
@@ -193,8 +193,9 @@ void PeriodicFlowEngine:: action()
 			retriangulationLastIter=ellapsedIter;
 			ellapsedIter=0;
 			epsVolCumulative=0;
-			boost::thread workerThread(&PeriodicFlowEngine::backgroundAction,this);
-			workerThread.detach();
+			if (workerThread) workerThread->join();
+			backgroundDt=scene->dt;
+			workerThread=shared_ptr<boost::thread>(new boost::thread(&PeriodicFlowEngine::backgroundAction,this));
 			initializeVolumes(*solver);
 			computeViscousForces(*solver);
 		}
-- 
2.43.0


From ee92cbfda96956ffe5d9da0a52aa23b2b46f8fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:46 +0000
Subject: [PATCH 55/60] fix: FlowEngine: boundary conditions changed during
 background meshing were lost at next switch

---
 pkg/pfv/FlowEngine.hpp.in | 4 +++-
 pkg/pfv/FlowEngine.ipp.in | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/pfv/FlowEngine.hpp.in b/pkg/pfv/FlowEngine.hpp.in
index 0ea9cba..3d1ab05 100644
--- a/pkg/pfv/FlowEngine.hpp.in
+++ b/pkg/pfv/FlowEngine.hpp.in
@@ -104,7 +104,8 @@ class TemplateFlowEngine_@TEMPLATE_FLOW_NAME@ : public PartialEngine
 		void updateBCs () {
 			if (solver->tesselation().maxId>0) boundaryConditions(*solver);//avoids crash at iteration 0, when the packing is not bounded yet
 			else LOG_ERROR("updateBCs not applied");
-			solver->pressureChanged=true;}
+			solver->pressureChanged=true;
+			bcsChanged=true;}
 			
 		bool checkMaxId(unsigned id) {//used in other functions
 			if (id>=solver->T[solver->currentTes].cellHandles.size()) {
@@ -348,6 +349,7 @@ class TemplateFlowEngine_@TEMPLATE_FLOW_NAME@ : public PartialEngine
 		normal[wall_ymax].y()=normal[wall_xmax].x()=normal[wall_zmax].z()=-1;
 		solver = shared_ptr<FlowSolver> (new FlowSolver);
 		first=true;
+		bcsChanged=false;
 		epsVolMax=epsVolCumulative=retriangulationLastIter=permUpdateIters=0;
 		ReTrg=1;
 		backgroundCompleted=true;
diff --git a/pkg/pfv/FlowEngine.ipp.in b/pkg/pfv/FlowEngine.ipp.in
index 2536f51..b5644b4 100644
--- a/pkg/pfv/FlowEngine.ipp.in
+++ b/pkg/pfv/FlowEngine.ipp.in
@@ -132,6 +132,8 @@ void TemplateFlowEngine_@TEMPLATE_FLOW_NAME@<_CellInfo,_VertexInfo,_Tesselation,
 				backgroundSolver->imposedP = vector<pair<CGT::Point,Real> >(solver->imposedP);
 				backgroundSolver->imposedF = vector<pair<CGT::Point,Real> >(solver->imposedF);
 				solver=backgroundSolver;
+				//Boundary conditions changed while the background solver was at work
+				if (bcsChanged) {boundaryConditions(*solver); solver->pressureChanged=true;}
 			} else {
 				fluxChanged=false;
 			}
@@ -142,6 +144,7 @@ void TemplateFlowEngine_@TEMPLATE_FLOW_NAME@<_CellInfo,_VertexInfo,_Tesselation,
 			backgroundSolver->imposedF = vector<pair<CGT::Point,Real> >(solver->imposedF);
 			if (debug) cerr<<"switched"<<endl;
 			setPositionsBuffer(false);//set "parallel" buffer for background calculation 
+			bcsChanged=false;
 			backgroundCompleted=false;
 			retriangulationLastIter=ellapsedIter;
 			updateTriangulation=false;
@@ -215,6 +218,7 @@ void TemplateFlowEngine_@TEMPLATE_FLOW_NAME@<_CellInfo,_VertexInfo,_Tesselation,
         solver->imposedP[cond].second=p;
         //force immediate update of boundary conditions
 	solver->pressureChanged=true;
+	bcsChanged=true;
 }
 template< class _CellInfo, class _VertexInfo, class _Tesselation, class solverT >
 void TemplateFlowEngine_@TEMPLATE_FLOW_NAME@<_CellInfo,_VertexInfo,_Tesselation,solverT>::imposeFlux ( Vector3r pos, Real flux){
-- 
2.43.0


From 26601d6ff080f2f47f935be1be8faaaf9310c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:20 +0000
Subject: [PATCH 56/60] fix: remote console: rejected (not local) connections
 were served all the same

---
 py/remote.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py/remote.py b/py/remote.py
index d3d7534..b505e38 100644
--- a/py/remote.py
+++ b/py/remote.py
@@ -59,7 +59,9 @@ class PythonConsoleSocketEmulator(SocketServer.BaseRequestHandler):
 	def setup(self):
 		if not self.client_address[0].startswith('127.0.0'):
 			print "TCP Connection from non-127.0.0.* address %s rejected"%self.client_address[0]
+			self.rejected=True
 			return
+		self.rejected=False
 		print self.client_address, 'connected!'
 		self.request.send('Enter auth cookie: ')
 	def tryLogin(self):
@@ -83,6 +85,7 @@ class PythonConsoleSocketEmulator(SocketServer.BaseRequestHandler):
 		import pprint
 		self.request.send(pprint.pformat(s))
 	def handle(self):
+		if self.rejected: return
 		if self.client_address not in self.server.authenticated and not self.tryLogin(): return
 		import code,cStringIO,traceback
 		buf=[]
-- 
2.43.0


From e9c1c38de3f8b815a6e057b5276a4ced6aebcb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:20 +0000
Subject: [PATCH 57/60] fix: remote console: a new connection from an address
 authenticated before needed no cookie

Addresses (ip:port) are used again by later connections.
---
 py/remote.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/py/remote.py b/py/remote.py
index b505e38..452d431 100644
--- a/py/remote.py
+++ b/py/remote.py
@@ -66,7 +66,6 @@ class PythonConsoleSocketEmulator(SocketServer.BaseRequestHandler):
 		self.request.send('Enter auth cookie: ')
 	def tryLogin(self):
 		if self.request.recv(1024).rstrip()==self.server.cookie:
-	  		self.server.authenticated+=[self.client_address]
 			self.request.send("""__   __    ____                 __  _____ ____ ____  
 \ \ / /_ _|  _ \  ___    ___   / / |_   _/ ___|  _ \ 
  \ V / _` | | | |/ _ \  / _ \ / /    | || |   | |_) |
@@ -86,7 +85,7 @@ class PythonConsoleSocketEmulator(SocketServer.BaseRequestHandler):
 		self.request.send(pprint.pformat(s))
 	def handle(self):
 		if self.rejected: return
-		if self.client_address not in self.server.authenticated and not self.tryLogin(): return
+		if not self.tryLogin(): return
 		import code,cStringIO,traceback
 		buf=[]
 		while True:
@@ -150,7 +149,6 @@ class GenericTCPServer:
 				self.port=tryPort
 				if cookie:
 					self.server.cookie=''.join([i for i in random.sample('yadesucks',6)])
-					self.server.authenticated=[]
 					sys.stderr.write(title+" on %s:%d, auth cookie `%s'\n"%(host if host else 'localhost',self.port,self.server.cookie))
 				else:
 					sys.stderr.write(title+" on %s:%d\n"%(host if host else 'localhost',self.port))
-- 
2.43.0


From 52e885a42be36ec6de3d57a0bfa3feb178f95e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:20 +0000
Subject: [PATCH 58/60] fix: remote console: commands were cut or merged as TCP
 delivered them, and closed connections never ended

What one recv() returned was executed as one command: a command sent in two
segments was executed as two, several lines in one segment were refused, and the
end of the stream was taken for an infinity of empty commands.
---
 py/remote.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/py/remote.py b/py/remote.py
index 452d431..18fa1a4 100644
--- a/py/remote.py
+++ b/py/remote.py
@@ -62,10 +62,19 @@ class PythonConsoleSocketEmulator(SocketServer.BaseRequestHandler):
 			self.rejected=True
 			return
 		self.rejected=False
+		self.received='' # received, not processed yet
 		print self.client_address, 'connected!'
 		self.request.send('Enter auth cookie: ')
+	def readLine(self):
+		"Return the next line (without its end), None once the connection is closed. TCP is a stream: a line may come in pieces, and several lines at once."
+		while '\n' not in self.received and not self.received.endswith('\x04'):
+			data=self.request.recv(1024)
+			if not data: return None
+			self.received+=data
+		line,sep,self.received=self.received.partition('\n')
+		return line.rstrip()
 	def tryLogin(self):
-		if self.request.recv(1024).rstrip()==self.server.cookie:
+		if self.readLine()==self.server.cookie:
 			self.request.send("""__   __    ____                 __  _____ ____ ____  
 \ \ / /_ _|  _ \  ___    ___   / / |_   _/ ___|  _ \ 
  \ V / _` | | | |/ _ \  / _ \ / /    | || |   | |_) |
@@ -89,8 +98,8 @@ class PythonConsoleSocketEmulator(SocketServer.BaseRequestHandler):
 		import code,cStringIO,traceback
 		buf=[]
 		while True:
-			data = self.request.recv(1024).rstrip()
-			if data=='\x04' or data=='exit' or data=='quit': # \x04 == ^D 
+			data = self.readLine()
+			if data is None or data=='\x04' or data=='exit' or data=='quit': # \x04 == ^D 
 				return
 			buf.append(data)
 			orig_displayhook,orig_stdout=sys.displayhook,sys.stdout
-- 
2.43.0


From 03bbfa2d8447d6545d254ef7e68b826125f2a13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:20 +0000
Subject: [PATCH 59/60] fix: remote console: replies could be truncated

send() may send a part only.
---
 py/remote.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/py/remote.py b/py/remote.py
index 18fa1a4..5ed72d5 100644
--- a/py/remote.py
+++ b/py/remote.py
@@ -64,7 +64,7 @@ class PythonConsoleSocketEmulator(SocketServer.BaseRequestHandler):
 		self.rejected=False
 		self.received='' # received, not processed yet
 		print self.client_address, 'connected!'
-		self.request.send('Enter auth cookie: ')
+		self.request.sendall('Enter auth cookie: ')
 	def readLine(self):
 		"Return the next line (without its end), None once the connection is closed. TCP is a stream: a line may come in pieces, and several lines at once."
 		while '\n' not in self.received and not self.received.endswith('\x04'):
@@ -75,7 +75,7 @@ class PythonConsoleSocketEmulator(SocketServer.BaseRequestHandler):
 		return line.rstrip()
 	def tryLogin(self):
 		if self.readLine()==self.server.cookie:
-			self.request.send("""__   __    ____                 __  _____ ____ ____  
+			self.request.sendall("""__   __    ____                 __  _____ ____ ____  
 \ \ / /_ _|  _ \  ___    ___   / / |_   _/ ___|  _ \ 
  \ V / _` | | | |/ _ \  / _ \ / /    | || |   | |_) |
   | | (_| | |_| |  __/ | (_) / /     | || |___|  __/ 
@@ -91,7 +91,7 @@ class PythonConsoleSocketEmulator(SocketServer.BaseRequestHandler):
 			return False
 	def displayhook(self,s):
 		import pprint
-		self.request.send(pprint.pformat(s))
+		self.request.sendall(pprint.pformat(s))
 	def handle(self):
 		if self.rejected: return
 		if not self.tryLogin(): return
@@ -112,19 +112,19 @@ class PythonConsoleSocketEmulator(SocketServer.BaseRequestHandler):
 					sys.displayhook=self.displayhook
 					sys.stdout=sio
 					exec comp
-					self.request.send(sio.getvalue())
+					self.request.sendall(sio.getvalue())
 					buf=[]
 				else:
-					self.request.send('... '); continuation=True
+					self.request.sendall('... '); continuation=True
 			except:
-				self.request.send(traceback.format_exc())
+				self.request.sendall(traceback.format_exc())
 				buf=[]
 			finally:
 				sys.displayhook,sys.stdout=orig_displayhook,orig_stdout
-				if not continuation: self.request.send('\n>>> ')
+				if not continuation: self.request.sendall('\n>>> ')
 	def finish(self):
 		print self.client_address, 'disconnected!'
-		self.request.send('\nBye ' + str(self.client_address) + '\n')
+		self.request.sendall('\nBye ' + str(self.client_address) + '\n')
 
 
 def _runInBackground(func):
-- 
2.43.0


From d9ebb87318e1ed6cac97b132c6cb1dd25aff1ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:58 +0000
Subject: [PATCH 60/60] fix: remote console: simultaneous connections got each
 other's output

and could leave the stdout of the whole process redirected to a closed connection.
---
 py/remote.py | 47 +++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/py/remote.py b/py/remote.py
index 5ed72d5..8c92e4d 100644
--- a/py/remote.py
+++ b/py/remote.py
@@ -7,7 +7,7 @@ These classes are used internally in gui/py/PythonUI_rc.py and are not intended
 """
 
 import SocketServer,xmlrpclib,socket
-import sys,time,os,math
+import sys,time,os,math,thread,pprint
 
 from yade import *
 import yade.runtime
@@ -50,6 +50,30 @@ class InfoProvider:
 		O.pause()
 		return True
 
+class CommandOutput:
+	"Stands for sys.stdout and sys.displayhook while commands are executed for connections: what they print goes to their own connection, what other threads print goes where it always does."
+	def __init__(self):
+		self.lock,self.sinks=thread.allocate_lock(),{}
+	def begin(self,sink):
+		with self.lock:
+			if not self.sinks:
+				self.stdout,self.displayhook=sys.stdout,sys.displayhook
+				sys.stdout,sys.displayhook=self,self.display
+			self.sinks[thread.get_ident()]=sink
+	def end(self):
+		with self.lock:
+			del self.sinks[thread.get_ident()]
+			if not self.sinks: sys.stdout,sys.displayhook=self.stdout,self.displayhook
+	def write(self,s):
+		self.sinks.get(thread.get_ident(),self.stdout).write(s)
+	def display(self,val):
+		if thread.get_ident() in self.sinks: self.write(pprint.pformat(val))
+		else: self.displayhook(val)
+	def __getattr__(self,name):
+		return getattr(self.stdout,name)
+
+commandOutput=CommandOutput()
+
 class PythonConsoleSocketEmulator(SocketServer.BaseRequestHandler):
 	"""Class emulating python command-line over a socket connection.
 
@@ -89,9 +113,6 @@ class PythonConsoleSocketEmulator(SocketServer.BaseRequestHandler):
 			time.sleep(5)
 			print "invalid cookie"
 			return False
-	def displayhook(self,s):
-		import pprint
-		self.request.sendall(pprint.pformat(s))
 	def handle(self):
 		if self.rejected: return
 		if not self.tryLogin(): return
@@ -102,26 +123,20 @@ class PythonConsoleSocketEmulator(SocketServer.BaseRequestHandler):
 			if data is None or data=='\x04' or data=='exit' or data=='quit': # \x04 == ^D 
 				return
 			buf.append(data)
-			orig_displayhook,orig_stdout=sys.displayhook,sys.stdout
 			sio=cStringIO.StringIO()
-			continuation=False
-			#print "buffer:",buf
+			prompt='\n>>> '
+			commandOutput.begin(sio)
 			try:
 				comp=code.compile_command('\n'.join(buf))
 				if comp:
-					sys.displayhook=self.displayhook
-					sys.stdout=sio
 					exec comp
-					self.request.sendall(sio.getvalue())
 					buf=[]
-				else:
-					self.request.sendall('... '); continuation=True
+				else: prompt='... '
 			except:
-				self.request.sendall(traceback.format_exc())
+				sio.write(traceback.format_exc())
 				buf=[]
-			finally:
-				sys.displayhook,sys.stdout=orig_displayhook,orig_stdout
-				if not continuation: self.request.sendall('\n>>> ')
+			finally: commandOutput.end()
+			self.request.sendall(sio.getvalue()+prompt)
 	def finish(self):
 		print self.client_address, 'disconnected!'
 		self.request.sendall('\nBye ' + str(self.client_address) + '\n')
-- 
2.43.0

