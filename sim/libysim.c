/* libysim: deterministic simulator for one yade process (LD_PRELOAD).
 *
 * - Real pthreads, but exactly one of them owns the baton; who runs next is decided here, from one PRNG
 *   (or from a recorded decision list in replay mode).
 * - Implements the OpenMP runtime (GOMP_*, omp_*) on those threads.
 * - libyade is compiled with -fsanitize=thread and NOT linked to libtsan: the __tsan_* callbacks below are the
 *   memory-access-level preemption points.
 * - pthread mutex/cond/sem/once/join, sleeps and all clocks are simulated.
 * - File I/O on paths under a scratch prefix can be made to fail (ENOSPC, EIO, short write/read, failing open/close).
 *
 * Every choice goes through decide(): idx = running index of that kind of decision; only non-default choices are
 * recorded, as (kind, idx, value); replaying the list reproduces the run exactly, and any subset of it is a valid
 * (simpler) schedule, which is what the minimiser uses.
 */
#define _GNU_SOURCE
#include <stddef.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>

#define EXPORT __attribute__((visibility("default")))
#define LIKELY(x) __builtin_expect(!!(x),1)
#define UNLIKELY(x) __builtin_expect(!!(x),0)

enum { D_MEM, D_SYNC, D_PICK, D_WAKE, D_CLOCK, D_IO, D_USER, D_SPUR, NKIND };
enum { T_FREE, T_RUN, T_BLOCK, T_SLEEP, T_DONE, T_IDLE };
#define MAXT 256
#define MAXREC 400000

typedef struct { uint32_t kind; int32_t val; uint64_t idx; } Rec;

/* result area, shared with the parent process so that it survives a crash of the child */
typedef struct {
	uint64_t hash, switches, syncs, mems, steps, simns, mutexblocks, deadlock, livelock, hang;
	uint64_t cnt[NKIND];
	uint64_t faults[64];
	uint64_t preempt_mem, preempt_sync, conflicts, parallel_regions, chunks, threads_created, spurious, clockjumps, stallpicks;
	uint64_t memerr; char memerr_msg[512];
	uint64_t nrec, rec_overflow;
	char msg[4096];
	Rec rec[MAXREC];
} Shared;

typedef struct Team Team;
typedef struct {
	int id, state; int fut;
	pthread_t real; void* (*fn)(void*); void* arg;
	const void* waitobj; uint64_t deadline; bool timed, timedout;
	int condseq; bool signalled;
	Team* team; int tid; long loopcnt, singlecnt, sectcnt; /* omp */
	void (*ompfn)(void*); void* ompdata; bool pool;
	double weight; uint64_t lastconf;
	int tsdround; bool registered;
	int nopreempt;
	int lane; 
} T;

struct LoopWS { long n; bool init; long next,end,incr,chunk; int sched; int finished; unsigned long unext; };
struct Team { int n; int arrived; long gen; void (*fn)(void*); void* data; struct LoopWS ws[64]; long singledone; int done; Team* up; int uptid; long up_loopcnt,up_singlecnt; long ordered_cur; void* copypriv; };

static T th[MAXT]; static int nth=0; static int cur=0;
static __thread T* self=NULL;
static int g_active=0; int ysim_mt=0; /* ysim_mt: any other thread could run now */
static Shared local_S; static Shared* S=&local_S;
static int g_nthreads=4; static int g_nested=0;
static uint64_t sim_now=0; static int64_t rt_offset=1600000000LL*1000000000LL; /* realtime = sim_now + offset */
static uint64_t rng[4];
static int g_replay=0; static Rec* rp=NULL; static uint64_t nrp=0; static uint64_t rpi[NKIND]; static Rec* rpk[NKIND]; static uint64_t nrpk[NKIND];
/* policy */
static double P_sync=0.1,P_conf=0.2,P_clock=0,P_spur=0,P_sleepwake=0.05; static double memgap=0; static uint64_t next_mem=0;
static uint64_t step_limit=20000000; static uint64_t memlimit=2000000000ull; static uint64_t fair_cnt=0;
#define FAIR 300000
static int clock_manual=0; static int64_t rt_manual; /* the wall clock only moves when told */
#define WALL ((int64_t)(clock_manual?rt_manual:(int64_t)sim_now+rt_offset))
static int64_t clock_jumps[8]={-3600000000000LL,3600000000000LL,-1000000000LL,1000000000LL,86400000000000LL,-7000000LL,5000000000LL,-86400000000000LL};
static pthread_key_t tsdkey;


/* ---- real functions ---- */
#define REAL(ret,name,args) static ret (*r_##name) args
REAL(int,pthread_create,(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*));
REAL(int,pthread_mutex_lock,(pthread_mutex_t*)); REAL(int,pthread_mutex_trylock,(pthread_mutex_t*)); REAL(int,pthread_mutex_unlock,(pthread_mutex_t*));
REAL(int,pthread_mutex_timedlock,(pthread_mutex_t*,const struct timespec*));
REAL(int,pthread_cond_wait,(pthread_cond_t*,pthread_mutex_t*)); REAL(int,pthread_cond_timedwait,(pthread_cond_t*,pthread_mutex_t*,const struct timespec*));
REAL(int,pthread_cond_clockwait,(pthread_cond_t*,pthread_mutex_t*,clockid_t,const struct timespec*));
REAL(int,pthread_cond_signal,(pthread_cond_t*)); REAL(int,pthread_cond_broadcast,(pthread_cond_t*)); REAL(int,pthread_cond_destroy,(pthread_cond_t*));
REAL(int,pthread_join,(pthread_t,void**)); REAL(int,pthread_once,(pthread_once_t*,void(*)(void)));
REAL(int,sem_wait,(sem_t*)); REAL(int,sem_trywait,(sem_t*)); REAL(int,sem_post,(sem_t*)); REAL(int,sem_timedwait,(sem_t*,const struct timespec*)); REAL(int,sem_clockwait,(sem_t*,clockid_t,const struct timespec*));
REAL(int,nanosleep,(const struct timespec*,struct timespec*)); REAL(int,clock_nanosleep,(clockid_t,int,const struct timespec*,struct timespec*)); REAL(int,usleep,(useconds_t)); REAL(unsigned,sleep,(unsigned));
REAL(int,gettimeofday,(struct timeval*,void*)); REAL(int,clock_gettime,(clockid_t,struct timespec*)); REAL(time_t,time,(time_t*));
REAL(int,sched_yield,(void));
REAL(int,open,(const char*,int,...)); REAL(int,open64,(const char*,int,...)); REAL(int,openat,(int,const char*,int,...)); REAL(FILE*,fopen,(const char*,const char*)); REAL(FILE*,fopen64,(const char*,const char*));
REAL(int,fclose,(FILE*)); REAL(int,close,(int)); REAL(ssize_t,write,(int,const void*,size_t)); REAL(ssize_t,writev,(int,const struct iovec*,int)); REAL(ssize_t,read,(int,void*,size_t)); REAL(int,fsync,(int));
REAL(off_t,lseek64,(int,off_t,int));
static int resolved=0;
static void resolve(void){
	if(resolved) return; resolved=1;
	#define R(n) r_##n=dlsym(RTLD_NEXT,#n)
	R(pthread_create);R(pthread_mutex_lock);R(pthread_mutex_trylock);R(pthread_mutex_unlock);R(pthread_mutex_timedlock);R(pthread_cond_wait);R(pthread_cond_timedwait);R(pthread_cond_clockwait);
	R(pthread_cond_signal);R(pthread_cond_broadcast);R(pthread_cond_destroy);R(pthread_join);R(pthread_once);R(sem_wait);R(sem_trywait);R(sem_post);R(sem_timedwait);R(sem_clockwait);
	R(nanosleep);R(clock_nanosleep);R(usleep);R(sleep);R(gettimeofday);R(clock_gettime);R(time);R(sched_yield);
	R(open);R(open64);R(openat);R(fopen);R(fopen64);R(fclose);R(close);R(write);R(writev);R(read);R(fsync);R(lseek64);
}
#define NEED(n) do{ if(UNLIKELY(!r_##n)) r_##n=dlsym(RTLD_NEXT,#n); }while(0)

/* ---- PRNG ---- */
static uint64_t rotl(uint64_t x,int k){ return (x<<k)|(x>>(64-k)); }
static uint64_t rnd(void){ uint64_t r=rotl(rng[1]*5,7)*9,t=rng[1]<<17; rng[2]^=rng[0]; rng[3]^=rng[1]; rng[1]^=rng[2]; rng[0]^=rng[3]; rng[2]^=t; rng[3]=rotl(rng[3],45); return r; }
static double rnd01(void){ return (rnd()>>11)*(1.0/9007199254740992.0); }
static void seedrng(uint64_t s){ for(int i=0;i<4;i++){ s+=0x9e3779b97f4a7c15ULL; uint64_t z=s; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; rng[i]=z^(z>>31);} }
static uint64_t geom(double mean){ double u=rnd01(); if(u<1e-12) u=1e-12; double g=-__builtin_log(u)*mean; return (uint64_t)g+1; }

static void hash2(uint64_t a,uint64_t b){ S->hash=(S->hash^a)*0x100000001b3ULL; S->hash=rotl(S->hash,23)^b; S->hash*=0x9e3779b97f4a7c15ULL; }
EXPORT void ysim_hash_mix(uint64_t v){ if(S) hash2(0x55,v); }

static void record(int kind,uint64_t idx,int val){ if(S->nrec<MAXREC){ Rec* r=&S->rec[S->nrec++]; r->kind=kind; r->idx=idx; r->val=val; } else S->rec_overflow++; }
/* replay lookup: value recorded for (kind, idx), 0 if none. idx grows monotonically per kind. */
static int rlookup(int kind,uint64_t idx){
	while(rpi[kind]<nrpk[kind] && rpk[kind][rpi[kind]].idx<idx) rpi[kind]++;
	if(rpi[kind]<nrpk[kind] && rpk[kind][rpi[kind]].idx==idx) return rpk[kind][rpi[kind]].val;
	return 0;
}
static void arm_mem(void){
	if(g_replay){ while(rpi[D_MEM]<nrpk[D_MEM] && rpk[D_MEM][rpi[D_MEM]].idx<=S->cnt[D_MEM]) rpi[D_MEM]++; next_mem= rpi[D_MEM]<nrpk[D_MEM]? rpk[D_MEM][rpi[D_MEM]].idx : UINT64_MAX; }
	else next_mem= memgap>0 ? S->cnt[D_MEM]+geom(memgap) : UINT64_MAX;
}

static void fwaitf(T* t){ while(__atomic_load_n(&t->fut,__ATOMIC_ACQUIRE)==0) syscall(SYS_futex,&t->fut,FUTEX_WAIT_PRIVATE,0,NULL,NULL,0); __atomic_store_n(&t->fut,0,__ATOMIC_RELEASE); }
static void fwake(T* t){ __atomic_store_n(&t->fut,1,__ATOMIC_RELEASE); syscall(SYS_futex,&t->fut,FUTEX_WAKE_PRIVATE,1,NULL,NULL,0); }

static void refresh_mt(void){ int n=0; for(int i=0;i<nth;i++) if(i!=cur && (th[i].state==T_RUN||th[i].state==T_SLEEP||(th[i].state==T_BLOCK&&th[i].timed))) n++; ysim_mt=g_active && n>0; }

EXPORT void ysim_fail_exit(const char* why,int code){ snprintf(S->msg,sizeof(S->msg),"%s",why); S->simns=sim_now; _exit(code); }
#define EXIT_DEADLOCK 71
#define EXIT_LIVELOCK 72
#define EXIT_MEMERR 73

static void do_switch(int to){
	if(to==cur) { refresh_mt(); return; }
	S->switches++; hash2(to,S->cnt[D_MEM]+(S->cnt[D_SYNC]<<20));
	T* me=self; cur=to; refresh_mt(); fair_cnt=0;
	fwake(&th[to]);
	if(me->state!=T_DONE) fwaitf(me);
}
static void bump_step(void){
	S->steps++; if(UNLIKELY(S->steps>step_limit)){ S->livelock=1; ysim_fail_exit("no progress: simulated step limit exceeded",EXIT_LIVELOCK); }
}
static void wake_due(void){ for(int i=0;i<nth;i++) if((th[i].state==T_SLEEP||(th[i].state==T_BLOCK&&th[i].timed)) && th[i].deadline<=sim_now){ if(th[i].state==T_BLOCK) th[i].timedout=true; th[i].state=T_RUN; } }
static int pick_weighted(int* c,int n){ double s=0; for(int i=0;i<n;i++) s+=th[c[i]].weight; double x=rnd01()*s; for(int i=0;i<n;i++){ x-=th[c[i]].weight; if(x<=0) return c[i]; } return c[n-1]; }

/* current thread cannot go on (its state is not T_RUN): pass the baton */
static void schedule_block(void){
	bump_step(); sim_now+=1000; wake_due();
	int c[MAXT],n=0; for(int i=0;i<nth;i++) if(th[i].state==T_RUN) c[n++]=i;
	if(n==0){ /* jump to the earliest deadline */
		uint64_t best=UINT64_MAX; for(int i=0;i<nth;i++) if((th[i].state==T_SLEEP||(th[i].state==T_BLOCK&&th[i].timed))&&th[i].deadline<best) best=th[i].deadline;
		if(best==UINT64_MAX){
			S->deadlock=1; char b[1024]; int o=snprintf(b,sizeof b,"deadlock: no thread can run;"); for(int i=0;i<nth;i++) if(th[i].state==T_BLOCK) o+=snprintf(b+o,sizeof(b)-o," thread %d blocked",i);
			ysim_fail_exit(b,EXIT_DEADLOCK);
		}
		if(best>sim_now) sim_now=best; wake_due();
		for(int i=0;i<nth;i++) if(th[i].state==T_RUN) c[n++]=i;
	}
	int to=c[0];
	uint64_t idx=S->cnt[D_PICK]++;
	if(g_replay){ int v=rlookup(D_PICK,idx); if(v>0&&v<=nth&&th[v-1].state==T_RUN) to=v-1; else if(v<0){ int w=-v-1; if(w<nth && (th[w].state==T_SLEEP||(th[w].state==T_BLOCK&&th[w].timed))){ if(th[w].deadline>sim_now) sim_now=th[w].deadline; wake_due(); if(th[w].state==T_RUN) to=w; } } if(v) record(D_PICK,idx,v); }
	else if(n>1 || P_sleepwake>0){
		/* occasionally let a sleeper run first: the others are slow */
		int sl[MAXT],ns=0; for(int i=0;i<nth;i++) if(th[i].state==T_SLEEP||(th[i].state==T_BLOCK&&th[i].timed)) sl[ns++]=i;
		if(ns>0 && rnd01()<P_sleepwake){ int w=sl[rnd()%ns]; sim_now= th[w].deadline>sim_now?th[w].deadline:sim_now; wake_due(); to=w; record(D_PICK,idx,-(w+1)); S->stallpicks++; }
		else if(n>1){ int v=pick_weighted(c,n); if(v!=to){ to=v; record(D_PICK,idx,v+1); } }
	}
	do_switch(to);
}
static int others(int* c,int withsleepers){ int n=0; for(int i=0;i<nth;i++) if(i!=cur && (th[i].state==T_RUN || (withsleepers&&(th[i].state==T_SLEEP||(th[i].state==T_BLOCK&&th[i].timed))))) c[n++]=i; return n; }
static void preempt_to(int v){
	if(th[v].state!=T_RUN){ if(th[v].state!=T_SLEEP && !(th[v].state==T_BLOCK&&th[v].timed)) return; if(th[v].deadline>sim_now) sim_now=th[v].deadline; wake_due(); if(th[v].state!=T_RUN) return; }
	do_switch(v);
}
/* a synchronisation-level yield point */
static void sync_point(void){
	if(!g_active||!self) return;
	S->syncs++; bump_step(); sim_now+=1000; wake_due();
	uint64_t idx=S->cnt[D_SYNC]++;
	if(self->nopreempt) return;
	if(g_replay){ int v=rlookup(D_SYNC,idx); if(v){ record(D_SYNC,idx,v); if(v<=nth && v-1!=cur) preempt_to(v-1); } refresh_mt(); return; }
	int c[MAXT]; 
	if(rnd01()<P_sync){ int n=others(c,rnd01()<P_sleepwake); if(n){ int v=pick_weighted(c,n); record(D_SYNC,idx,v+1); S->preempt_sync++; preempt_to(v); } }
	refresh_mt();
}
static void block_on(const void* obj,uint64_t deadline,bool timed){ T* me=self; me->waitobj=obj; me->timed=timed; me->deadline=deadline; me->timedout=false; me->state=T_BLOCK; schedule_block(); me->waitobj=NULL; me->timed=false; }
static void wake_all(const void* obj){ for(int i=0;i<nth;i++) if(th[i].state==T_BLOCK&&th[i].waitobj==obj){ th[i].state=T_RUN; th[i].timedout=false; } refresh_mt(); }

/* ---- memory access points ---- */
#define CT 65536
static struct { uintptr_t a; uint32_t epoch; uint8_t tid; uint8_t w; } ctab[CT];
static uint8_t confpc[65536]; static uint32_t epoch=1;
static void mem_fire(int forced){
	T* me=self; if(!me) return;
	uint64_t idx=S->cnt[D_MEM];
	if(g_replay){ int v=rlookup(D_MEM,idx); arm_mem(); if(v){ record(D_MEM,idx,v); bump_step(); if(v<=nth&&v-1!=cur&&!me->nopreempt) preempt_to(v-1); } return; }
	if(!forced) arm_mem();
	if(me->nopreempt) return;
	int c[MAXT]; int n=others(c,!forced && rnd01()<P_sleepwake); if(!n) return;
	int v=pick_weighted(c,n); record(D_MEM,idx,v+1); S->preempt_mem++; bump_step(); preempt_to(v);
}
__attribute__((noinline)) static void mem_event(uintptr_t a,int w,uintptr_t pc){
	if(UNLIKELY(!self)) return;
	uint64_t k=++S->cnt[D_MEM]; S->mems++;
	if(UNLIKELY(k>=memlimit)){ S->livelock=1; ysim_fail_exit("no progress: memory access limit exceeded",EXIT_LIVELOCK); }
	if(UNLIKELY(++fair_cnt>FAIR)){ fair_cnt=0; int c[MAXT],n=others(c,0); if(n&&!self->nopreempt){ int to=c[0]; for(int i=0;i<n;i++) if(c[i]>cur){ to=c[i]; break; } bump_step(); sim_now+=1000; do_switch(to); return; } else { sim_now+=100000; wake_due(); refresh_mt(); } }
	if(UNLIKELY(k>=next_mem)){ mem_fire(0); return; }
	if(g_replay||P_conf<=0) return;
	uint32_t p=(uint32_t)((pc*0x9E3779B1u)>>8)&65535;
	uintptr_t g=a>>3; uint32_t h=(uint32_t)((g*0x9E3779B97F4A7C15ULL)>>40)&(CT-1);
	if(ctab[h].a==g && ctab[h].epoch==epoch){
		if(ctab[h].tid!=(uint8_t)self->id && (ctab[h].w|w)){ if(!confpc[p]){ confpc[p]=1; S->conflicts++; } }
		if(ctab[h].tid!=(uint8_t)self->id){ ctab[h].tid=self->id; ctab[h].w=w; } else ctab[h].w|=w;
	} else { ctab[h].a=g; ctab[h].epoch=epoch; ctab[h].tid=self->id; ctab[h].w=w; }
	if(UNLIKELY(confpc[p]) && rnd01()<P_conf) mem_fire(1);
}
extern int ysim_memcheck; int ysim_memcheck=0;
void ysim_check_access(uintptr_t a,size_t n,int w,void* pc);
#define ACC(a,n,w) do{ if(UNLIKELY(ysim_memcheck)) ysim_check_access((uintptr_t)(a),n,w,__builtin_return_address(0)); if(UNLIKELY(ysim_mt)) mem_event((uintptr_t)(a),w,(uintptr_t)__builtin_return_address(0)); }while(0)
EXPORT void __tsan_init(void){} EXPORT void __tsan_func_entry(void*p){} EXPORT void __tsan_func_exit(void){}
#define RW(n) EXPORT void __tsan_read##n(void*a){ ACC(a,n,0);} EXPORT void __tsan_write##n(void*a){ ACC(a,n,1);} EXPORT void __tsan_unaligned_read##n(void*a){ ACC(a,n,0);} EXPORT void __tsan_unaligned_write##n(void*a){ ACC(a,n,1);} EXPORT void __tsan_volatile_read##n(void*a){ ACC(a,n,0);} EXPORT void __tsan_volatile_write##n(void*a){ ACC(a,n,1);} 
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_vptr_update(void**a,void*v){ ACC(a,8,1);} EXPORT void __tsan_vptr_read(void**a){ ACC(a,8,0);} EXPORT void __tsan_read_range(void*a,long n){ if(n>0) ACC(a,n,0);} EXPORT void __tsan_write_range(void*a,long n){ if(n>0) ACC(a,n,1);}
#define ATOM(N,TY) \
EXPORT TY __tsan_atomic##N##_load(const volatile TY*a,int mo){ ACC(a,N/8,0); return *a; } \
EXPORT void __tsan_atomic##N##_store(volatile TY*a,TY v,int mo){ ACC(a,N/8,1); *a=v; } \
EXPORT TY __tsan_atomic##N##_exchange(volatile TY*a,TY v,int mo){ ACC(a,N/8,1); TY o=*a; *a=v; return o; } \
EXPORT TY __tsan_atomic##N##_fetch_add(volatile TY*a,TY v,int mo){ ACC(a,N/8,1); TY o=*a; *a=o+v; return o; } \
EXPORT TY __tsan_atomic##N##_fetch_sub(volatile TY*a,TY v,int mo){ ACC(a,N/8,1); TY o=*a; *a=o-v; return o; } \
EXPORT TY __tsan_atomic##N##_fetch_and(volatile TY*a,TY v,int mo){ ACC(a,N/8,1); TY o=*a; *a=o&v; return o; } \
EXPORT TY __tsan_atomic##N##_fetch_or(volatile TY*a,TY v,int mo){ ACC(a,N/8,1); TY o=*a; *a=o|v; return o; } \
EXPORT TY __tsan_atomic##N##_fetch_xor(volatile TY*a,TY v,int mo){ ACC(a,N/8,1); TY o=*a; *a=o^v; return o; } \
EXPORT TY __tsan_atomic##N##_fetch_nand(volatile TY*a,TY v,int mo){ ACC(a,N/8,1); TY o=*a; *a=~(o&v); return o; } \
EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile TY*a,TY*e,TY v,int mo,int f){ ACC(a,N/8,1); if(*a==*e){ *a=v; return 1;} *e=*a; return 0; } \
EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile TY*a,TY*e,TY v,int mo,int f){ ACC(a,N/8,1); if(*a==*e){ *a=v; return 1;} *e=*a; return 0; } \
EXPORT TY __tsan_atomic##N##_compare_exchange_val(volatile TY*a,TY e,TY v,int mo,int f){ ACC(a,N/8,1); TY o=*a; if(o==e) *a=v; return o; }
ATOM(8,uint8_t) ATOM(16,uint16_t) ATOM(32,uint32_t) ATOM(64,uint64_t)
EXPORT void __tsan_atomic_thread_fence(int mo){} EXPORT void __tsan_atomic_signal_fence(int mo){}

/* ---- threads ---- */
static void tsd_exit(void* v){
	T* t=(T*)v; if(++t->tsdround<PTHREAD_DESTRUCTOR_ITERATIONS){ pthread_setspecific(tsdkey,t); return; }
	if(!g_active) return;
	t->state=T_DONE; wake_all(t); hash2(0xdead,t->id); schedule_block();
}
static T* new_T(void){
	for(int i=0;i<nth;i++) if(th[i].state==T_FREE){ memset(&th[i],0,sizeof(T)); th[i].id=i; th[i].weight=1; return &th[i]; }
	if(nth>=MAXT){ ysim_fail_exit("too many simulated threads",79); }
	T* t=&th[nth]; memset(t,0,sizeof *t); t->id=nth++; t->weight=1; return t;
}
static double weight_for_new(void); 
static void* tramp(void* a){ T* t=a; self=t; pthread_setspecific(tsdkey,t); fwaitf(t); return t->fn(t->arg); }
EXPORT int pthread_create(pthread_t* p,const pthread_attr_t* at,void*(*fn)(void*),void* arg){
	NEED(pthread_create); if(!g_active) return r_pthread_create(p,at,fn,arg);
	T* t=new_T(); t->fn=fn; t->arg=arg; t->state=T_RUN; t->weight=weight_for_new(); S->threads_created++;
	int r=r_pthread_create(&t->real,at,tramp,t); if(r){ t->state=T_FREE; return r; }
	*p=t->real; hash2(0xc0,t->id); refresh_mt(); sync_point(); return 0;
}
EXPORT int pthread_join(pthread_t p,void** ret){
	NEED(pthread_join); if(!g_active) return r_pthread_join(p,ret);
	T* t=NULL; for(int i=0;i<nth;i++) if(th[i].state!=T_FREE && th[i].real==p && !th[i].pool && i!=0) t=&th[i];
	if(t) while(t->state!=T_DONE) block_on(t,0,false);
	int r=r_pthread_join(p,ret); if(t) t->real=0; return r;
}
/* ---- mutexes: the state lives in the real object; blocking is ours ---- */
EXPORT int pthread_mutex_lock(pthread_mutex_t* m){
	NEED(pthread_mutex_lock); NEED(pthread_mutex_trylock); if(!g_active||!self) return r_pthread_mutex_lock(m);
	sync_point(); int r; while((r=r_pthread_mutex_trylock(m))==EBUSY){ S->mutexblocks++; block_on(m,0,false); } return r;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m){ NEED(pthread_mutex_trylock); if(g_active&&self) sync_point(); return r_pthread_mutex_trylock(m); }
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m){ NEED(pthread_mutex_unlock); int r=r_pthread_mutex_unlock(m); if(g_active&&self){ wake_all(m); sync_point(); } return r; }
static uint64_t ts2sim(clockid_t c,const struct timespec* t){ int64_t v=(int64_t)t->tv_sec*1000000000LL+t->tv_nsec; if(c==CLOCK_REALTIME) v+=(int64_t)sim_now-WALL; return v<0?0:(uint64_t)v; }
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m,const struct timespec* t){
	NEED(pthread_mutex_timedlock); NEED(pthread_mutex_trylock); if(!g_active||!self) return r_pthread_mutex_timedlock(m,t);
	sync_point(); int r; while((r=r_pthread_mutex_trylock(m))==EBUSY){ block_on(m,ts2sim(CLOCK_REALTIME,t),true); if(self->timedout) return ETIMEDOUT; } return r;
}
/* ---- condition variables ---- */
static int condseq=0;
static int cond_wait(pthread_cond_t* c,pthread_mutex_t* m,uint64_t dl,bool timed){
	NEED(pthread_mutex_unlock); NEED(pthread_mutex_trylock);
	T* me=self; me->signalled=false; me->condseq=++condseq;
	r_pthread_mutex_unlock(m); wake_all(m);
	uint64_t idx=S->cnt[D_SPUR]++; int sp=0; if(g_replay){ sp=rlookup(D_SPUR,idx); } else if(P_spur>0&&rnd01()<P_spur) sp=1;
	if(sp){ record(D_SPUR,idx,1); S->spurious++; sync_point(); }
	else { block_on(c,dl,timed); }
	int to= me->timedout && !me->signalled && !sp;
	while(r_pthread_mutex_trylock(m)==EBUSY) block_on(m,0,false);
	return to?ETIMEDOUT:0;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m){ NEED(pthread_cond_wait); if(!g_active||!self) return r_pthread_cond_wait(c,m); return cond_wait(c,m,0,false); }
/* which clock a condvar uses: glibc keeps it in bit 1 of __wrefs */
static clockid_t condclock(pthread_cond_t* c){ return (c->__data.__wrefs & 2)?CLOCK_MONOTONIC:CLOCK_REALTIME; }
EXPORT int pthread_cond_timedwait(pthread_cond_t* c,pthread_mutex_t* m,const struct timespec* t){ NEED(pthread_cond_timedwait); if(!g_active||!self) return r_pthread_cond_timedwait(c,m,t); return cond_wait(c,m,ts2sim(condclock(c),t),true); }
EXPORT int pthread_cond_clockwait(pthread_cond_t* c,pthread_mutex_t* m,clockid_t k,const struct timespec* t){ NEED(pthread_cond_clockwait); if(!g_active||!self) return r_pthread_cond_clockwait(c,m,k,t); return cond_wait(c,m,ts2sim(k,t),true); }
EXPORT int pthread_cond_signal(pthread_cond_t* c){
	NEED(pthread_cond_signal); if(!g_active||!self) return r_pthread_cond_signal(c);
	int w[MAXT],n=0; for(int i=0;i<nth;i++) if(th[i].state==T_BLOCK&&th[i].waitobj==c) w[n++]=i;
	if(n){ int b=w[0]; for(int i=1;i<n;i++) if(th[w[i]].condseq<th[b].condseq) b=w[i];
		if(n>1){ uint64_t idx=S->cnt[D_WAKE]++; if(g_replay){ int v=rlookup(D_WAKE,idx); for(int i=0;i<n;i++) if(w[i]==v-1) b=v-1; if(v) record(D_WAKE,idx,v);} else { int v=w[rnd()%n]; if(v!=b){ b=v; record(D_WAKE,idx,v+1);} } }
		th[b].signalled=true; th[b].timedout=false; th[b].state=T_RUN; refresh_mt(); }
	sync_point(); return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c){ NEED(pthread_cond_broadcast); if(!g_active||!self) return r_pthread_cond_broadcast(c); for(int i=0;i<nth;i++) if(th[i].state==T_BLOCK&&th[i].waitobj==c){ th[i].signalled=true; th[i].timedout=false; th[i].state=T_RUN; } refresh_mt(); sync_point(); return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t* c){ NEED(pthread_cond_destroy); if(!g_active||!self) return r_pthread_cond_destroy(c); return 0; }
/* ---- semaphores ---- */
static int simsem(sem_t* s,uint64_t dl,bool timed){ NEED(sem_trywait); sync_point(); while(r_sem_trywait(s)!=0){ block_on(s,dl,timed); if(timed&&self->timedout){ if(r_sem_trywait(s)==0) return 0; errno=ETIMEDOUT; return -1; } } return 0; }
EXPORT int sem_wait(sem_t* s){ NEED(sem_wait); if(!g_active||!self) return r_sem_wait(s); return simsem(s,0,false); }
EXPORT int sem_trywait(sem_t* s){ NEED(sem_trywait); if(g_active&&self) sync_point(); return r_sem_trywait(s); }
EXPORT int sem_timedwait(sem_t* s,const struct timespec* t){ NEED(sem_timedwait); if(!g_active||!self) return r_sem_timedwait(s,t); return simsem(s,ts2sim(CLOCK_REALTIME,t),true); }
EXPORT int sem_clockwait(sem_t* s,clockid_t k,const struct timespec* t){ NEED(sem_clockwait); if(!g_active||!self) return r_sem_clockwait(s,k,t); return simsem(s,ts2sim(k,t),true); }
EXPORT int sem_post(sem_t* s){ NEED(sem_post); int r=r_sem_post(s); if(g_active&&self){ wake_all(s); sync_point(); } return r; }
/* ---- once / static guards ---- */
EXPORT int pthread_once(pthread_once_t* o,void(*f)(void)){
	NEED(pthread_once); if(!g_active||!self) return r_pthread_once(o,f);
	/* glibc: 2 = done, 1 = in progress */
	while(1){ int v=*(int*)o; if(v==2) return 0; if(v==0){ *(int*)o=1; f(); *(int*)o=2; wake_all(o); return 0; } block_on(o,0,false); }
}
EXPORT int __cxa_guard_acquire(uint64_t* g){
	while(1){ if(*(char*)g) return 0; if(((char*)g)[1]==0){ ((char*)g)[1]=1; return 1; } if(!g_active||!self){ sched_yield(); continue; } block_on(g,0,false); }
}
EXPORT void __cxa_guard_release(uint64_t* g){ ((char*)g)[1]=0; *(char*)g=1; if(g_active&&self) wake_all(g); }
EXPORT void __cxa_guard_abort(uint64_t* g){ ((char*)g)[1]=0; if(g_active&&self) wake_all(g); }
/* ---- time ---- */
static void sim_sleep_until(uint64_t dl){ T* me=self; me->deadline=dl; me->state=T_SLEEP; schedule_block(); }
EXPORT int nanosleep(const struct timespec* r,struct timespec* m){ NEED(nanosleep); if(!g_active||!self) return r_nanosleep(r,m); sim_sleep_until(sim_now+(uint64_t)r->tv_sec*1000000000ull+r->tv_nsec); if(m) m->tv_sec=m->tv_nsec=0; return 0; }
EXPORT int clock_nanosleep(clockid_t k,int fl,const struct timespec* r,struct timespec* m){ NEED(clock_nanosleep); if(!g_active||!self) return r_clock_nanosleep(k,fl,r,m); sim_sleep_until((fl&TIMER_ABSTIME)?ts2sim(k,r):sim_now+(uint64_t)r->tv_sec*1000000000ull+r->tv_nsec); return 0; }
EXPORT int usleep(useconds_t u){ NEED(usleep); if(!g_active||!self) return r_usleep(u); sim_sleep_until(sim_now+(uint64_t)u*1000); return 0; }
EXPORT unsigned sleep(unsigned s){ NEED(sleep); if(!g_active||!self) return r_sleep(s); sim_sleep_until(sim_now+(uint64_t)s*1000000000ull); return 0; }
EXPORT int sched_yield(void){ NEED(sched_yield); if(!g_active||!self) return r_sched_yield(); int c[MAXT],n=others(c,0); if(n){ bump_step(); sim_now+=1000; int to=c[0]; for(int i=0;i<n;i++) if(c[i]>cur){ to=c[i]; break; } do_switch(to);} else sim_now+=1000; return 0; }
static void clock_read(void){
	sim_now+=200;
	uint64_t idx=S->cnt[D_CLOCK]++; int v=0;
	if(g_replay) v=rlookup(D_CLOCK,idx); else if(P_clock>0 && rnd01()<P_clock) v=1+rnd()%8;
	if(v){ record(D_CLOCK,idx,v); rt_offset+=clock_jumps[v-1]; if(rt_offset<1000000000LL*1000000000LL) rt_offset=1600000000LL*1000000000LL; S->clockjumps++; }
}
EXPORT int gettimeofday(struct timeval* tv,void* tz){ NEED(gettimeofday); if(!g_active) return r_gettimeofday(tv,tz); clock_read(); int64_t n=WALL; tv->tv_sec=n/1000000000LL; tv->tv_usec=(n%1000000000LL)/1000; return 0; }
EXPORT int clock_gettime(clockid_t k,struct timespec* t){ NEED(clock_gettime); if(!g_active) return r_clock_gettime(k,t); int64_t n; if(k==CLOCK_REALTIME||k==CLOCK_REALTIME_COARSE||k==CLOCK_TAI){ clock_read(); n=WALL; } else { sim_now+=200; n=sim_now; } t->tv_sec=n/1000000000LL; t->tv_nsec=n%1000000000LL; return 0; }
EXPORT time_t time(time_t* p){ NEED(time); time_t r; if(!g_active) r=r_time(NULL); else { clock_read(); r=WALL/1000000000LL; } if(p) *p=r; return r; }

/* ---- OpenMP ---- */
#define MYT (g_active&&self?self:NULL)
static void omp_barrier_team(Team* tm){
	if(tm->n==1) return;
	sync_point();
	long g=tm->gen; if(++tm->arrived==tm->n){ tm->arrived=0; tm->gen++; epoch++; wake_all(tm); } else while(tm->gen==g) block_on(tm,0,false);
}
static void* pool_main(void* a){
	T* t=a; self=t; fwaitf(t);
	for(;;){ 
		t->ompfn(t->ompdata); Team* tm=t->team; tm->done++; wake_all(&tm->done); t->team=NULL; t->state=T_IDLE; schedule_block();
	}
	return NULL;
}
static void team_run(void(*fn)(void*),void* data,unsigned n,void(*init)(Team*,void*),void* ia){
	T* me=MYT;
	if(!me){ fn(data); return; }
	if(n==0) n=g_nthreads; if(me->team && me->team->n>1 && !g_nested) n=1; if(me->team&&g_nested&&0) n=1;
	if(n>32) n=32;
	Team* tm=calloc(1,sizeof(Team)); tm->n=n; tm->up=me->team; tm->uptid=me->tid; tm->up_loopcnt=me->loopcnt; tm->up_singlecnt=me->singlecnt;
	if(init) init(tm,ia);
	S->parallel_regions++; epoch++;
	me->team=tm; me->tid=0; me->loopcnt=0; me->singlecnt=0;
	for(unsigned k=1;k<n;k++){
		T* t=NULL; for(int i=0;i<nth;i++) if(th[i].pool&&th[i].state==T_IDLE){ t=&th[i]; break; }
		bool fresh=false; if(!t){ t=new_T(); t->pool=true; t->weight=weight_for_new(); fresh=true; }
		t->ompfn=fn; t->ompdata=data; t->team=tm; t->tid=k; t->loopcnt=0; t->singlecnt=0; t->state=T_RUN;
		if(fresh){ NEED(pthread_create); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,8<<20); S->threads_created++; if(r_pthread_create(&t->real,&at,pool_main,t)) ysim_fail_exit("pthread_create failed",79); pthread_attr_destroy(&at); }
	}
	refresh_mt(); sync_point();
	fn(data);
	if(n>1){ sync_point(); while(tm->done<(int)n-1) block_on(&tm->done,0,false); }
	me->team=tm->up; me->tid=tm->uptid; me->loopcnt=tm->up_loopcnt; me->singlecnt=tm->up_singlecnt; epoch++;
	refresh_mt(); free(tm);
}
EXPORT void GOMP_parallel(void(*fn)(void*),void* data,unsigned n,unsigned flags){ team_run(fn,data,n,NULL,NULL); }
EXPORT unsigned GOMP_parallel_reductions(void(*fn)(void*),void* data,unsigned n,unsigned flags){ team_run(fn,data,n,NULL,NULL); return n?n:g_nthreads; }
static Team serial_team; 
static Team* team(void){ T* t=MYT; if(t&&t->team) return t->team; serial_team.n=1; return &serial_team; }
static long serial_loopcnt=0;
static struct LoopWS* ws_cur(void){ T* t=MYT; Team* tm=team(); long c= t?t->loopcnt:serial_loopcnt; return &tm->ws[c&63]; }
static bool ws_next(struct LoopWS* w,long* s,long* e){
	sync_point(); S->chunks++;
	Team* tm=team(); long incr=w->incr; long left= incr>0 ? (w->end-w->next+incr-1)/incr : (w->end-w->next+incr+1)/incr; if((incr>0&&w->next>=w->end)||(incr<0&&w->next<=w->end)||left<=0) return false;
	long k=w->chunk<1?1:w->chunk; if(w->sched==3){ long q=(left+tm->n-1)/tm->n; if(q>k) k=q; } if(k>left) k=left;
	*s=w->next; w->next+=k*incr; *e=w->next; if((incr>0&&*e>w->end)||(incr<0&&*e<w->end)) *e=w->end; return true;
}
static void ws_setup(struct LoopWS* w,long s,long e,long i,long c,int sched,Team* tm){ w->init=true; w->next=s; w->end=e; w->incr=i; w->chunk=c; w->sched=sched; w->finished=0; if(sched==1 && c<1){ long tot= i>0?(e-s+i-1)/i:(e-s+i+1)/i; w->chunk=(tot+tm->n-1)/tm->n; } }
static bool loop_start(long s,long e,long i,long c,int sched,long* is,long* ie){ Team* tm=team(); struct LoopWS* w=ws_cur(); if(!w->init) ws_setup(w,s,e,i,c,sched,tm); return ws_next(w,is,ie); }
static bool loop_next(long* is,long* ie){ return ws_next(ws_cur(),is,ie); }
static void loop_end_nowait(void){ T* t=MYT; Team* tm=team(); struct LoopWS* w=ws_cur(); if(++w->finished==tm->n){ memset(w,0,sizeof *w); } if(t) t->loopcnt++; else serial_loopcnt++; }
#define LOOPS(nm,sc) \
EXPORT bool GOMP_loop_##nm##_start(long s,long e,long i,long c,long*is,long*ie){ return loop_start(s,e,i,c,sc,is,ie);} \
EXPORT bool GOMP_loop_##nm##_next(long*is,long*ie){ return loop_next(is,ie);} \
struct pl_##nm { long s,e,i,c; }; static void plinit_##nm(Team* t,void* a){ struct pl_##nm* p=a; ws_setup(&t->ws[0],p->s,p->e,p->i,p->c,sc,t);} \
EXPORT void GOMP_parallel_loop_##nm(void(*fn)(void*),void*d,unsigned n,long s,long e,long i,long c,unsigned f){ struct pl_##nm p={s,e,i,c}; if(!MYT){ serial_team.n=1; ws_setup(&serial_team.ws[serial_loopcnt&63],s,e,i,c,sc,&serial_team); } team_run(fn,d,n,plinit_##nm,&p);} \
EXPORT bool GOMP_loop_ull_##nm##_start(bool up,unsigned long s,unsigned long e,unsigned long i,unsigned long c,unsigned long*is,unsigned long*ie){ return loop_start(s,e,i,c,sc,(long*)is,(long*)ie);} \
EXPORT bool GOMP_loop_ull_##nm##_next(unsigned long*is,unsigned long*ie){ return loop_next((long*)is,(long*)ie);}
LOOPS(static,1) LOOPS(dynamic,2) LOOPS(guided,3) LOOPS(nonmonotonic_dynamic,2) LOOPS(nonmonotonic_guided,3)
#define LOOPR(nm) \
EXPORT bool GOMP_loop_##nm##_start(long s,long e,long i,long*is,long*ie){ return loop_start(s,e,i,1,2,is,ie);} \
EXPORT bool GOMP_loop_##nm##_next(long*is,long*ie){ return loop_next(is,ie);} \
struct pl_##nm { long s,e,i; }; static void plinit_##nm(Team* t,void* a){ struct pl_##nm* p=a; ws_setup(&t->ws[0],p->s,p->e,p->i,1,2,t);} \
EXPORT void GOMP_parallel_loop_##nm(void(*fn)(void*),void*d,unsigned n,long s,long e,long i,unsigned f){ struct pl_##nm p={s,e,i}; if(!MYT){ ws_setup(&serial_team.ws[serial_loopcnt&63],s,e,i,1,2,&serial_team); } team_run(fn,d,n,plinit_##nm,&p);} \
EXPORT bool GOMP_loop_ull_##nm##_start(bool up,unsigned long s,unsigned long e,unsigned long i,unsigned long*is,unsigned long*ie){ return loop_start(s,e,i,1,2,(long*)is,(long*)ie);} \
EXPORT bool GOMP_loop_ull_##nm##_next(unsigned long*is,unsigned long*ie){ return loop_next((long*)is,(long*)ie);}
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
EXPORT void GOMP_loop_end_nowait(void){ loop_end_nowait(); }
EXPORT void GOMP_loop_end(void){ loop_end_nowait(); omp_barrier_team(team()); }
EXPORT unsigned GOMP_sections_start(unsigned n){ long a,b; return loop_start(1,n+1,1,1,2,&a,&b)?a:0; }
EXPORT unsigned GOMP_sections_next(void){ long a,b; return loop_next(&a,&b)?a:0; }
static void psinit(Team* t,void* a){ ws_setup(&t->ws[0],1,*(unsigned*)a+1,1,1,2,t); }
EXPORT void GOMP_parallel_sections(void(*fn)(void*),void*d,unsigned n,unsigned cnt,unsigned f){ if(!MYT) ws_setup(&serial_team.ws[serial_loopcnt&63],1,cnt+1,1,1,2,&serial_team); team_run(fn,d,n,psinit,&cnt); }
EXPORT void GOMP_sections_end(void){ GOMP_loop_end(); } EXPORT void GOMP_sections_end_nowait(void){ loop_end_nowait(); }
EXPORT bool GOMP_single_start(void){ T* t=MYT; if(!t) return true; sync_point(); Team* tm=team(); if(tm->singledone==t->singlecnt){ tm->singledone++; t->singlecnt++; return true; } t->singlecnt++; return false; }
EXPORT void* GOMP_single_copy_start(void){ T* t=MYT; if(!t) return NULL; if(GOMP_single_start()) return NULL; omp_barrier_team(team()); return team()->copypriv; }
EXPORT void GOMP_single_copy_end(void* d){ T* t=MYT; if(!t) return; team()->copypriv=d; omp_barrier_team(team()); }
EXPORT void GOMP_barrier(void){ if(MYT) omp_barrier_team(team()); }
EXPORT bool GOMP_barrier_cancel(void){ GOMP_barrier(); return false; } EXPORT bool GOMP_cancel(int w,bool d){ return false; } EXPORT bool GOMP_cancellation_point(int w){ return false; }
/* critical sections: simple simulated locks keyed by address */
typedef struct { T* owner; int n; } Crit; static Crit crit_default, crit_atomic;
static void crit_lock(Crit* c){ T* t=MYT; if(!t) return; sync_point(); while(c->owner) block_on(c,0,false); c->owner=t; }
static void crit_unlock(Crit* c){ T* t=MYT; if(!t) return; c->owner=NULL; wake_all(c); sync_point(); }
EXPORT void GOMP_critical_start(void){ crit_lock(&crit_default);} EXPORT void GOMP_critical_end(void){ crit_unlock(&crit_default);}
EXPORT void GOMP_atomic_start(void){ crit_lock(&crit_atomic);} EXPORT void GOMP_atomic_end(void){ crit_unlock(&crit_atomic);}
static Crit* namedcrit(void** p){ if(!*p) *p=calloc(1,sizeof(Crit)); return *p; }
EXPORT void GOMP_critical_name_start(void** p){ crit_lock(namedcrit(p)); } EXPORT void GOMP_critical_name_end(void** p){ crit_unlock(namedcrit(p)); }
EXPORT void GOMP_ordered_start(void){} EXPORT void GOMP_ordered_end(void){}
EXPORT void GOMP_task(void(*fn)(void*),void*d,void(*cpy)(void*,void*),long sz,long al,bool ifc,unsigned fl,void**dep,int prio){ char b[sz+al+1]; char* a=(char*)(((uintptr_t)b+al-1)&~(uintptr_t)(al-1)); if(cpy) cpy(a,d); else memcpy(a,d,sz); fn(a); }
EXPORT void GOMP_taskwait(void){} EXPORT void GOMP_taskgroup_start(void){} EXPORT void GOMP_taskgroup_end(void){} EXPORT void GOMP_taskyield(void){}
EXPORT int omp_get_thread_num(void){ T* t=MYT; return t&&t->team?t->tid:0; }
EXPORT int omp_get_num_threads(void){ T* t=MYT; return t&&t->team?t->team->n:1; }
EXPORT int omp_get_max_threads(void){ return g_nthreads; }
EXPORT void omp_set_num_threads(int n){ if(n>0) g_nthreads=n; }
EXPORT int omp_get_num_procs(void){ return 8; } EXPORT int omp_get_thread_limit(void){ return 64; }
EXPORT int omp_in_parallel(void){ T* t=MYT; return t&&t->team&&t->team->n>1; }
EXPORT void omp_set_nested(int v){} EXPORT int omp_get_nested(void){ return 0; } EXPORT void omp_set_dynamic(int v){} EXPORT int omp_get_dynamic(void){ return 0; }
EXPORT int omp_get_level(void){ T* t=MYT; int l=0; for(Team* m=t?t->team:NULL;m;m=m->up) l++; return l; } EXPORT int omp_get_active_level(void){ return omp_in_parallel(); } EXPORT void omp_set_max_active_levels(int n){} EXPORT int omp_get_max_active_levels(void){ return 1; }
EXPORT double omp_get_wtime(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; } EXPORT double omp_get_wtick(void){ return 1e-9; }
EXPORT int omp_get_cancellation(void){ return 0; } EXPORT void omp_set_schedule(int k,int c){} EXPORT void omp_get_schedule(int*k,int*c){ *k=2; *c=1; }
typedef struct { Crit c; } OL;
EXPORT void omp_init_lock(void** l){ *l=calloc(1,sizeof(Crit)); } EXPORT void omp_destroy_lock(void** l){ free(*l); *l=NULL; } EXPORT void omp_set_lock(void** l){ crit_lock(*l);} EXPORT void omp_unset_lock(void** l){ crit_unlock(*l);}
EXPORT int omp_test_lock(void** l){ Crit* c=*l; if(!MYT) return 1; sync_point(); if(c->owner) return 0; c->owner=MYT; return 1; }
typedef struct { Crit* c; } ONL; /* nested locks: omp_nest_lock_t is 16+ bytes */
EXPORT void omp_init_nest_lock(ONL* l){ l->c=calloc(1,sizeof(Crit)); } EXPORT void omp_destroy_nest_lock(ONL* l){ free(l->c); }
EXPORT void omp_set_nest_lock(ONL* l){ T* t=MYT; if(!t) return; if(l->c->owner==t){ l->c->n++; return; } crit_lock(l->c); l->c->n=1; } EXPORT void omp_unset_nest_lock(ONL* l){ if(!MYT) return; if(--l->c->n==0) crit_unlock(l->c); }

/* ---- file I/O faults ---- */
#define MAXFD 1024
static uint8_t tracked[MAXFD]; static uint8_t sticky[MAXFD]; /* sticky: errno of a failed disk that stays failed */
static char io_prefix[512]=""; static double P_io=0; static uint32_t io_mask=0; static int io_on=0; static int64_t disk_left=-1; static int io_readonly_chunks=0;
static int64_t crash_left=-1; /* bytes that still reach the disk before the process dies */
static uint64_t io_budget=0; /* number of faults still allowed */
enum { IO_OPEN=1, IO_WRITE_ENOSPC, IO_WRITE_EIO, IO_WRITE_SHORT, IO_READ_EIO, IO_READ_SHORT, IO_CLOSE_EIO, IO_FSYNC_EIO, IO_EINTR, IO_READ_EOF };
static int io_decide(int site){ /* site: 0 open 1 write 2 read 3 close 4 fsync; returns the fault kind or 0 */
	static const uint8_t kinds[5][5]={{IO_OPEN,0},{IO_WRITE_ENOSPC,IO_WRITE_EIO,IO_WRITE_SHORT,IO_EINTR,0},{IO_READ_EIO,IO_READ_SHORT,IO_READ_EOF,IO_EINTR,0},{IO_CLOSE_EIO,0},{IO_FSYNC_EIO,0}};
	uint64_t idx=S->cnt[D_IO]++; int v=0;
	if(g_replay) v=rlookup(D_IO,idx);
	else if(io_budget>0 && P_io>0 && rnd01()<P_io){ uint8_t c[5]; int n=0; for(int i=0;i<5&&kinds[site][i];i++) if(io_mask&(1u<<kinds[site][i])) c[n++]=kinds[site][i]; if(n) v=c[rnd()%n]; }
	if(v){ bool ok=false; for(int i=0;i<5&&kinds[site][i];i++) if(kinds[site][i]==v) ok=true; if(!ok) v=0; }
	if(v){ record(D_IO,idx,v); S->faults[v]++; if(io_budget) io_budget--; hash2(0x10,v); }
	return v;
}
static bool io_path(const char* p){ return io_on && io_prefix[0] && p && strncmp(p,io_prefix,strlen(io_prefix))==0; }
static void track(int fd){ if(fd>=0&&fd<MAXFD){ tracked[fd]=1; sticky[fd]=0; } }
#define TR(fd) (io_on&&(fd)>=0&&(fd)<MAXFD&&tracked[fd])
static int do_open(const char* p,int fl,int mode){ NEED(open); if(io_path(p)){ if(io_decide(0)){ errno=EACCES; return -1; } int fd=r_open(p,fl,mode); track(fd); return fd; } return r_open(p,fl,mode); }
#define MODE(fl,last) int mode=0; if((fl)&(O_CREAT|O_TMPFILE)){ va_list ap; va_start(ap,last); mode=va_arg(ap,int); va_end(ap); }
EXPORT int open(const char* p,int fl,...){ MODE(fl,fl); return do_open(p,fl,mode); }
EXPORT int open64(const char* p,int fl,...){ MODE(fl,fl); return do_open(p,fl|O_LARGEFILE,mode); }
EXPORT int openat(int d,const char* p,int fl,...){ NEED(openat); MODE(fl,fl); if(io_path(p)) return do_open(p,fl,mode); return r_openat(d,p,fl,mode); }
static FILE* do_fopen(const char* p,const char* m){ NEED(fopen64); if(io_path(p)){ if(io_decide(0)){ errno=EACCES; return NULL; } FILE* f=r_fopen64(p,m); if(f) track(fileno(f)); return f; } return r_fopen64(p,m); }
EXPORT FILE* fopen(const char* p,const char* m){ return do_fopen(p,m); } EXPORT FILE* fopen64(const char* p,const char* m){ return do_fopen(p,m); }
EXPORT int fclose(FILE* f){ NEED(fclose); int fd=f?fileno(f):-1; if(TR(fd)){ int v=io_decide(3); tracked[fd]=0; int r=r_fclose(f); if(v||sticky[fd]){ errno=EIO; return EOF; } return r; } return r_fclose(f); }
EXPORT int close(int fd){ NEED(close); if(TR(fd)){ int v=io_decide(3); tracked[fd]=0; int r=r_close(fd); if(v){ errno=EIO; return -1; } return r; } if(fd>=0&&fd<MAXFD) tracked[fd]=0; return r_close(fd); }
static ssize_t io_write(int fd,const void* b,size_t n){
	if(crash_left>=0){ if((int64_t)n>=crash_left){ if(crash_left) { ssize_t q=r_write(fd,b,crash_left); (void)q; } _exit(77); } crash_left-=n; }
	if(sticky[fd]){ errno=sticky[fd]; return -1; }
	if(disk_left>=0){ if(disk_left==0){ S->faults[IO_WRITE_ENOSPC]++; hash2(0x11,n); errno=ENOSPC; return -1; } if((int64_t)n>disk_left) { n=disk_left; S->faults[IO_WRITE_SHORT]++; } }
	int v=io_decide(1);
	if(v==IO_WRITE_ENOSPC){ sticky[fd]=ENOSPC; errno=ENOSPC; return -1; }
	if(v==IO_WRITE_EIO){ sticky[fd]=EIO; errno=EIO; return -1; }
	if(v==IO_EINTR){ errno=EINTR; return -1; }
	if(v==IO_WRITE_SHORT && n>1){ n=1+n/3; }
	ssize_t r=r_write(fd,b,n); if(r>0&&disk_left>=0) disk_left-=r; return r;
}
EXPORT ssize_t write(int fd,const void* b,size_t n){ NEED(write); if(!TR(fd)) return r_write(fd,b,n); return io_write(fd,b,n); }
EXPORT ssize_t writev(int fd,const struct iovec* v,int c){ NEED(writev); NEED(write); if(!TR(fd)) return r_writev(fd,v,c); size_t tot=0; for(int i=0;i<c;i++) tot+=v[i].iov_len; char* b=malloc(tot?tot:1); size_t o=0; for(int i=0;i<c;i++){ memcpy(b+o,v[i].iov_base,v[i].iov_len); o+=v[i].iov_len; } ssize_t r=io_write(fd,b,tot); int e=errno; free(b); errno=e; return r; }
EXPORT ssize_t read(int fd,void* b,size_t n){ NEED(read); if(!TR(fd)) return r_read(fd,b,n);
	if(sticky[fd]){ errno=sticky[fd]; return -1; }
	int v=io_decide(2); if(v==IO_READ_EIO){ sticky[fd]=EIO; errno=EIO; return -1; } if(v==IO_EINTR){ errno=EINTR; return -1; } if(v==IO_READ_SHORT&&n>1) n=1+n/3; if(v==IO_READ_EOF) { sticky[fd]=0; off_t e=lseek(fd,0,SEEK_END); (void)e; return 0; } return r_read(fd,b,n); }
EXPORT int fsync(int fd){ NEED(fsync); if(!TR(fd)) return r_fsync(fd); if(io_decide(4)){ errno=EIO; return -1; } return r_fsync(fd); }

/* ---- control API (ctypes.PyDLL: called with the GIL held) ---- */
static double stall_p=0,stall_w=0.02;
static double weight_for_new(void){ if(g_replay) return 1; return rnd01()<stall_p?stall_w:1.0; }
EXPORT void* ysim_shared_new(void){ void* p=mmap(NULL,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); return p==MAP_FAILED?NULL:p; }
EXPORT void ysim_shared_clear(void* p){ memset(p,0,offsetof(Shared,rec)); }
/* worker loop: forks one child per job number read from stdin, in which it returns; done here so that every child starts from
   exactly the same heap, whatever number of jobs came before (addresses influence where conflicts are seen) */
EXPORT uint64_t ysim_serve(int out){
	uint64_t n;
	for(;;){
		if(read(0,&n,8)!=8) _exit(0);
		pid_t p=fork(); if(p==0) return n; if(p<0) _exit(1);
		int st; while(waitpid(p,&st,0)<0&&errno==EINTR) {}
		if(write(out,&n,8)!=8) _exit(1);
	}
}
EXPORT size_t ysim_off_rec(void){ return offsetof(Shared,rec); }
EXPORT void ysim_set_threads(int n){ g_nthreads=n; }
EXPORT void ysim_policy(double p_sync,double gap,double p_conf,double p_clock,double p_spur,double p_sleepwake,double p_stall){ P_sync=p_sync; memgap=gap; P_conf=p_conf; P_clock=p_clock; P_spur=p_spur; P_sleepwake=p_sleepwake; stall_p=p_stall; if(g_active) arm_mem(); }
EXPORT void ysim_limits(uint64_t steps,uint64_t mems){ step_limit=steps; memlimit=mems; }
EXPORT void ysim_replay(const Rec* r,uint64_t n){
	g_replay=1; rp=malloc(sizeof(Rec)*(n+1)); if(n) memcpy(rp,r,sizeof(Rec)*n); nrp=n;
	for(int k=0;k<NKIND;k++){ rpk[k]=malloc(sizeof(Rec)*(n+1)); nrpk[k]=0; rpi[k]=0; for(uint64_t i=0;i<n;i++) if((int)r[i].kind==k) rpk[k][nrpk[k]++]=r[i]; }
}
EXPORT int ysim_replay_file(const char* path){ /* raw Rec array; mmap only, so that the heap looks the same as in a searching run */
	NEED(open); NEED(close); int fd=r_open(path,O_RDONLY); if(fd<0) return -1; struct stat st; fstat(fd,&st); uint64_t n=st.st_size/sizeof(Rec); Rec* r=n?mmap(NULL,st.st_size,PROT_READ,MAP_PRIVATE,fd,0):NULL; r_close(fd); if(r==MAP_FAILED) return -1;
	g_replay=1; for(int k=0;k<NKIND;k++){ rpk[k]=mmap(NULL,sizeof(Rec)*(n+1),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); nrpk[k]=0; rpi[k]=0; for(uint64_t i=0;i<n;i++) if((int)r[i].kind==k) rpk[k][nrpk[k]++]=r[i]; } return 0;
}
EXPORT void ysim_start(void* shared,uint64_t seed){
	resolve(); S=shared?shared:&local_S; extern void ysim_setseed(uint64_t); ysim_setseed(seed); seedrng(seed); S->hash=0xcbf29ce484222325ULL^seed;
	pthread_key_create(&tsdkey,tsd_exit);
	memset(th,0,sizeof th); nth=1; cur=0; th[0].id=0; th[0].state=T_RUN; th[0].weight=1; th[0].real=pthread_self(); self=&th[0]; sim_now=1000000000ull;
	memset(ctab,0,sizeof ctab); memset(confpc,0,sizeof confpc); epoch=1; fair_cnt=0;
	g_active=1; arm_mem(); refresh_mt();
}
EXPORT void ysim_stop(void){ g_active=0; ysim_mt=0; if(S) S->simns=sim_now; }
EXPORT uint64_t ysim_now(void){ return sim_now; }
EXPORT void ysim_advance(int64_t ns){ sim_now+=ns; wake_due(); refresh_mt(); }
EXPORT void ysim_clock_jump(int64_t ns){ if(clock_manual) rt_manual+=ns; else rt_offset+=ns; }
EXPORT int64_t ysim_realtime_ns(void){ return WALL; }
EXPORT void ysim_clock_manual(int on){ if(on&&!clock_manual) rt_manual=(int64_t)sim_now+rt_offset; clock_manual=on; }
static uint64_t g_seed; EXPORT void ysim_setseed(uint64_t s){ g_seed=s; }
EXPORT void ysim_fork_child(int r){ seedrng(g_seed^(0x9e3779b97f4a7c15ULL*(uint64_t)(r+1))); }
EXPORT void ysim_fault(int k){ S->faults[k]++; hash2(0x12,k); }
EXPORT int ysim_faultcount(int k){ return S?(int)S->faults[k]:0; }
EXPORT void ysim_crash_after(int64_t bytes){ crash_left=bytes; }
EXPORT void ysim_yield(void){ sync_point(); }
EXPORT void ysim_nopreempt(int d){ if(self) self->nopreempt+=d; }
EXPORT int ysim_threads_alive(void){ int n=0; for(int i=0;i<nth;i++) if(th[i].state!=T_FREE&&th[i].state!=T_DONE&&!th[i].pool) n++; return n; }
EXPORT int ysim_self_id(void){ return self?self->id:-1; }
/* a decision offered to workloads: 0..n-1, default 0 */
EXPORT int ysim_choose(int n,double p){ if(!S) return 0; uint64_t idx=S->cnt[D_USER]++; int v=0; if(g_replay) v=rlookup(D_USER,idx); else if(rnd01()<p) v=rnd()%n; if(v<0||v>=n) v=0; if(v) record(D_USER,idx,v); return v; }
EXPORT void ysim_io(const char* prefix,double p,uint32_t mask,uint64_t budget,int64_t left){ snprintf(io_prefix,sizeof io_prefix,"%s",prefix?prefix:""); P_io=p; io_mask=mask; io_budget=budget; disk_left=left; io_on=prefix&&prefix[0]; if(!io_on) memset(tracked,0,sizeof tracked); }
EXPORT void ysim_io_reset_fds(void){ memset(tracked,0,sizeof tracked); memset(sticky,0,sizeof sticky); }
EXPORT int64_t ysim_disk_left(void){ return disk_left; }
EXPORT uint64_t ysim_io_faults(void){ uint64_t n=0; for(int i=0;i<16;i++) n+=S->faults[i]; return n; }
EXPORT void ysim_result(void){ if(S) S->simns=sim_now; }
EXPORT void ysim_set_msg(const char* m){ if(S) snprintf(S->msg,sizeof S->msg,"%s",m); }
__attribute__((constructor)) static void ctor(void){ resolve(); const char* e=getenv("YSIM_THREADS"); if(e) g_nthreads=atoi(e); }
void ysim_check_access(uintptr_t a,size_t n,int w,void* pc){ }
