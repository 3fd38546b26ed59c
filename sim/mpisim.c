/* Simulated MPI: every rank is a forked process, exactly one of them owns the token; who runs next, how long a message
 * travels, whether a standard-mode send is buffered or waits for its receiver, when a posted receive's buffer is filled and which
 * rank is stalled are decisions (ysim_choose), so one seed is one execution.  Messages are reliable and non-overtaking
 * per (source, destination, tag), which is what MPI guarantees; nothing else about their order is. */
#define _GNU_SOURCE
#include <mpi.h>
#include <linux/futex.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#define EXPORT __attribute__((visibility("default")))
#define MAXR 16
#define MAXM 60000
#define ARENA (768ull<<20)
int ysim_choose(int n,double p); void ysim_fail_exit(const char*,int); void ysim_hash_mix(uint64_t); uint64_t ysim_now(void); void ysim_advance(int64_t); void ysim_fork_child(int); void ysim_fault(int);
enum { R_RUN, R_BLOCK, R_DONE };
enum { F_DELAY=32, F_RNDV, F_STALL, F_LATE };
typedef struct { int src,dst,tag,seen,taken,rndv,deferred; uint64_t len,off,at; } Msg;
typedef struct {
	int n; int cur; int fut[MAXR]; int state[MAXR]; int kick[MAXR]; uint64_t stall_until[MAXR]; char why[MAXR][96];
	uint64_t now,steps,limit,simnow,used,nm,lo[MAXR]; double p_switch,p_delay,p_rndv,p_late,p_stall; uint64_t sent,bytes,blocks,switches,ranks_done;
	Msg m[MAXM];
} Mp;
static Mp* M; static char* A; static int me=-1;
struct YsimReq { int src,tag; char* buf; uint64_t cap; int matched; Msg* m; int filled; int late; int sendidx; struct YsimReq* next; int trunc; };
/* non-blocking sends whose buffer has not been read yet: MPI may read it at any time until the send is completed */
static struct { Msg* m; const void* b; } dfr[256]; static int ndfr;
static void capture(int all);
static struct YsimReq* reqs; /* posted receives, in order */

EXPORT void ysim_mpi_setup(int n,double p_switch,double p_delay,double p_rndv,double p_late,double p_stall,uint64_t limit){
	M=mmap(NULL,sizeof(Mp),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
	A=mmap(NULL,ARENA,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
	if(M==MAP_FAILED||A==MAP_FAILED) ysim_fail_exit("mpisim: mmap",79);
	M->n=n; M->p_switch=p_switch; M->p_delay=p_delay; M->p_rndv=p_rndv; M->p_late=p_late; M->p_stall=p_stall; M->limit=limit; M->simnow=ysim_now(); M->fut[0]=1;
}
EXPORT uint64_t ysim_mpi_stat(int k){ return k==0?M->sent:k==1?M->bytes:k==2?M->blocks:k==3?M->switches:k==4?M->steps:M->now; }
static void await_token(void){ while(__atomic_load_n(&M->fut[me],__ATOMIC_ACQUIRE)==0) syscall(SYS_futex,&M->fut[me],FUTEX_WAIT,0,NULL,NULL,0); __atomic_store_n(&M->fut[me],0,__ATOMIC_RELEASE); if(M->simnow>ysim_now()) ysim_advance(M->simnow-ysim_now()); }
static void give_token(int to){ M->simnow=ysim_now(); M->cur=to; M->switches++; ysim_hash_mix(0x3000+to); __atomic_store_n(&M->fut[to],1,__ATOMIC_RELEASE); syscall(SYS_futex,&M->fut[to],FUTEX_WAKE,1,NULL,NULL,0); }
/* in the forked process of rank r: wait for the first turn */
EXPORT void ysim_mpi_begin(int r){ me=r; ysim_fork_child(r); await_token(); }
EXPORT int ysim_mpi_rank(void){ return me; }
EXPORT int ysim_mpi_size(void){ return M->n; }
static int deliverable(int r,int mark){ int any=0; for(uint64_t i=M->lo[r];i<M->nm;i++){ Msg* m=&M->m[i]; if(m->dst!=r||m->seen||m->deferred) continue; if(m->at<=M->now){ any=1; if(mark) m->seen=1; } } return any; }
static int can(int r){ if(M->state[r]==R_RUN) return 1; if(M->state[r]==R_DONE) return 0; return M->kick[r]||deliverable(r,0); }
/* pass the token if so decided (or needed, when this rank is not in R_RUN) */
static void reschedule(void){
	M->steps++; M->now++; ysim_advance(1000);
	if(M->steps>M->limit) ysim_fail_exit("no progress: the ranks still exchange messages after the step limit",72);
	int c[MAXR],n;
	for(;;){
		n=0; for(int i=0;i<M->n;i++){ int r=(me+i)%M->n; if(can(r)&&(M->stall_until[r]<=M->now)) c[n++]=r; }
		if(n) break;
		uint64_t best=UINT64_MAX;
		for(int i=0;i<M->n;i++){ if(M->state[i]==R_DONE) continue; if(can(i)){ if(M->stall_until[i]<best) best=M->stall_until[i]; continue; }
			for(uint64_t k=M->lo[i];k<M->nm;k++){ Msg* m=&M->m[k]; if(m->dst==i&&!m->seen&&!m->deferred&&m->at<best) best=m->at; } }
		if(best==UINT64_MAX){
			int left=0; for(int i=0;i<M->n;i++) if(M->state[i]!=R_DONE) left++;
			if(!left) return;
			char b[1800]; int o=snprintf(b,sizeof b,"deadlock: no rank can go on and no message is under way;"); for(int i=0;i<M->n;i++) o+=snprintf(b+o,sizeof(b)-o," rank %d %s;",i,M->state[i]==R_DONE?"finished":M->why[i]);
			ysim_fail_exit(b,71);
		}
		if(best<=M->now) best=M->now+1; ysim_advance((best-M->now)*1000); M->now=best;
	}
	int to=c[0];
	if(n>1){ int v=ysim_choose(n,M->p_switch); to=c[v]; }
	if(to==me){ if(M->state[me]==R_BLOCK){ M->kick[me]=0; deliverable(me,1); M->state[me]=R_RUN; } return; }
	int st=M->state[me];
	if(st==R_RUN && ysim_choose(2,M->p_stall)){ static const int d[]={20,200,2000}; M->stall_until[me]=M->now+d[ysim_choose(3,1)]; ysim_fault(F_STALL); }
	give_token(to);
	if(st==R_DONE) return;
	await_token();
	if(M->state[me]==R_BLOCK){ M->kick[me]=0; deliverable(me,1); M->state[me]=R_RUN; }
}
static void block(const char* why){ capture(1); M->blocks++; snprintf(M->why[me],sizeof M->why[me],"%s",why); M->state[me]=R_BLOCK; reschedule(); }
EXPORT void ysim_mpi_end(void){ capture(1); M->state[me]=R_DONE; M->ranks_done++; reschedule(); }

static void fill(struct YsimReq* q){ Msg* m=q->m; if(q->filled) return; uint64_t n=m->len; if(n>q->cap){ n=q->cap; q->trunc=1; } if(q->buf) memcpy(q->buf,A+m->off,n); q->filled=1; }
static void capture(int all){ int k=0; for(int i=0;i<ndfr;i++){ if(all||ysim_choose(2,.4)){ memcpy(A+dfr[i].m->off,dfr[i].b,dfr[i].m->len); dfr[i].m->deferred=0; } else dfr[k++]=dfr[i]; } ndfr=k; }
static void progress(void){
	capture(0);
	for(struct YsimReq* q=reqs;q;q=q->next){
		if(q->matched){ if(q->late&&!q->filled&&ysim_choose(2,.3)) fill(q); continue; }
		for(uint64_t i=M->lo[me];i<M->nm;i++){ Msg* m=&M->m[i]; if(m->dst!=me||m->taken||(q->src!=MPI_ANY_SOURCE&&m->src!=q->src)||(q->tag!=MPI_ANY_TAG&&m->tag!=q->tag)) continue;
			if(m->at>M->now||m->deferred) { if(q->src==MPI_ANY_SOURCE) continue; break; } /* the next one in order has not arrived yet */
			m->taken=1; q->matched=1; q->m=m; if(m->rndv&&M->state[m->src]==R_BLOCK) M->kick[m->src]=1;
			q->late=ysim_choose(2,M->p_late); if(q->late) ysim_fault(F_LATE); else fill(q);
			break; }
	}
	while(M->lo[me]<M->nm && (M->m[M->lo[me]].dst!=me||M->m[M->lo[me]].taken)) M->lo[me]++;
}
static Msg* post(const void* b,uint64_t n,int dst,int tag,int rndv){
	if(M->nm>=MAXM||M->used+n>ARENA) ysim_fail_exit("no progress: too many messages",72);
	if(dst<0||dst>=M->n) ysim_fail_exit("message to a rank that does not exist",73);
	Msg* m=&M->m[M->nm]; memset(m,0,sizeof *m); m->src=me; m->dst=dst; m->tag=tag; m->len=n; m->off=M->used; m->rndv=rndv; memcpy(A+M->used,b,n); M->used+=(n+15)&~15ull;
	m->at=M->now; int v=ysim_choose(6,M->p_delay); static const int d[]={0,5,25,120,600,4000}; if(v){ m->at+=d[v]; ysim_fault(F_DELAY); }
	for(uint64_t i=M->nm;i-->0&&M->nm-i<4000;){ Msg* o=&M->m[i]; if(o->src==me&&o->dst==dst&&o->tag==tag){ if(o->at>m->at) m->at=o->at; break; } }
	M->nm++; M->sent++; M->bytes+=n; return m;
}
/* standard-mode send: buffered, or (any size: the standard allows it) waits for the matching receive */
EXPORT int ysim_mpi_send(const void* b,uint64_t n,int dst,int tag){
	progress(); int rndv=ysim_choose(2,M->p_rndv); Msg* m=post(b,n,dst,tag,rndv);
	if(rndv){ ysim_fault(F_RNDV); char w[96]; snprintf(w,sizeof w,"waits for rank %d to receive a message (tag %d, %llu bytes)",dst,tag,(unsigned long long)n); while(!m->taken){ block(w); progress(); } }
	else { reschedule(); progress(); }
	return 0;
}
EXPORT struct YsimReq* ysim_mpi_isend(const void* b,uint64_t n,int dst,int tag){ progress(); int rndv=ysim_choose(2,M->p_rndv); Msg* m=post(b,n,dst,tag,rndv); struct YsimReq* q=calloc(1,sizeof *q); q->m=m; q->sendidx=1; if(rndv) ysim_fault(F_RNDV); reschedule(); progress(); return q; }
EXPORT struct YsimReq* ysim_mpi_irecv(void* b,uint64_t cap,int src,int tag){ struct YsimReq* q=calloc(1,sizeof *q); q->src=src; q->tag=tag; q->buf=b; q->cap=cap; struct YsimReq** p=&reqs; while(*p) p=&(*p)->next; *p=q; progress(); reschedule(); progress(); return q; }
/* returns the length of the message; the data is at ysim_mpi_data() for requests without buffer */
static uint64_t wait_req(struct YsimReq* q){
	char w[96]; progress();
	if(q->sendidx){ capture(1); snprintf(w,sizeof w,"waits for rank %d to receive a message (tag %d)",q->m->dst,q->m->tag); while(q->m->rndv&&!q->m->taken){ block(w); progress(); } return 0; }
	snprintf(w,sizeof w,"waits for a message from rank %d (tag %d)",q->src,q->tag);
	while(!q->matched){ block(w); progress(); }
	fill(q); struct YsimReq** p=&reqs; while(*p&&*p!=q) p=&(*p)->next; if(*p) *p=q->next;
	return q->m->len;
}
EXPORT uint64_t ysim_mpi_wait(struct YsimReq* q){ return wait_req(q); }
EXPORT int ysim_mpi_test(struct YsimReq* q){ reschedule(); progress(); return q->sendidx?(!q->m->deferred&&(!q->m->rndv||q->m->taken)):q->matched; }
EXPORT void* ysim_mpi_data(struct YsimReq* q){ return A+q->m->off; }
EXPORT int ysim_mpi_src(struct YsimReq* q){ return q->m->src; }
EXPORT void ysim_mpi_free(struct YsimReq* q){ free(q); }
EXPORT int ysim_mpi_pending(void){ int n=0; for(uint64_t i=0;i<M->nm;i++) if(!M->m[i].taken) n++; return n; }
EXPORT int ysim_mpi_pending_info(int k,int* o){ int n=0; for(uint64_t i=0;i<M->nm;i++) if(!M->m[i].taken){ if(n==k){ o[0]=M->m[i].src; o[1]=M->m[i].dst; o[2]=M->m[i].tag; o[3]=(int)M->m[i].len; return 1; } n++; } return 0; }

/* ---- the C API ---- */
#define CTAG 100000 /* tags of the C++ side are the same space as mpi4py's, kept as they are */
static void st(MPI_Status* s,struct YsimReq* q){ if(s){ s->MPI_SOURCE=q->m->src; s->MPI_TAG=q->m->tag; s->MPI_ERROR=0; s->count_bytes=q->m->len; } }
static void check_trunc(struct YsimReq* q){ if(q->trunc){ char b[200]; snprintf(b,sizeof b,"message truncated: rank %d received %llu bytes from rank %d (tag %d) into a buffer of %llu",me,(unsigned long long)q->m->len,q->m->src,q->m->tag,(unsigned long long)q->cap); ysim_fail_exit(b,73); } }
EXPORT int MPI_Send(const void* a,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return ysim_mpi_send(a,(uint64_t)n*t,d,tag); }
EXPORT int MPI_Isend(const void* a,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request* r){ progress(); int rndv=ysim_choose(2,M->p_rndv); Msg* m=post(a,(uint64_t)n*t,d,tag,rndv); if(rndv) ysim_fault(F_RNDV);
	if(n&&ndfr<256&&ysim_choose(2,M->p_late)){ m->deferred=1; dfr[ndfr].m=m; dfr[ndfr++].b=a; ysim_fault(F_LATE); }
	struct YsimReq* q=calloc(1,sizeof *q); q->m=m; q->sendidx=1; *r=q; reschedule(); progress(); return 0; }
EXPORT int MPI_Irecv(void* a,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Request* r){ *r=ysim_mpi_irecv(a,(uint64_t)n*t,s,tag); return 0; }
EXPORT int MPI_Wait(MPI_Request* r,MPI_Status* s){ struct YsimReq* q=*r; if(!q) return 0; wait_req(q); if(!q->sendidx){ st(s,q); check_trunc(q); } free(q); *r=NULL; return 0; }
EXPORT int MPI_Waitall(int n,MPI_Request* r,MPI_Status* s){ for(int i=0;i<n;i++) MPI_Wait(r+i,s?s+i:NULL); return 0; }
EXPORT int MPI_Test(MPI_Request* r,int* f,MPI_Status* s){ if(!*r){ *f=1; return 0; } *f=ysim_mpi_test(*r); if(*f) MPI_Wait(r,s); return 0; }
EXPORT int MPI_Recv(void* a,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Status* o){ MPI_Request r; MPI_Irecv(a,n,t,s,tag,c,&r); return MPI_Wait(&r,o); }
EXPORT int MPI_Get_count(const MPI_Status* s,MPI_Datatype t,int* n){ *n=s->count_bytes/t; return 0; }
static Msg* findmsg(int s,int tag){ for(uint64_t i=M->lo[me];i<M->nm;i++){ Msg* m=&M->m[i]; if(m->dst==me&&!m->taken&&(s==MPI_ANY_SOURCE||m->src==s)&&(tag==MPI_ANY_TAG||m->tag==tag)) return m->at<=M->now&&!m->deferred?m:NULL; } return NULL; }
EXPORT int MPI_Iprobe(int s,int tag,MPI_Comm c,int* f,MPI_Status* o){ reschedule(); progress(); Msg* m=findmsg(s,tag); *f=m!=NULL; if(m&&o){ o->MPI_SOURCE=m->src; o->MPI_TAG=m->tag; o->count_bytes=m->len; } return 0; }
EXPORT int MPI_Probe(int s,int tag,MPI_Comm c,MPI_Status* o){ Msg* m; char w[96]; snprintf(w,sizeof w,"probes for a message from rank %d (tag %d)",s,tag); progress(); while(!(m=findmsg(s,tag))){ block(w); progress(); } if(o){ o->MPI_SOURCE=m->src; o->MPI_TAG=m->tag; o->count_bytes=m->len; } return 0; }
EXPORT int MPI_Comm_rank(MPI_Comm c,int* r){ *r=me; return 0; }
EXPORT int MPI_Comm_size(MPI_Comm c,int* r){ *r=M->n; return 0; }
EXPORT int MPI_Barrier(MPI_Comm c){ int z=0; if(me==0){ for(int i=1;i<M->n;i++) MPI_Recv(&z,1,MPI_INT,i,CTAG,c,NULL); for(int i=1;i<M->n;i++) ysim_mpi_send(&z,4,i,CTAG+1); } else { ysim_mpi_send(&z,4,0,CTAG); MPI_Recv(&z,1,MPI_INT,0,CTAG+1,c,NULL); } return 0; }
EXPORT void ysim_mpi_yield(void){ progress(); reschedule(); progress(); }
