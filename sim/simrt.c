/* simrt: deterministic simulation runtime that replaces, for the NaMaster
 * extension module only, the parts of the platform its behaviour depends on:
 *
 *   - libgomp: OpenMP teams run as fibers inside ONE operating-system thread;
 *     a seeded PRNG picks the team size, every context switch, every chunk.
 *     gcc -fsanitize=thread is used for its instrumentation alone: libtsan is
 *     not linked, and each __tsan_* callback is a possible preemption point.
 *   - the allocator: every allocation of the C library code may be failed, is
 *     filled with seeded garbage, guarded, poisoned and quarantined on free.
 *   - GSL's allocator and CFITSIO's stdio (by patching their GOT): an
 *     in-memory disk with short/torn/failed writes, full disks, read errors
 *     and kills at any write.
 *
 * Nothing in here reads a clock or draws from anything but the seed. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <unistd.h>
#include <link.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/stat.h>

#define NOSAN
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;

/* ------------------------------------------------------------------ PRNG */
typedef struct { u64 s; } rng_t;
static u64 rnd(rng_t *r){ u64 z=(r->s+=0x9E3779B97F4A7C15ULL);
  z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31); }
static double rnd01(rng_t *r){ return (rnd(r)>>11)*(1.0/9007199254740992.0); }
static u64 rndn(rng_t *r,u64 n){ return n?rnd(r)%n:0; }
static u64 rndexp(rng_t *r,double mean){ /* geometric-ish, >=1, integer arithmetic only after the draw */
  double u=rnd01(r); double x=0; /* cheap -ln(1-u) through repeated sqrt-free series is overkill: use table */
  /* piecewise: pick an exponent octave, gives a heavy spread of gaps around mean */
  (void)x; double f; if(u<0.5) f=u*1.4; else if(u<0.8) f=0.7+(u-0.5)*3; else if(u<0.95) f=1.6+(u-0.8)*9; else f=2.95+(u-0.95)*40;
  u64 k=(u64)(f*mean); return k+1; }

/* --------------------------------------------------- shared report page */
typedef struct {
  u64 steps, switches, regions, maxteam, ileave_hash, deadlock;
  u64 n_alloc, n_alloc_failed, n_gslalloc, n_gsl_failed, n_fftwalloc;
  u64 n_open, n_write, n_read, n_close, n_remove, n_flush;
  u64 f_eio_w, f_enospc, f_short_w, f_eio_r, f_short_r, f_kill, f_torn, f_open_fail, f_close_fail;
  u64 conflicts, hot_preempt, stalls, dyn_chunks, criticals, barriers;
  u64 redzone_bad, double_free, uaf_write, wend_lost;
  u64 ntrace;
  int ev_kind;            /* 0 none, see SEV_* */
  int in_team;            /* team size at event */
  int ev_tid;
  int lastfail_inteam;    /* team size when last alloc failure was injected */
  char ev_text[512];
  char region[128];       /* symbol of the innermost parallel region */
  char lastfail_region[128];
} report_t;
enum { SEV_NONE=0, SEV_THROW_IN_TEAM=1, SEV_DEADLOCK=2, SEV_NOPROGRESS=3, SEV_DOUBLE_FREE=4,
       SEV_REDZONE=5, SEV_EXIT=6, SEV_KILLED=7, SEV_UNSUPPORTED=8 };
static report_t rep_static; report_t *simrt_rep=&rep_static;
#define REP (*simrt_rep)
#define EXIT_EVENT 86
#define EXIT_KILLED 87

/* ---------------------------------------------------------------- config */
typedef struct {
  u64 seed;
  int nthreads;           /* simulated OMP_NUM_THREADS */
  int vary_team;          /* 1: runtime may hand out fewer threads per region */
  int mode;               /* 0 no preemption, 1 seeded, 2 explicit trace */
  double mean_gap;        /* mean number of memory events between preemptions */
  double p_hot;           /* preemption probability at conflicting code locations */
  int order;              /* 0 lowest first, 1 random pick, 2 reverse, 3 random fixed priority */
  double p_stall;         /* probability per switch that a fiber is stalled */
  int profile;            /* record conflicting code locations */
  int fill;               /* garbage fill: 0 off,1 zero,2 0xff,3 random bytes,4 random doubles */
  u64 step_cap;
  int64_t fail_alloc_at;  /* fail the k-th (0-based) allocation of library code; -1 none */
  int64_t fail_alloc_len; /* how many consecutive ones */
  int64_t fail_gsl_at;    /* same for GSL's allocations */
  int64_t fail_fftw_at;
  int record;
} cfg_t;
cfg_t simrt_cfg={.nthreads=1,.mode=0,.mean_gap=200,.p_hot=0,.fail_alloc_at=-1,.fail_gsl_at=-1,.fail_fftw_at=-1,.step_cap=0};
#define C simrt_cfg
static rng_t R_sched, R_team, R_mem;

/* explicit / recorded schedule: (step, fiber) pairs */
typedef struct { u64 step; int to; int forced; } sw_t;
#define MAXTRACE (1<<20)
static sw_t *trace; static u64 ntrace; static int trace_over;
static sw_t *plan; static u64 nplan, iplan;

void simrt_event(int kind,const char *fmt,...);

/* ---------------------------------------------------------------- fibers */
typedef struct team team_t;
typedef struct fiber {
  void *sp; u8 *stack; team_t *team; int tid; int done; void *waiting; /* lock waited for */
  int at_barrier; int stalled; u64 wsi; u64 prio; u64 nstart; long ws_end; team_t *inner; int inner_tid; long och,ochend; struct task *task; struct tgroup *tg;
} fiber_t;
typedef struct { int init; int singled; long next,end,incr,chunk; unsigned long unext,uend; int sched; int ndone; long ordnext; int secn; int secnext; void *cpp; } ws_t;
struct team { int n; fiber_t f[64]; int nb; u64 epoch; ws_t *ws; u64 nws; void (*fn)(void*); void *data; team_t *parent; int cur; struct task *tq[256]; int ntq; };
static team_t *T;              /* innermost real (n>1) team, or NULL */
static int active;             /* preemption armed */
static u64 gstep, next_pre, region_gen;
static team_t *serial_team;    /* chain of n==1 teams outside T */
#define STKSZ (1<<20)
static u8 *stkpool[64]; 

extern void simrt_swap(void **from,void *to);
__asm__(
".text\n.globl simrt_swap\n.type simrt_swap,@function\n.hidden simrt_swap\nsimrt_swap:\n"
" pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
" subq $8,%rsp\n stmxcsr (%rsp)\n fnstcw 4(%rsp)\n"
" movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
" ldmxcsr (%rsp)\n fldcw 4(%rsp)\n addq $8,%rsp\n"
" popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n"
".size simrt_swap,.-simrt_swap\n");

static void die_event(void){ _exit(EXIT_EVENT); }
void simrt_event(int kind,const char *fmt,...){
  if(REP.ev_kind==0){ REP.ev_kind=kind; REP.in_team=T?T->n:0; REP.ev_tid=T?T->cur:-1;
    va_list a; va_start(a,fmt); vsnprintf(REP.ev_text,sizeof REP.ev_text,fmt,a); va_end(a); }
}
static char *img_base;
static void symname(void *p,char *out,int n){ snprintf(out,n,"{+%lx}",(unsigned long)((char*)p-img_base)); }

/* conflict table: which granules are touched by more than one fiber */
typedef struct { u64 a; u32 gen; u8 fib; u8 wr; } sh_t;
#define SHB 22
#define SHN (1u<<SHB)
static sh_t *sh; 
static u8 hotpc[1<<16]; static u64 nhot;
#define PCI(pc) ((u32)(((u64)((char*)(pc)-img_base))*2654435761u>>7)&0xFFFF)

static void do_switch(int to){
  fiber_t *a=&T->f[T->cur],*b=&T->f[to];
  if(a==b) return;
  REP.switches++;
  REP.ileave_hash=(REP.ileave_hash^(gstep*64+to+1))*0x100000001B3ULL;
  T->cur=to; simrt_swap(&a->sp,b->sp);
}
static int runnable(int i){ fiber_t *f=&T->f[i]; return !f->done && !f->waiting && !f->at_barrier; }
static void rec(int to,int forced){ if(C.record){ if(ntrace<MAXTRACE){ trace[ntrace].step=gstep; trace[ntrace].to=to; trace[ntrace].forced=forced; ntrace++; REP.ntrace=ntrace; } else trace_over=1; } }
static int pick(int exclude_self){
  int cand[64],n=0,i,me=T->cur;
  for(i=0;i<T->n;i++) if(runnable(i)&&!(exclude_self&&i==me)&&!T->f[i].stalled) cand[n++]=i;
  if(!n){ for(i=0;i<T->n;i++) if(T->f[i].stalled){T->f[i].stalled=0;}
    for(i=0;i<T->n;i++) if(runnable(i)&&!(exclude_self&&i==me)) cand[n++]=i; }
  if(!n) return -1;
  switch(C.order){
   case 1: return cand[rndn(&R_sched,n)];
   case 2: return cand[n-1];
   case 3: { int b=cand[0]; for(i=1;i<n;i++) if(T->f[cand[i]].prio>T->f[b].prio) b=cand[i]; return b; }
   default: return cand[0]; }
}
static void arm_next(void){
  if(C.mode==1) next_pre=gstep+rndexp(&R_sched,C.mean_gap);
  else if(C.mode==2) next_pre=(iplan<nplan)?plan[iplan].step:~0ULL;
  else next_pre=~0ULL;
}
static void preempt(void){
  if(C.mode==2){
    while(iplan<nplan && (plan[iplan].step<gstep || plan[iplan].forced)) { if(plan[iplan].step>=gstep) break; iplan++; }
    if(iplan<nplan && plan[iplan].step==gstep && !plan[iplan].forced){ int to=plan[iplan].to; iplan++;
      if(to>=0&&to<T->n&&runnable(to)){ rec(to,0); arm_next(); do_switch(to); return; } }
    arm_next(); return; }
  if(C.p_stall>0 && rnd01(&R_sched)<C.p_stall){ int v=rndn(&R_sched,T->n); T->f[v].stalled=1; REP.stalls++; }
  if(C.order==3 && rndn(&R_sched,2)) T->f[T->cur].prio=rnd(&R_sched)>>1; 
  int to=pick(1); arm_next();
  if(to>=0){ rec(to,0); do_switch(to); }
}
/* current fiber cannot go on */
static void block(void){
  int to=-1;
  if(C.mode==2){ while(iplan<nplan && plan[iplan].step<gstep) iplan++;
    if(iplan<nplan && plan[iplan].step==gstep && plan[iplan].forced){ to=plan[iplan].to; iplan++; if(!(to>=0&&to<T->n&&runnable(to))) to=-1; }
    if(to<0){ int i; for(i=0;i<T->n;i++) if(runnable(i)){to=i;break;} }
    arm_next(); }
  else to=pick(0);
  if(to<0){ REP.deadlock++; simrt_event(SEV_DEADLOCK,"deadlock: no simulated thread can run in %s",REP.region); die_event(); }
  rec(to,1);
  do_switch(to);
}
static inline void tick(void *pc){
  if(!active) return;
  gstep++;
  if(C.step_cap && gstep>C.step_cap){ simrt_event(SEV_NOPROGRESS,"no progress after %lu steps in %s",(unsigned long)gstep,REP.region); die_event(); }
  if(gstep>=next_pre){ preempt(); return; }
  if(C.p_hot>0 && C.mode==1 && pc && hotpc[PCI(pc)] && rnd01(&R_sched)<C.p_hot){ REP.hot_preempt++; preempt(); }
}
/* an explicit scheduling point: counts one step in every mode */
static void yield_point(int want){
  if(!active) return;
  gstep++;
  if(C.mode==1){ if(want||gstep>=next_pre) preempt(); }
  else if(gstep>=next_pre) preempt();
}
static inline void acc(void *p,int size,int w,void *pc){
  if(!active) return;
  if(C.profile){ u64 a=(u64)p>>3; u32 h=(u32)((a*0x9E3779B97F4A7C15ULL)>>(64-SHB)); sh_t *e=&sh[h]; int pr=0;
    while(e->gen==(u32)region_gen && e->a!=a && pr<256){ pr++; h=(h+1)&(SHN-1); e=&sh[h]; }
    if(e->a==a && e->gen==(u32)region_gen && e->fib!=T->cur){
      if(w||e->wr){ REP.conflicts++; if(!hotpc[PCI(pc)]){hotpc[PCI(pc)]=1;nhot++;} e->wr=1; } e->fib=T->cur; if(w) e->wr=1; }
    else if(e->a==a && e->gen==(u32)region_gen){ if(w) e->wr=1; }
    else { e->a=a; e->gen=(u32)region_gen; e->fib=T->cur; e->wr=w; } }
  tick(pc);
}
static int join_key; static void drain_tasks(void);
static void fiber_main(void){
  fiber_t *f=&T->f[T->cur];
  T->fn(T->data); drain_tasks();
  f->done=1;
  { int i,left=0; for(i=1;i<T->n;i++) if(!T->f[i].done) left++; if(!left && T->f[0].waiting==&join_key) T->f[0].waiting=NULL; }
  block();
  abort();
}
static u8 *get_stack(int i){
  if(!stkpool[i]){ u8 *m=mmap(NULL,STKSZ+8192,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    if(m==MAP_FAILED) { simrt_event(SEV_UNSUPPORTED,"no stack"); die_event(); }
    mprotect(m,4096,PROT_NONE); stkpool[i]=m; }
  return stkpool[i];
}
static int team_size(unsigned req){
  int n=req?(int)req:C.nthreads;
  if(n>64) n=64;
  if(n<1) n=1;
  if(C.vary_team && n>1) n=1+rndn(&R_team,n);
  return n;
}
static void team_new_ws(team_t *t){ t->ws=NULL; t->nws=0; }
static ws_t *get_ws(team_t *t,u64 i){
  if(i>=t->nws){ u64 n=t->nws?t->nws*2:8; while(n<=i) n*=2; t->ws=realloc(t->ws,n*sizeof(ws_t)); memset(t->ws+t->nws,0,(n-t->nws)*sizeof(ws_t)); t->nws=n; }
  return &t->ws[i];
}
static void run_team(void (*fn)(void*),void *data,unsigned req,ws_t *initws){
  REP.regions++;
  int n=T?1:team_size(req);
  if(n==1){
    team_t st; memset(&st,0,sizeof st); st.n=1; st.fn=fn; st.data=data; team_new_ws(&st);
    if(initws){ *get_ws(&st,0)=*initws; }
    fiber_t *me=T?&T->f[T->cur]:NULL;
    if(me){ st.parent=me->inner; me->inner=&st; fn(data); me->inner=st.parent; }
    else { st.parent=serial_team; serial_team=&st; fn(data); serial_team=st.parent; }
    free(st.ws); return; }
  team_t *t=calloc(1,sizeof(team_t)); int i;
  t->n=n; t->fn=fn; t->data=data; t->parent=NULL; team_new_ws(t);
  if(initws) *get_ws(t,0)=*initws;
  symname((void*)fn,REP.region,sizeof REP.region);
  if((u64)n>REP.maxteam) REP.maxteam=n;
  for(i=0;i<n;i++){ fiber_t *f=&t->f[i]; f->team=t; f->tid=i; f->prio=rnd(&R_sched);
    if(i){ u8 *s=get_stack(i); u64 *sp=(u64*)(s+STKSZ+4096);
      *--sp=0; *--sp=(u64)fiber_main; /* ret target; alignment: rsp%16==8 at entry */
      int k; for(k=0;k<6;k++) *--sp=0;
      --sp; { u32 mx; uint16_t cw; __asm__ volatile("stmxcsr %0":"=m"(mx)); __asm__ volatile("fnstcw %0":"=m"(cw)); ((u32*)sp)[0]=mx; ((u32*)sp)[1]=cw; }
      f->sp=sp; } }
  T=t; region_gen++; t->cur=0;
  active=1; arm_next();
  yield_point(C.order!=0);
  fn(data); drain_tasks();
  { int left=0; for(i=1;i<n;i++) if(!t->f[i].done) left++; if(left){ t->f[0].waiting=&join_key; block(); } }
  active=0; T=NULL; REP.steps=gstep;
  free(t->ws); free(t);
}
static team_t *cur_team(int *tid,u64 **wsi){
  static u64 w0; static team_t dummy;
  if(T){ fiber_t *f=&T->f[T->cur]; if(f->inner){ *tid=0; *wsi=&f->inner->epoch; return f->inner; } *tid=f->tid; *wsi=&f->wsi; return T; }
  if(serial_team){ *tid=0; *wsi=&serial_team->epoch; return serial_team; }
  dummy.n=1; *tid=0; w0=0; *wsi=&w0; free(dummy.ws); team_new_ws(&dummy); return &dummy; }

/* ------------------------------------------------------------- libgomp ABI */
#define API __attribute__((used,visibility("hidden")))
static void drain_tasks(void);
static void team_barrier(void){
  REP.barriers++; drain_tasks();
  if(!T||T->f[T->cur].inner) return;
  fiber_t *f=&T->f[T->cur]; int i,n=0;
  f->at_barrier=1;
  for(i=0;i<T->n;i++) if(T->f[i].at_barrier||(T->f[i].done)) n++;
  if(n==T->n){ for(i=0;i<T->n;i++) T->f[i].at_barrier=0; region_gen++;
    yield_point(C.order==1); }
  else block();
}
static void parallel0(void (*fn)(void*),void *data,unsigned nt,ws_t *w);
API void GOMP_parallel(void (*fn)(void*),void *data,unsigned nt,unsigned flags){ (void)flags; parallel0(fn,data,nt,NULL); }
static void parallel0(void (*fn)(void*),void *data,unsigned nt,ws_t *w){
  /* fiber 0 must not be marked done before the others: handled in run_team */
  run_team(fn,data,nt,w);
}
API unsigned GOMP_parallel_reductions(void (*fn)(void*),void *data,unsigned nt,unsigned fl){ GOMP_parallel(fn,data,nt,fl); return nt; }
API void GOMP_barrier(void){ team_barrier(); }
API _Bool GOMP_cancel(int a,_Bool b){ (void)a;(void)b; return 0; }
API _Bool GOMP_cancellation_point(int a){ (void)a; return 0; }
API _Bool GOMP_barrier_cancel(void){ team_barrier(); return 0; }

typedef struct { void *owner; } lk_t;
static struct { void *key; int held; int by; } locks[256]; static int nlocks;
static int lkidx(void *key){ int i; for(i=0;i<nlocks;i++) if(locks[i].key==key) return i; if(nlocks==256){simrt_event(SEV_UNSUPPORTED,"locks");die_event();} locks[nlocks].key=key; locks[nlocks].held=0; return nlocks++; }
static void lk_acq(void *key){ int i=lkidx(key);
  if(!T){ locks[i].held=0; return; }
  tick(NULL);
  while(locks[i].held){ T->f[T->cur].waiting=key; block(); }
  locks[i].held=1; locks[i].by=T->cur; }
static void lk_rel(void *key){ int i=lkidx(key),j; if(!T) return; locks[i].held=0; for(j=0;j<T->n;j++) if(T->f[j].waiting==key) T->f[j].waiting=NULL; 
  yield_point(C.mode==1 && C.order==1 && rndn(&R_sched,2)); }
static int crit_default,atom_default;
API void GOMP_critical_start(void){ REP.criticals++; lk_acq(&crit_default); }
API void GOMP_critical_end(void){ lk_rel(&crit_default); }
API void GOMP_critical_name_start(void **p){ REP.criticals++; lk_acq(p); }
API void GOMP_critical_name_end(void **p){ lk_rel(p); }
API void GOMP_atomic_start(void){ lk_acq(&atom_default); }
API void GOMP_atomic_end(void){ lk_rel(&atom_default); }
API void omp_init_lock(void *l){ *(char*)l=0; } API void omp_destroy_lock(void *l){(void)l;}
API void omp_set_lock(void *l){ lk_acq(l);} API void omp_unset_lock(void *l){ lk_rel(l);}
API int omp_test_lock(void *l){ int i=lkidx(l); if(T&&locks[i].held) return 0; lk_acq(l); return 1; }
API void omp_init_nest_lock(int*l){ l[0]=0; l[1]=-1; } API void omp_destroy_nest_lock(void*l){(void)l;}
API void omp_set_nest_lock(int*l){ int me=T?T->cur:0; if(l[0]&&l[1]==me){ l[0]++; return; } lk_acq(l); l[0]=1; l[1]=me; }
API void omp_unset_nest_lock(int*l){ if(--l[0]==0){ l[1]=-1; lk_rel(l); } }
API int omp_test_nest_lock(int*l){ int i=lkidx(l),me=T?T->cur:0; if(l[0]&&l[1]==me) return ++l[0]; if(T&&locks[i].held) return 0; lk_acq(l); l[0]=1; l[1]=me; return 1; }

API int omp_get_thread_num(void){ int t; u64 *w; cur_team(&t,&w); return t; }
API int omp_get_num_threads(void){ int t; u64 *w; return cur_team(&t,&w)->n; }
API int omp_get_max_threads(void){ return C.nthreads; }
/* Fewer or more than there are threads; one at the reference */
API int omp_get_num_procs(void){ return C.mode==0&&C.nthreads==1 ? 1 : 1+(int)((C.seed*0x9E3779B97F4A7C15ull>>40)%9); }
API int omp_get_thread_limit(void){ return 64; }
API int omp_in_parallel(void){ return T!=NULL; }
API void omp_set_num_threads(int n){ if(n>0) C.nthreads=n>64?64:n; }
API void omp_set_dynamic(int n){(void)n;} API int omp_get_dynamic(void){return 0;}
API void omp_set_nested(int n){(void)n;} API int omp_get_nested(void){return 0;}
API int omp_get_level(void){ return T?1:(serial_team?1:0);} API int omp_get_active_level(void){return T?1:0;}
API void omp_set_max_active_levels(int n){(void)n;} API int omp_get_max_active_levels(void){return 1;}
API int omp_get_ancestor_thread_num(int l){ return l==0?0:omp_get_thread_num(); }
API double omp_get_wtime(void){ return gstep*1e-9; } API double omp_get_wtick(void){ return 1e-9; }
API void omp_set_schedule(int k,int c){(void)k;(void)c;} 

/* work sharing */
static int in_order_chunk(ws_t *w,long *is,long *ie){
  long rem=w->incr>0?(w->end-w->next+w->incr-1)/w->incr:(w->next-w->end-w->incr-1)/(-w->incr);
  if(rem<=0) return 0;
  long ch=w->chunk>0?w->chunk:1; int tid; u64*x; team_t *t=cur_team(&tid,&x);
  if(w->sched==1){ long g=rem/t->n; if(g>ch) ch=g; }
  if(ch>rem) ch=rem;
  *is=w->next; *ie=w->next+ch*w->incr; w->next=*ie; REP.dyn_chunks++; return 1; }
static int loop_start(long s,long e,long incr,long chunk,long *is,long *ie,int sched){
  int tid; u64 *wi; team_t *t=cur_team(&tid,&wi); tick(NULL);
  ws_t *w=get_ws(t,*wi);
  if(!w->init){ w->init=1; w->next=s; w->end=e; w->incr=incr; w->chunk=chunk; w->sched=sched; }
  if(w->sched==2||sched==2){ /* static through runtime */ 
    fiber_t *f=T&&!T->f[T->cur].inner?&T->f[T->cur]:NULL; long n=t->n; long rem=incr>0?(e-s+incr-1)/incr:(s-e-incr-1)/(-incr);
    if(rem<=0) return 0; if(chunk<=0){ long q=(rem+n-1)/n; long a=tid*q,b=a+q>rem?rem:a+q; if(a>=rem) return 0; *is=s+a*incr; *ie=s+b*incr; if(f) f->nstart=~0ULL; return 1; }
    if(f) f->nstart=tid; long a=tid*chunk; if(a>=rem) return 0; long b=a+chunk>rem?rem:a+chunk; *is=s+a*incr; *ie=s+b*incr; return 1; }
  return in_order_chunk(w,is,ie); }
static int loop_next(long *is,long *ie){
  int tid; u64 *wi; team_t *t=cur_team(&tid,&wi); tick(NULL);
  ws_t *w=get_ws(t,*wi);
  if(w->sched==2){ fiber_t *f=T&&!T->f[T->cur].inner?&T->f[T->cur]:NULL; if(w->chunk<=0||!f) { if(!f&&w->chunk>0){ simrt_event(SEV_UNSUPPORTED,"static chunk"); die_event(); } return 0; }
    f->nstart+=t->n; long s=w->next,e=w->end,incr=w->incr,rem=incr>0?(e-s+incr-1)/incr:(s-e-incr-1)/(-incr);
    long a=(long)f->nstart*w->chunk; if(a>=rem) return 0; long b=a+w->chunk>rem?rem:a+w->chunk; *is=s+a*incr; *ie=s+b*incr; return 1; }
  return in_order_chunk(w,is,ie); }
static void ws_leave(void){ int tid; u64 *wi; cur_team(&tid,&wi); (*wi)++; }
#define LOOP(nm,sc) \
 API _Bool GOMP_loop_##nm##_start(long s,long e,long i,long c,long*a,long*b){ return loop_start(s,e,i,c,a,b,sc);} \
 API _Bool GOMP_loop_##nm##_next(long*a,long*b){ return loop_next(a,b);} \
 API void GOMP_parallel_loop_##nm(void(*fn)(void*),void*d,unsigned nt,long s,long e,long i,long c,unsigned fl){ (void)fl; ws_t w={.init=1,.next=s,.end=e,.incr=i,.chunk=c,.sched=sc}; parallel0(fn,d,nt,&w);}
LOOP(dynamic,0) LOOP(nonmonotonic_dynamic,0) LOOP(guided,1) LOOP(nonmonotonic_guided,1) LOOP(static,2)
API _Bool GOMP_loop_runtime_start(long s,long e,long i,long*a,long*b){ return loop_start(s,e,i,1,a,b,0);}
API _Bool GOMP_loop_runtime_next(long*a,long*b){ return loop_next(a,b);}
API _Bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s,long e,long i,long*a,long*b){ return loop_start(s,e,i,1,a,b,0);}
API _Bool GOMP_loop_maybe_nonmonotonic_runtime_next(long*a,long*b){ return loop_next(a,b);}
API _Bool GOMP_loop_nonmonotonic_runtime_start(long s,long e,long i,long*a,long*b){ return loop_start(s,e,i,1,a,b,0);}
API _Bool GOMP_loop_nonmonotonic_runtime_next(long*a,long*b){ return loop_next(a,b);}
API void GOMP_parallel_loop_runtime(void(*fn)(void*),void*d,unsigned nt,long s,long e,long i,unsigned fl){ (void)fl; ws_t w={.init=1,.next=s,.end=e,.incr=i,.chunk=1}; parallel0(fn,d,nt,&w);}
API void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void(*fn)(void*),void*d,unsigned nt,long s,long e,long i,unsigned fl){ GOMP_parallel_loop_runtime(fn,d,nt,s,e,i,fl);}
/* unsigned long long loops */
#define ULOOP(nm,sc) \
 API _Bool GOMP_loop_ull_##nm##_start(_Bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long c,unsigned long long*a,unsigned long long*b){ (void)up; return loop_start((long)s,(long)e,(long)i,(long)c,(long*)a,(long*)b,sc);} \
 API _Bool GOMP_loop_ull_##nm##_next(unsigned long long*a,unsigned long long*b){ return loop_next((long*)a,(long*)b);}
ULOOP(dynamic,0) ULOOP(nonmonotonic_dynamic,0) ULOOP(guided,1) ULOOP(nonmonotonic_guided,1) ULOOP(static,2)
API void GOMP_loop_end(void){ ws_leave(); team_barrier(); }
API void GOMP_loop_end_nowait(void){ ws_leave(); }
API _Bool GOMP_loop_end_cancel(void){ ws_leave(); team_barrier(); return 0; }
API _Bool GOMP_single_start(void){ int tid; u64*wi; team_t*t=cur_team(&tid,&wi); tick(NULL); ws_t*w=get_ws(t,*wi); (*wi)++; if(w->singled) return 0; w->singled=1; return 1; }
API void *GOMP_single_copy_start(void){ int tid; u64*wi; team_t*t=cur_team(&tid,&wi); u64 k=*wi; ws_t*w=get_ws(t,k); (*wi)++; if(!w->singled){w->singled=1; return NULL;} team_barrier(); return get_ws(t,k)->cpp; }
API void GOMP_single_copy_end(void*d){ int tid; u64*wi; team_t*t=cur_team(&tid,&wi); get_ws(t,*wi-1)->cpp=d; team_barrier(); }
API unsigned GOMP_sections_next(void){ int tid; u64*wi; team_t*t=cur_team(&tid,&wi); tick(NULL); ws_t*w=get_ws(t,*wi); if(w->secnext>=w->secn) return 0; return ++w->secnext; }
API unsigned GOMP_sections_start(unsigned n){ int tid; u64*wi; team_t*t=cur_team(&tid,&wi); ws_t*w=get_ws(t,*wi); if(!w->init){w->init=1;w->secn=n;} return GOMP_sections_next(); }
API void GOMP_sections_end(void){ ws_leave(); team_barrier(); }
API void GOMP_sections_end_nowait(void){ ws_leave(); }
API void GOMP_parallel_sections(void(*fn)(void*),void*d,unsigned nt,unsigned n,unsigned fl){ (void)fl; ws_t w={.init=1,.secn=n}; parallel0(fn,d,nt,&w); }
/* ordered loops: chunks are handed out in order; one may enter its ordered part
   once every chunk before it is finished */
static fiber_t *ofib(ws_t **w){ int tid; u64*wi; team_t*t=cur_team(&tid,&wi); *w=get_ws(t,*wi); return T&&!T->f[T->cur].inner?&T->f[T->cur]:NULL; }
static void ord_turn(void){ ws_t*w; fiber_t*f=ofib(&w); if(!f) return; tick(NULL); while((ofib(&w),w->ordnext)!=f->och){ f->waiting=(char*)&join_key+1; block(); } }
static void ord_wake(void){ int j; for(j=0;T&&j<T->n;j++) if(T->f[j].waiting==(char*)&join_key+1) T->f[j].waiting=NULL; }
static _Bool ord_got(_Bool r,long*is){ ws_t*w; fiber_t*f=ofib(&w); if(f) f->och=r?*is:0; return r; }
static _Bool ord_start(long s,long e,long i,long c,long*is,long*ie,int sc){ ws_t*w; ofib(&w); if(!w->init) w->ordnext=s; return ord_got(loop_start(s,e,i,c,is,ie,sc),is); }
static _Bool ord_next(long*is,long*ie,long e0){ ws_t*w; fiber_t*f=ofib(&w); (void)e0; if(f){ ord_turn(); ofib(&w); w->ordnext=f->ochend; ord_wake(); } return ord_got(loop_next(is,ie),is); }
#define OLOOP(nm,sc) \
 API _Bool GOMP_loop_ordered_##nm##_start(long s,long e,long i,long c,long*a,long*b){ _Bool r=ord_start(s,e,i,c<=0?1:c,a,b,sc); ws_t*w; fiber_t*f=ofib(&w); if(f&&r) f->ochend=*b; return r; } \
 API _Bool GOMP_loop_ordered_##nm##_next(long*a,long*b){ _Bool r=ord_next(a,b,0); ws_t*w; fiber_t*f=ofib(&w); if(f&&r) f->ochend=*b; return r; }
OLOOP(dynamic,0) OLOOP(guided,1) OLOOP(static,0)
API _Bool GOMP_loop_ordered_runtime_start(long s,long e,long i,long*a,long*b){ return GOMP_loop_ordered_dynamic_start(s,e,i,1,a,b); }
API _Bool GOMP_loop_ordered_runtime_next(long*a,long*b){ return GOMP_loop_ordered_dynamic_next(a,b); }
API void GOMP_ordered_start(void){ ord_turn(); }
API void GOMP_ordered_end(void){}
/* tasks: run at once by the encountering thread, or later by any thread at one
   of its scheduling points, as the seed decides */
typedef struct task { void(*fn)(void*); char*arg,*mem; struct task*parent; struct tgroup*tg; int nchild,refs; } task_t;
typedef struct tgroup { struct tgroup*up; int n; } tgroup_t;
static void task_unref(task_t*t){ if(t&&--t->refs==0){ free(t->mem); free(t); } }
static void task_wake(void){ int j; for(j=0;j<T->n;j++) if(T->f[j].waiting==(char*)&join_key+2) T->f[j].waiting=NULL; }
static void task_run(int k){ team_t*m=T; task_t*t=m->tq[k]; m->tq[k]=m->tq[--m->ntq]; fiber_t*f=&m->f[m->cur]; task_t*ot=f->task; tgroup_t*og=f->tg;
  f->task=t; f->tg=t->tg; t->fn(t->arg); f->task=ot; f->tg=og;
  if(t->parent) t->parent->nchild--; if(t->tg) t->tg->n--; task_unref(t->parent); task_unref(t); task_wake(); }
static void drain_tasks(void){ if(!T||T->f[T->cur].inner) return; while(T->ntq) task_run(C.mode==1?rndn(&R_sched,T->ntq):0); }
static void task_add(void(*fn)(void*),void*d,void(*cpyfn)(void*,void*),long as,long aa,int later,long*range){
  if(aa<1) aa=1;
  char*mem=malloc(as+aa),*arg=(char*)(((uintptr_t)mem+aa-1)&~(uintptr_t)(aa-1)); if(cpyfn) cpyfn(arg,d); else memcpy(arg,d,as);
  if(range){ ((long*)arg)[0]=range[0]; ((long*)arg)[1]=range[1]; }
  fiber_t*f=T&&!T->f[T->cur].inner?&T->f[T->cur]:NULL;
  if(!f||!later||C.mode!=1||T->ntq>=256||!rndn(&R_sched,4)){ fn(arg); free(mem); return; }
  if(!f->task){ f->task=calloc(1,sizeof(task_t)); f->task->refs=1; }
  task_t*t=calloc(1,sizeof*t); t->fn=fn; t->arg=arg; t->mem=mem; t->refs=1; t->parent=f->task; t->parent->refs++; t->parent->nchild++; t->tg=f->tg; if(t->tg) t->tg->n++;
   T->tq[T->ntq++]=t; tick(NULL); }
API void GOMP_task(void(*fn)(void*),void*d,void(*cpyfn)(void*,void*),long as,long aa,_Bool ifc,unsigned fl,void**dep,int pr,void*det){
  (void)pr; tick(NULL);
  /* with dependences: in the order given, which satisfies them */
  if(!ifc||dep||det||(fl&2)){ drain_tasks(); task_add(fn,d,cpyfn,as,aa,0,NULL); } else task_add(fn,d,cpyfn,as,aa,1,NULL); }
API void GOMP_taskwait(void){ tick(NULL); if(!T||T->f[T->cur].inner) return; fiber_t*f=&T->f[T->cur]; task_t*me=f->task;
  while(me&&me->nchild){ if(T->ntq) task_run(rndn(&R_sched,T->ntq)); else { f->waiting=(char*)&join_key+2; block(); } } }
API void GOMP_taskwait_depend(void**d){ (void)d; GOMP_taskwait(); }
API void GOMP_taskyield(void){ tick(NULL); if(T&&!T->f[T->cur].inner&&T->ntq&&C.mode==1&&rndn(&R_sched,2)) task_run(rndn(&R_sched,T->ntq)); }
API void GOMP_taskgroup_start(void){ if(!T||T->f[T->cur].inner) return; tgroup_t*g=calloc(1,sizeof*g); fiber_t*f=&T->f[T->cur]; g->up=f->tg; f->tg=g; }
API void GOMP_taskgroup_end(void){ tick(NULL); if(!T||T->f[T->cur].inner) return; fiber_t*f=&T->f[T->cur]; tgroup_t*g=f->tg; if(!g) return;
  while(g->n){ if(T->ntq) task_run(rndn(&R_sched,T->ntq)); else { f->waiting=(char*)&join_key+2; block(); } } f->tg=g->up; free(g); }
API void GOMP_taskloop(void(*fn)(void*),void*d,void(*cpyfn)(void*,void*),long as,long aa,unsigned fl,unsigned long nt,int pr,long s,long e,long st){
  (void)pr; long n=st>0?(e-s+st-1)/st:(s-e-st-1)/(-st),i; if(n<=0) return; if(fl&(1u<<12)){ simrt_event(SEV_UNSUPPORTED,"taskloop reduction"); die_event(); }
  long k=(fl&(1u<<9))?(nt?(n+(long)nt-1)/(long)nt:n):(nt?(long)nt:T?T->n:1); if(k>n) k=n; if(k<1) k=1;
  int grp=!(fl&(1u<<11)); if(grp) GOMP_taskgroup_start();
  for(i=0;i<k;i++){ long r[2]={s+n*i/k*st,s+n*(i+1)/k*st}; task_add(fn,d,cpyfn,as,aa,(fl&1024)!=0,r); }
  if(grp) GOMP_taskgroup_end(); }

/* ------------------------------------------------------- __tsan_ callbacks */
#define PC __builtin_return_address(0)
API void __tsan_init(void){}
API void __tsan_func_entry(void*p){ (void)p; } API void __tsan_func_exit(void){}
#define RW(n) API void __tsan_read##n(void*p){acc(p,n,0,PC);} API void __tsan_write##n(void*p){acc(p,n,1,PC);} \
 API void __tsan_unaligned_read##n(void*p){acc(p,n,0,PC);} API void __tsan_unaligned_write##n(void*p){acc(p,n,1,PC);} \
 API void __tsan_volatile_read##n(void*p){acc(p,n,0,PC);} API void __tsan_volatile_write##n(void*p){acc(p,n,1,PC);} \
 API void __tsan_unaligned_volatile_read##n(void*p){acc(p,n,0,PC);} API void __tsan_unaligned_volatile_write##n(void*p){acc(p,n,1,PC);} \
 API void __tsan_read_write##n(void*p){acc(p,n,0,PC);acc(p,n,1,PC);}
RW(1) RW(2) RW(4) RW(8) RW(16)
API void __tsan_vptr_update(void**p,void*v){(void)p;(void)v;} API void __tsan_vptr_read(void**p){(void)p;}
API void __tsan_read_range(void*p,unsigned long s){ acc(p,s,0,PC);} API void __tsan_write_range(void*p,unsigned long s){ acc(p,s,1,PC);}
typedef __int128 i128;
#define AT(n,t) \
 API t __tsan_atomic##n##_load(const volatile t*a,int m){(void)m;tick(PC);return *a;} \
 API void __tsan_atomic##n##_store(volatile t*a,t v,int m){(void)m;tick(PC);*a=v;} \
 API t __tsan_atomic##n##_exchange(volatile t*a,t v,int m){(void)m;tick(PC);t o=*a;*a=v;return o;} \
 API t __tsan_atomic##n##_fetch_add(volatile t*a,t v,int m){(void)m;tick(PC);t o=*a;*a=o+v;return o;} \
 API t __tsan_atomic##n##_fetch_sub(volatile t*a,t v,int m){(void)m;tick(PC);t o=*a;*a=o-v;return o;} \
 API t __tsan_atomic##n##_fetch_and(volatile t*a,t v,int m){(void)m;tick(PC);t o=*a;*a=o&v;return o;} \
 API t __tsan_atomic##n##_fetch_or(volatile t*a,t v,int m){(void)m;tick(PC);t o=*a;*a=o|v;return o;} \
 API t __tsan_atomic##n##_fetch_xor(volatile t*a,t v,int m){(void)m;tick(PC);t o=*a;*a=o^v;return o;} \
 API t __tsan_atomic##n##_fetch_nand(volatile t*a,t v,int m){(void)m;tick(PC);t o=*a;*a=~(o&v);return o;} \
 API int __tsan_atomic##n##_compare_exchange_strong(volatile t*a,t*c,t v,int m,int f){(void)m;(void)f;tick(PC);if(*a==*c){*a=v;return 1;}*c=*a;return 0;} \
 API int __tsan_atomic##n##_compare_exchange_weak(volatile t*a,t*c,t v,int m,int f){(void)m;(void)f;tick(PC);if(*a==*c){*a=v;return 1;}*c=*a;return 0;} \
 API t __tsan_atomic##n##_compare_exchange_val(volatile t*a,t c,t v,int m,int f){(void)m;(void)f;tick(PC);t o=*a;if(o==c)*a=v;return o;}
AT(8,int8_t) AT(16,int16_t) AT(32,int32_t) AT(64,int64_t) AT(128,i128)
API void __tsan_atomic_thread_fence(int m){(void)m;tick(PC);} API void __tsan_atomic_signal_fence(int m){(void)m;}

/* ------------------------------------------------------------- allocator */
#define MAG 0xA110CA7ED00DF00DULL
#define MAGF 0xDEADF4EEDEADF4EEULL
static u64 c_alloc,c_gsl,c_fftw; 
static void garbage(void *p,size_t n){
  u8 *b=p; size_t i;
  switch(C.fill){
   case 1: memset(p,0,n); break;
   case 2: memset(p,0xff,n); break;
   case 3: { for(i=0;i+8<=n;i+=8){ u64 r=rnd(&R_mem); memcpy(b+i,&r,8);} for(;i<n;i++) b[i]=(u8)rnd(&R_mem); break; }
   case 4: { for(i=0;i+8<=n;i+=8){ double d=(rnd01(&R_mem)-0.5)*1e4; memcpy(b+i,&d,8);} for(;i<n;i++) b[i]=0x3f; break; }
  } }
#define QN 4096
static struct { u8 *p; size_t n; } quar[QN]; static int qh; static size_t qbytes;
/* before the guarded header: what is alive, who asked for it and in which order */
typedef struct live { struct live *prev,*next; void *who; u64 seq; } live_t;
#define WHO __builtin_return_address(1)
#define HEAD (16+sizeof(live_t))
static live_t lives={&lives,&lives,NULL,0}; static u64 nlive[5],live_seq;   /* blocks, bytes, GSL blocks, FFTW blocks, FFTW plans */
static void q_evict(int i){ if(quar[i].p){ qbytes-=quar[i].n; free(quar[i].p-HEAD); quar[i].p=NULL; } }
static void *raw_alloc(size_t n,int zero,void *who){
  u8 *m=malloc(n+HEAD+16); if(!m) return NULL; u8 *p=m+HEAD; live_t *l=(live_t*)m; m=p-16; ((u64*)m)[0]=MAG^(u64)p; ((u64*)m)[1]=n;
  l->who=who; l->seq=live_seq++; l->prev=lives.prev; l->next=&lives; lives.prev->next=l; lives.prev=l; nlive[0]++; nlive[1]+=n;
  if(zero) memset(p,0,n); else if(C.fill) garbage(p,n);
  memset(p+n,0xC7,16); return p; }
static void note_fail(void){ REP.lastfail_inteam=T?T->n:0; snprintf(REP.lastfail_region,sizeof REP.lastfail_region,"%s",T?REP.region:""); }
static int inject(u64 *c,int64_t at){ u64 k=(*c)++; if(at>=0 && (int64_t)k>=at && (int64_t)k<at+(C.fail_alloc_len>0?C.fail_alloc_len:1)){ note_fail(); return 1;} return 0; }
API void *simrt_malloc(size_t n){ tick(NULL); REP.n_alloc++; if(inject(&c_alloc,C.fail_alloc_at)){ REP.n_alloc_failed++; errno=ENOMEM; return NULL; } 
  if(n>(1ULL<<34)){ errno=ENOMEM; return NULL; } return raw_alloc(n,0,WHO); }
API void *simrt_calloc(size_t a,size_t b){ tick(NULL); REP.n_alloc++; if(inject(&c_alloc,C.fail_alloc_at)){ REP.n_alloc_failed++; errno=ENOMEM; return NULL; } 
  size_t n; if(__builtin_mul_overflow(a,b,&n)||n>(1ULL<<34)){ errno=ENOMEM; return NULL; } return raw_alloc(n,1,WHO); }
API void *simrt_malloc_nf(size_t n){ return raw_alloc(n,0,WHO); }
API void *simrt_calloc_nf(size_t a,size_t b){ return raw_alloc(a*b,1,WHO); }
API void simrt_free(void *v){ u8 *p=v; if(!p) return; tick(NULL); u64 *h=(u64*)(p-16);
  if(h[0]==(MAGF^(u64)p)){ REP.double_free++; simrt_event(SEV_DOUBLE_FREE,"double free in %s",T?REP.region:"serial code"); die_event(); }
  if(h[0]!=(MAG^(u64)p)){ free(v); return; }
  size_t n=h[1]; int i; for(i=0;i<16;i++) if(p[n+i]!=0xC7){ REP.redzone_bad++; simrt_event(SEV_REDZONE,"heap overrun past a %zu-byte block (byte %d)",n,i); die_event(); }
  h[0]=MAGF^(u64)p; if(C.fill) garbage(p,n);
  live_t *l=(live_t*)(p-HEAD); l->prev->next=l->next; l->next->prev=l->prev; nlive[0]--; nlive[1]-=n;
  q_evict(qh); quar[qh].p=p; quar[qh].n=n; qbytes+=n; qh=(qh+1)%QN; int g=0; while(qbytes>(64u<<20)&&g<QN){ q_evict((qh+g)%QN); g++; } }
API void *simrt_realloc(void *v,size_t n){ if(!v) return simrt_malloc(n); u8*p=v; u64*h=(u64*)(p-16); if(h[0]!=(MAG^(u64)p)) return realloc(v,n);
  void*q=simrt_malloc(n); if(!q) return NULL; memcpy(q,v,h[1]<n?h[1]:n); simrt_free(v); return q; }
API char *simrt_strdup(const char*s){ size_t n=strlen(s)+1; char*q=simrt_malloc(n); if(q) memcpy(q,s,n); return q; }
extern void *fftw_malloc(size_t);
API void *simrt_fftw_malloc(size_t n){ tick(NULL); REP.n_fftwalloc++; if(inject(&c_alloc,C.fail_alloc_at)){ REP.n_alloc_failed++; return NULL; } void*p=fftw_malloc(n); if(p) nlive[3]++; if(p&&C.fill) garbage(p,n); return p; }
extern void fftw_free(void*); extern void *fftw_plan_dft_r2c_2d(int,int,double*,void*,unsigned),*fftw_plan_dft_c2r_2d(int,int,void*,double*,unsigned); extern void fftw_destroy_plan(void*);
API void simrt_fftw_free(void*p){ if(p) nlive[3]--; fftw_free(p); }
API void *simrt_fftw_r2c_2d(int a,int b,double*x,void*y,unsigned f){ void*p=fftw_plan_dft_r2c_2d(a,b,x,y,f); if(p) nlive[4]++; return p; }
API void *simrt_fftw_c2r_2d(int a,int b,void*x,double*y,unsigned f){ void*p=fftw_plan_dft_c2r_2d(a,b,x,y,f); if(p) nlive[4]++; return p; }
API void simrt_fftw_destroy(void*p){ if(p) nlive[4]--; fftw_destroy_plan(p); }
/* GSL's allocator, through its GOT */
static void *gsl_malloc(size_t n){ tick(NULL); REP.n_gslalloc++; if(inject(&c_gsl,C.fail_gsl_at)){ REP.n_gsl_failed++; errno=ENOMEM; return NULL; } void*p=malloc(n); if(p) nlive[2]++; if(p&&C.fill) garbage(p,n); return p; }
static void *gsl_calloc(size_t a,size_t b){ tick(NULL); REP.n_gslalloc++; if(inject(&c_gsl,C.fail_gsl_at)){ REP.n_gsl_failed++; errno=ENOMEM; return NULL; } void*p=calloc(a,b); if(p) nlive[2]++; return p; }
static void gsl_free(void*p){ if(p) nlive[2]--; free(p); }

/* throw() of the error machinery */
API void simrt_longjmp(jmp_buf b,int v) __attribute__((noreturn));
extern char nmt_error_message[256] __attribute__((weak));
API void simrt_longjmp(jmp_buf b,int v){
  if(T){ simrt_event(SEV_THROW_IN_TEAM,"error raised on simulated thread %d of %d inside parallel region %s: %.200s",T->cur,T->n,REP.region,&nmt_error_message?nmt_error_message:"?"); die_event(); }
  serial_team=NULL; active=0; longjmp(b,v); }
#define LJ(nm) API void nm(jmp_buf b,int v){ simrt_longjmp(b,v); }
LJ(simrt_longjmp_chk) LJ(simrt_longjmp_u) LJ(simrt_longjmp_s)
API void simrt_exit(int c){ simrt_event(SEV_EXIT,"library code called exit(%d)",c); die_event(); __builtin_unreachable(); }

/* ------------------------------------------------------- simulated disk */
#define MAXF 24
#define MAXBYTES (6u<<20)
typedef struct { int used; char name[256]; u64 size; u64 mtime; u8 data[MAXBYTES]; } dfile_t;
typedef struct {
  dfile_t f[MAXF];
  u64 cap;                 /* disk capacity in bytes, 0 = unlimited */
  int64_t w_fault_at; int w_kind; /* at write syscall k: 1 EIO, 2 ENOSPC from here on, 3 short write, 4 kill before, 5 kill after torn prefix, 6 EIO once */
  int64_t r_fault_at; int r_kind; /* 1 EIO, 2 short read, 3 EIO sticky, 4 early EOF sticky */
  int64_t o_fault_at; int o_kind; /* open: 1 EMFILE/ENOENT */
  int64_t c_fault_at; int c_kind; /* close: 1 EIO reported by close */
  u64 frac;                /* fraction/1000 of a torn or short transfer */
  u64 nw,nr,no,nc,nfl;
  int sticky_w,sticky_r;
  int small_io;            /* benign: every write/read is split to at most this many bytes */
} disk_t;
static disk_t *D;
#define DPFX "/simdisk/"
static dfile_t *dfind(const char*n){ int i; if(!D) return NULL; for(i=0;i<MAXF;i++) if(D->f[i].used==1&&!strcmp(D->f[i].name,n)) return &D->f[i]; return NULL; }
static dfile_t *dcreate(const char*n){ dfile_t*f=dfind(n); int i; if(f) return f; for(i=0;i<MAXF;i++) if(!D->f[i].used){ f=&D->f[i]; f->used=1; snprintf(f->name,sizeof f->name,"%s",n); f->size=0; return f;} return NULL; }
static u64 dused(void){ u64 s=0; int i; for(i=0;i<MAXF;i++) if(D->f[i].used) s+=D->f[i].size; return s; }
typedef struct { dfile_t *f; u64 pos; int rd,wr; int fd; } hnd_t;
static hnd_t *hnds[64];
static void put(hnd_t*h,const char*buf,size_t n){ h->f->mtime=D->no/48; if(h->pos>h->f->size) memset(h->f->data+h->f->size,0,h->pos-h->f->size); memcpy(h->f->data+h->pos,buf,n); h->pos+=n; if(h->pos>h->f->size) h->f->size=h->pos; }
/* a removed file takes up its space as long as it is open */
static void dreap(void){ int i,j; for(i=0;i<MAXF;i++) if(D->f[i].used==2){ for(j=0;j<64;j++) if(hnds[j]&&hnds[j]->f==&D->f[i]) break; if(j==64){ D->f[i].used=0; D->f[i].size=0; } } }
/* is this function of another library among the callers? */
extern int backtrace(void**,int);
static int within(const char*name){ void*b[48]; int i,n=backtrace(b,48); Dl_info d; for(i=0;i<n;i++) if(dladdr(b[i],&d)&&d.dli_sname&&!strcmp(d.dli_sname,name)) return 1; return 0; }
static ssize_t ck_write(void*c,const char*buf,size_t n){
  hnd_t*h=c; u64 k=D->nw++; REP.n_write++;
  if(!h->wr){ errno=EBADF; return 0; }
  if(h->pos+n>MAXBYTES){ errno=EFBIG; return 0; }
  if(D->sticky_w==1){ REP.f_eio_w++; errno=EIO; return 0; }
  if(D->sticky_w==2){ REP.f_enospc++; errno=ENOSPC; return 0; }
  if(D->w_fault_at>=0 && (int64_t)k==D->w_fault_at){
    size_t part=n*D->frac/1000; if(part>=n) part=n-1;
    switch(D->w_kind){
     case 1: D->sticky_w=1; REP.f_eio_w++; errno=EIO; return 0;
     case 2: D->sticky_w=2; REP.f_enospc++; if(part) put(h,buf,part); errno=ENOSPC; return part;
     case 3: if(part){ REP.f_short_w++; if(within("ffwend")) REP.wend_lost++; put(h,buf,part); return part; } break;
     case 4: REP.f_kill++; simrt_event(SEV_KILLED,"killed before write %lu",(unsigned long)k); _exit(EXIT_KILLED);
     case 5: REP.f_torn++; put(h,buf,part); simrt_event(SEV_KILLED,"killed inside write %lu",(unsigned long)k); _exit(EXIT_KILLED);
     case 6: REP.f_eio_w++; if(within("ffwend")) REP.wend_lost++; errno=EIO; return 0; /* this once only */
    } }
  if(D->cap){ u64 u=dused(); u64 grow=h->pos+n>h->f->size?h->pos+n-h->f->size:0; if(u+grow>D->cap){ size_t ok=u>=D->cap?0:n-(u+grow-D->cap); if((int64_t)ok<0) ok=0; REP.f_enospc++; if(ok) put(h,buf,ok); else { errno=ENOSPC; return 0; } errno=ENOSPC; return ok; } }
  if(D->small_io && n>(size_t)D->small_io) n=D->small_io;
  put(h,buf,n); return n; }
static ssize_t ck_read(void*c,char*buf,size_t n){
  hnd_t*h=c; u64 k=D->nr++; REP.n_read++;
  if(D->sticky_r==1){ REP.f_eio_r++; errno=EIO; return -1; }
  if(D->sticky_r==2){ REP.f_short_r++; return 0; }
  size_t av=h->pos<h->f->size?h->f->size-h->pos:0; if(n>av) n=av;
  if(D->r_fault_at>=0 && (int64_t)k==D->r_fault_at){
    switch(D->r_kind){
     case 1: REP.f_eio_r++; errno=EIO; return -1;
     case 2: REP.f_short_r++; n=n*D->frac/1000; if(!n&&av) n=1; break;
     case 3: D->sticky_r=1; REP.f_eio_r++; errno=EIO; return -1;
     case 4: D->sticky_r=2; REP.f_short_r++; return 0; } }
  if(D->small_io && n>(size_t)D->small_io) n=D->small_io;
  memcpy(buf,h->f->data+h->pos,n); h->pos+=n; return n; }
static int ck_seek(void*c,off64_t*o,int wh){ hnd_t*h=c; int64_t p=wh==SEEK_SET?0:wh==SEEK_CUR?(int64_t)h->pos:(int64_t)h->f->size; p+=*o; if(p<0||p>(int64_t)MAXBYTES){errno=EINVAL;return -1;} h->pos=p; *o=p; return 0; }
static int ck_close(void*c){ hnd_t*h=c; u64 k=D->nc++; REP.n_close++; hnds[h->fd]=NULL; dreap(); free(h); if(D->c_fault_at>=0&&(int64_t)k==D->c_fault_at){ REP.f_close_fail++; errno=EIO; return -1;} return 0; }
static FILE *my_fopen64(const char*n,const char*m){
  if(!D) return fopen64(n,m);
  if(strncmp(n,DPFX,strlen(DPFX))){ if(m[0]=='r'&&!strchr(m,'+')) return fopen64(n,m); errno=EACCES; return NULL; }
  u64 k=D->no++; REP.n_open++;
  if(D->o_fault_at>=0&&(int64_t)k==D->o_fault_at){ REP.f_open_fail++; errno=EMFILE; return NULL; }
  if(strlen(n)>255){ errno=ENAMETOOLONG; return NULL; }
  if(!n[strlen(DPFX)]){ errno=EISDIR; return NULL; }
  if(strchr(n+strlen(DPFX),'/')){ errno=ENOENT; return NULL; }
  dfile_t*f=dfind(n); if(m[0]=='r'&&!f){ errno=ENOENT; return NULL; }
  if(m[0]=='w'){ f=dcreate(n); if(!f){ errno=ENOSPC; return NULL; } f->size=0; f->mtime=D->no/48; }
  if(m[0]=='a'){ f=dcreate(n); if(!f) return NULL; }
  hnd_t*h=calloc(1,sizeof *h); h->f=f; h->rd=1; h->wr=(m[0]!='r')||strchr(m,'+')!=NULL;
  int i; for(i=0;i<64;i++) if(!hnds[i]) break; if(i==64){ errno=EMFILE; free(h); return NULL; } hnds[i]=h; h->fd=i;
  cookie_io_functions_t io={ck_read,ck_write,ck_seek,ck_close};
  FILE*fp=fopencookie(h,m,io); 
  return fp; }
static int my_remove(const char*n){ if(!D||strncmp(n,DPFX,strlen(DPFX))) { if(D){ errno=EPERM; return -1; } return remove(n); }
  REP.n_remove++; dfile_t*f=dfind(n); if(!f){errno=ENOENT;return -1;} f->used=2; dreap(); return 0; }
/* file calls that the library or Python make themselves */
__attribute__((used,visibility("default"))) FILE *simrt_fopen(const char*n,const char*m){ return my_fopen64(n,m); }
__attribute__((used,visibility("default"))) int simrt_remove(const char*n){ return my_remove(n); }
API FILE *simrt_fopen64(const char*n,const char*m){ return my_fopen64(n,m); }
API int simrt_unlink(const char*n){ return my_remove(n); }
__attribute__((used,visibility("default"))) int simrt_rename(const char*a,const char*b){ if(!D||(strncmp(a,DPFX,strlen(DPFX))&&strncmp(b,DPFX,strlen(DPFX)))){ if(D){ errno=EPERM; return -1; } return rename(a,b); }
  if(strlen(b)>255||strncmp(b,DPFX,strlen(DPFX))||strchr(b+strlen(DPFX),'/')){ errno=ENOENT; return -1; }
  dfile_t*f=dfind(a),*g=dfind(b); if(!f){ errno=ENOENT; return -1; } if(f==g) return 0; if(g) g->used=2; snprintf(f->name,sizeof f->name,"%s",b); dreap(); return 0; }
__attribute__((used,visibility("default"))) int simrt_access(const char*n,int m){ if(!D||strncmp(n,DPFX,strlen(DPFX))) return access(n,m); if(!n[strlen(DPFX)]||dfind(n)) return 0; errno=ENOENT; return -1; }
__attribute__((used,visibility("default"))) int simrt_stat(const char*n,struct stat*b){ if(!D||strncmp(n,DPFX,strlen(DPFX))) return stat(n,b); memset(b,0,sizeof *b);
  if(!n[strlen(DPFX)]){ b->st_mode=S_IFDIR|0755; return 0; } dfile_t*f=dfind(n); if(!f){ errno=ENOENT; return -1; } b->st_mode=S_IFREG|0644; b->st_size=f->size; b->st_mtime=1700000000+f->mtime; b->st_ino=10+(f-D->f); return 0; }
static int my_ftruncate64(int fd,off64_t l){ (void)fd;(void)l; if(!D) return ftruncate64(fd,l); errno=EINVAL; return -1; }
static int my_open64(const char*n,int fl,...){ va_list a; va_start(a,fl); int md=va_arg(a,int); va_end(a); if(D&&!strncmp(n,DPFX,strlen(DPFX))){ errno=ENOENT; return -1;} if(D&&(fl&(O_WRONLY|O_RDWR|O_CREAT|O_TRUNC))){ errno=EACCES; return -1; } return open64(n,fl,md); }
API int simrt_stat64(const char*n,struct stat*b){ return simrt_stat(n,b); }

/* ---------------------------------------------------------- GOT patching */
typedef struct { const char *lib,*sym; void *to; int hits; } patch_t;
static int ph_cb(struct dl_phdr_info*i,size_t sz,void*v){ (void)sz; patch_t*p=v; if(!i->dlpi_name||!strstr(i->dlpi_name,p->lib)) return 0;
  ElfW(Dyn)*d=NULL; int k; for(k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_DYNAMIC) d=(void*)(i->dlpi_addr+i->dlpi_phdr[k].p_vaddr);
  if(!d) return 0; ElfW(Sym)*st=NULL; char*ss=NULL; ElfW(Rela)*r1=NULL,*r2=NULL; size_t n1=0,n2=0;
  for(;d->d_tag!=DT_NULL;d++){ switch(d->d_tag){case DT_SYMTAB:st=(void*)d->d_un.d_ptr;break;case DT_STRTAB:ss=(void*)d->d_un.d_ptr;break;case DT_JMPREL:r1=(void*)d->d_un.d_ptr;break;case DT_PLTRELSZ:n1=d->d_un.d_val/sizeof(ElfW(Rela));break;case DT_RELA:r2=(void*)d->d_un.d_ptr;break;case DT_RELASZ:n2=d->d_un.d_val/sizeof(ElfW(Rela));break;} }
  int pass; for(pass=0;pass<2;pass++){ ElfW(Rela)*r=pass?r2:r1; size_t n=pass?n2:n1,j; for(j=0;r&&j<n;j++){ int ty=ELF64_R_TYPE(r[j].r_info); if(ty!=R_X86_64_JUMP_SLOT&&ty!=R_X86_64_GLOB_DAT) continue; if(strcmp(ss+st[ELF64_R_SYM(r[j].r_info)].st_name,p->sym)) continue;
    void**slot=(void**)(i->dlpi_addr+r[j].r_offset); char*pg=(char*)((u64)slot&~4095ULL); mprotect(pg,8192,PROT_READ|PROT_WRITE); *slot=p->to; p->hits++; } }
  return 0; }
static int patch(const char*lib,const char*sym,void*to){ patch_t p={lib,sym,to,0}; dl_iterate_phdr(ph_cb,&p); return p.hits; }

/* ------------------------------------------------------------ control API */
#define CTL __attribute__((visibility("default"),used))
static int inited;
static struct jmp_dummy {int x;} jd;
static void ctor(void){ if(inited) return; inited=1; Dl_info d; dladdr((void*)ctor,&d); img_base=d.dli_fbase; (void)jd;
  sh=mmap(NULL,SHN*sizeof(sh_t),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  trace=mmap(NULL,MAXTRACE*sizeof(sw_t),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  plan=mmap(NULL,MAXTRACE*sizeof(sw_t),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  simrt_rep=mmap(NULL,65536,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset(simrt_rep,0,sizeof(report_t)); }
static void __attribute__((constructor)) ctor0(void){ ctor(); }
CTL int simrt_setup(void){ int n=0; 
  n+=patch("libgsl.so","malloc",gsl_malloc)?1:0; n+=patch("libgsl.so","calloc",gsl_calloc)?2:0; patch("libgsl.so","free",gsl_free);
  n+=patch("libcfitsio.so","fopen64",my_fopen64)?4:0; n+=patch("libcfitsio.so","remove",my_remove)?8:0;
  n+=patch("libcfitsio.so","ftruncate64",my_ftruncate64)?16:0; n+=patch("libcfitsio.so","open64",my_open64)?32:0; return n; }
CTL void simrt_private(void){ /* a worker process gets shared pages of its own */
  trace=mmap(NULL,MAXTRACE*sizeof(sw_t),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  simrt_rep=mmap(NULL,65536,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset(simrt_rep,0,sizeof(report_t)); D=NULL; }
CTL cfg_t *simrt_config(void){ return &simrt_cfg; }
CTL report_t *simrt_report(void){ return simrt_rep; }
CTL void simrt_begin(void){ /* (re)start a run from C.seed */
  R_sched.s=C.seed*0x9E3779B97F4A7C15ULL+1; R_team.s=C.seed^0x5bd1e995cafeULL; R_mem.s=C.seed*31+7; rnd(&R_sched); rnd(&R_team); rnd(&R_mem);
  gstep=0; next_pre=0; iplan=0; ntrace=0; trace_over=0; region_gen=1; c_alloc=c_gsl=c_fftw=0; nlocks=0; active=0; T=NULL; serial_team=NULL; REP.ileave_hash=0xcbf29ce484222325ULL;
  if(C.profile) memset(sh,0,SHN*sizeof(sh_t)); }
CTL void simrt_clear_report(void){ memset(simrt_rep,0,sizeof(report_t)); }
CTL void simrt_reset_counters(void){ c_alloc=c_gsl=c_fftw=0; }
CTL u64 simrt_counter(int k){ return k==0?c_alloc:k==1?c_gsl:c_fftw; }
CTL u64 simrt_live(int k){ return nlive[k]; }
CTL u64 simrt_live_seq(void){ return live_seq; }
/* blocks alive that were handed out from this point on: sizes and code locations */
CTL int simrt_live_list(u64 from,u64 *out,int m){ int n=0; live_t*l; for(l=lives.next;l!=&lives&&n<m;l=l->next) if(l->seq>=from){ out[3*n]=l->seq; out[3*n+1]=((u64*)((u8*)l+sizeof(live_t)))[1]; out[3*n+2]=(u64)l->who-(u64)img_base; n++; } return n; }
CTL u64 simrt_steps(void){ return gstep; }
CTL u8 *simrt_hot(void){ return hotpc; } CTL u64 simrt_nhot(void){ return nhot; }
CTL u64 simrt_trace_len(void){ return REP.ntrace; } CTL sw_t *simrt_trace(void){ return trace; } CTL int simrt_trace_over(void){ return trace_over; }
CTL sw_t *simrt_plan(void){ return plan; } CTL void simrt_set_plan_len(u64 n){ nplan=n; iplan=0; }
CTL void simrt_heap_check(void){ }
/* disk */
CTL int simrt_disk_open(void){ int i,n=0; for(i=0;i<64;i++) n+=hnds[i]!=NULL; if(D) dreap(); return n; }
CTL disk_t *simrt_disk_new(void){ if(!D){ D=mmap(NULL,sizeof(disk_t),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(D==MAP_FAILED){D=NULL;return NULL;} }
  int i; for(i=0;i<MAXF;i++){ D->f[i].used=0; D->f[i].size=0; } D->cap=0; D->w_fault_at=D->r_fault_at=D->o_fault_at=D->c_fault_at=-1; D->nw=D->nr=D->no=D->nc=0; D->sticky_w=D->sticky_r=0; D->small_io=0; return D; }
CTL void simrt_disk_faults(int64_t w,int wk,int64_t r,int rk,int64_t o,int64_t c,u64 frac,u64 cap,int small){ D->w_fault_at=w; D->w_kind=wk; D->r_fault_at=r; D->r_kind=rk; D->o_fault_at=o; D->c_fault_at=c; D->frac=frac; D->cap=cap; D->small_io=small; D->nw=D->nr=D->no=D->nc=0; D->sticky_w=D->sticky_r=0; }
CTL void simrt_disk_counts(u64*o){ o[0]=D->nw;o[1]=D->nr;o[2]=D->no;o[3]=D->nc; }
CTL int64_t simrt_disk_size(const char*n){ dfile_t*f=dfind(n); return f?(int64_t)f->size:-1; }
CTL int64_t simrt_disk_get(const char*n,u8*o,u64 m){ dfile_t*f=dfind(n); if(!f) return -1; u64 k=f->size<m?f->size:m; memcpy(o,f->data,k); return k; }
CTL int simrt_disk_put(const char*n,const u8*b,u64 m){ dfile_t*f=dcreate(n); if(!f||m>MAXBYTES) return -1; memcpy(f->data,b,m); f->size=m; f->mtime=D->no/48; return 0; }
CTL int64_t simrt_disk_mtime(const char*n){ dfile_t*f=dfind(n); return f?(int64_t)f->mtime:-1; }
CTL int simrt_disk_ino(const char*n){ dfile_t*f=dfind(n); return f?(int)(f-D->f):-1; }
CTL void simrt_disk_names(char*o,int m){ int i; size_t k=0; o[0]=0; for(i=0;D&&i<MAXF;i++) if(D->f[i].used==1&&k+260<(size_t)m) k+=sprintf(o+k,"%s\n",D->f[i].name); }
CTL void simrt_disk_rm(const char*n){ dfile_t*f=dfind(n); if(f){f->used=0;f->size=0;} }
/* wrapper code that gives up the interpreter lock: other callers run here */
static void *gil_hook; extern void *PyEval_SaveThread(void); extern void PyEval_RestoreThread(void*);
extern void *PyObject_CallNoArgs(void*); extern void PyErr_Clear(void);
static void gil_point(void){ if(gil_hook){ void*r=PyObject_CallNoArgs(gil_hook); if(!r) PyErr_Clear(); } }
API void *simrt_savethread(void){ gil_point(); return PyEval_SaveThread(); }
API void simrt_restorethread(void*t){ PyEval_RestoreThread(t); gil_point(); }
CTL void simrt_set_gil_hook(void*h){ gil_hook=h; }
CTL int simrt_open_handles(void){ int i,n=0; for(i=0;i<64;i++) if(hnds[i]) n++; return n; }
