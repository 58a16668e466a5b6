// A small OpenMP runtime over pthreads, taking the place of libgomp in the schedule and race checks. It is compiled without
// instrumentation: only pthread calls (create, join, mutexes, condition variables) order accesses in ThreadSanitizer's eyes, so
// exactly the ordering OpenMP promises is visible. Schedules are chosen by the harness: free running with random start delays,
// or one thread at a time in a random order.
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sched.h>
#include <unistd.h>
#include <time.h>
#include <atomic>
#include <vector>
#include <map>
extern "C" {
struct Loop { std::atomic<int> ready{0}; std::atomic<int> left{0}; std::atomic<uint64_t> next{0}; uint64_t count=0; int64_t start=0,incr=1; uint64_t chunk=1; int sched=0; uint64_t seq=0; void*copy=nullptr; };
struct Team { int n; int mode; uint64_t seed; pthread_mutex_t mu; pthread_cond_t cv; int arrived=0; uint64_t gen=0; int turn=0; std::vector<int> perm; Loop loops[32]; std::atomic<int> finished{0}; };
struct Tls { Team*team; int id; int level; uint64_t ws; Loop*cur; uint64_t static_next; uint64_t rng; };
static __thread Tls tls={nullptr,0,0,0,nullptr,0,0};
static int g_threads=2,g_mode=0; static uint64_t g_seed=1; static std::atomic<uint64_t> g_regions{0},g_started{0},g_orders{0};
static uint64_t mix(uint64_t x){ x+=0x9E3779B97F4A7C15ull; x=(x^(x>>30))*0xBF58476D1CE4E5B9ull; x=(x^(x>>27))*0x94D049BB133111EBull; return x^(x>>31); }
void rvgomp_set(int n,int mode,uint64_t seed){ g_threads=n; g_mode=mode; g_seed=seed; }
uint64_t rvgomp_regions(){ return g_regions; } uint64_t rvgomp_started(){ return g_started; }
static void permute(Team*t){ t->perm.resize(t->n); for(int i=0;i<t->n;i++) t->perm[i]=i; t->seed=mix(t->seed); uint64_t s=t->seed; for(int i=t->n-1;i>0;i--){ s=mix(s); int j=s%(i+1); int q=t->perm[i]; t->perm[i]=t->perm[j]; t->perm[j]=q; } t->turn=0; }
static void wait_turn(Team*t,int id){ while(t->perm[t->turn]!=id) pthread_cond_wait(&t->cv,&t->mu); }
static void jitter(){ Tls&k=tls; if(!k.team||k.team->mode!=0) return; k.rng=mix(k.rng+1); switch(k.rng%7){ case 0: sched_yield(); break; case 1: { struct timespec ts={0,(long)((k.rng>>8)%60000)}; nanosleep(&ts,nullptr); break; } } }
int omp_get_num_threads(){ return tls.team?tls.team->n:1; }
int omp_get_thread_num(){ return tls.team?tls.id:0; }
int omp_get_max_threads(){ return g_threads; }
void omp_set_num_threads(int n){ if(n>0) g_threads=n; }
int omp_get_num_procs(){ return g_threads; }
int omp_in_parallel(){ return tls.team&&tls.team->n>1; }
int omp_get_level(){ return tls.level; } int omp_get_active_level(){ return omp_in_parallel(); } int omp_get_thread_limit(){ return 1024; }
void omp_set_dynamic(int){} int omp_get_dynamic(){ return 0; } void omp_set_nested(int){} int omp_get_nested(){ return 0; } void omp_set_max_active_levels(int){} int omp_get_max_active_levels(){ return 1; } void omp_set_schedule(int,int){}
double omp_get_wtime(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
void omp_init_lock(void**l){ pthread_mutex_t*m=(pthread_mutex_t*)malloc(sizeof *m); pthread_mutex_init(m,nullptr); *l=m; } void omp_destroy_lock(void**l){ pthread_mutex_destroy((pthread_mutex_t*)*l); free(*l); } void omp_set_lock(void**l){ pthread_mutex_lock((pthread_mutex_t*)*l); } void omp_unset_lock(void**l){ pthread_mutex_unlock((pthread_mutex_t*)*l); } int omp_test_lock(void**l){ return pthread_mutex_trylock((pthread_mutex_t*)*l)==0; }
struct Start { Team*t; int id; void(*fn)(void*); void*data; };
static void run_member(Start*s){ Team*t=s->t; Tls old=tls; tls={t,s->id,old.level+1,0,nullptr,0,mix(t->seed^(uint64_t)s->id)}; 
  if(t->mode==1&&t->n>1){ pthread_mutex_lock(&t->mu); wait_turn(t,s->id); pthread_mutex_unlock(&t->mu); } else jitter();
  s->fn(s->data);
  if(t->mode==1&&t->n>1){ pthread_mutex_lock(&t->mu); t->turn=t->turn+1<t->n?t->turn+1:t->turn; pthread_cond_broadcast(&t->cv); pthread_mutex_unlock(&t->mu); }
  tls=old; }
static void*thread_main(void*p){ run_member((Start*)p); return nullptr; }
static void parallel(void(*fn)(void*),void*data,unsigned num,void(*init)(Team*,void*),void*arg){
  Team*t=new Team; t->n=tls.team?1:(num?(int)num:g_threads); if(t->n<1) t->n=1; t->mode=g_mode; t->seed=mix(g_seed^(++g_regions*7919)); pthread_mutex_init(&t->mu,nullptr); pthread_cond_init(&t->cv,nullptr); permute(t); if(init) init(t,arg);
  std::vector<pthread_t> th(t->n); std::vector<Start> st(t->n); for(int i=0;i<t->n;i++) st[i]={t,i,fn,data}; g_started+=t->n;
  for(int i=1;i<t->n;i++) if(pthread_create(&th[i],nullptr,thread_main,&st[i])) abort();
  run_member(&st[0]); for(int i=1;i<t->n;i++) pthread_join(th[i],nullptr);
  pthread_mutex_destroy(&t->mu); pthread_cond_destroy(&t->cv); delete t; }
void GOMP_parallel(void(*fn)(void*),void*data,unsigned num,unsigned){ parallel(fn,data,num,nullptr,nullptr); }
void GOMP_barrier(){ Team*t=tls.team; if(!t||t->n==1) return; int id=tls.id; pthread_mutex_lock(&t->mu); uint64_t g=t->gen; 
  if(++t->arrived==t->n){ t->arrived=0; t->gen++; permute(t); pthread_cond_broadcast(&t->cv); } else { if(t->mode==1&&t->turn+1<t->n){ t->turn++; pthread_cond_broadcast(&t->cv); } while(t->gen==g) pthread_cond_wait(&t->cv,&t->mu); }
  if(t->mode==1) wait_turn(t,id); pthread_mutex_unlock(&t->mu); jitter(); }
bool GOMP_barrier_cancel(){ GOMP_barrier(); return false; }
static pthread_mutex_t crit=PTHREAD_MUTEX_INITIALIZER,atom=PTHREAD_MUTEX_INITIALIZER,namedmu=PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start(){ jitter(); pthread_mutex_lock(&crit); } void GOMP_critical_end(){ pthread_mutex_unlock(&crit); }
static std::atomic<int> nspin{0}; static std::map<void**,pthread_mutex_t*>*named;
void GOMP_critical_name_start(void**p){ jitter(); while(nspin.exchange(1)) sched_yield(); if(!named) named=new std::map<void**,pthread_mutex_t*>; auto&m=(*named)[p]; if(!m){ m=new pthread_mutex_t; pthread_mutex_init(m,nullptr); } pthread_mutex_t*q=m; nspin.store(0); pthread_mutex_lock(q); }
void GOMP_critical_name_end(void**p){ while(nspin.exchange(1)) sched_yield(); pthread_mutex_t*q=(*named)[p]; nspin.store(0); pthread_mutex_unlock(q); }
void GOMP_atomic_start(){ jitter(); pthread_mutex_lock(&atom); } void GOMP_atomic_end(){ pthread_mutex_unlock(&atom); }
// ---- work sharing
enum { S_STATIC=1,S_DYNAMIC=2,S_GUIDED=3,S_SECTIONS=4,S_SINGLE=5 };
static Loop*enter(int sched,int64_t start,uint64_t count,int64_t incr,uint64_t chunk){ Team*t=tls.team; static __thread Loop solo; uint64_t k=tls.ws++; Loop*l; if(!t||t->n==1){ l=&solo; l->ready=1; l->sched=sched; l->start=start; l->count=count; l->incr=incr; l->chunk=chunk?chunk:1; l->next=0; l->seq=k; l->left=1; }
  else { l=&t->loops[k%32]; for(;;){ int e=0; if(l->ready.load()==2&&l->seq==k) break; if(l->ready.load()==0&&l->ready.compare_exchange_strong(e,1)){ l->sched=sched; l->start=start; l->count=count; l->incr=incr; l->chunk=chunk?chunk:1; l->next=0; l->seq=k; l->left=t->n; l->copy=nullptr; l->ready=2; break; } sched_yield(); } }
  tls.cur=l; tls.static_next=0; return l; }
static bool take(uint64_t&a,uint64_t&b){ Loop*l=tls.cur; Team*t=tls.team; int n=t?t->n:1,id=t?tls.id:0; if(l->sched==S_STATIC){ uint64_t c=l->chunk==(uint64_t)-1?(l->count+n-1)/n:l->chunk; if(c==0) return false; uint64_t at=(tls.static_next*n+id)*c; if(at>=l->count||(l->chunk==(uint64_t)-1&&tls.static_next)) return false; tls.static_next++; a=at; b=at+c<l->count?at+c:l->count; return true; }
  jitter(); for(;;){ uint64_t at=l->next.load(std::memory_order_relaxed); if(at>=l->count) return false; uint64_t c=l->chunk; if(l->sched==S_GUIDED){ uint64_t q=(l->count-at)/n/2; if(q>c) c=q; } uint64_t e=at+c<l->count?at+c:l->count; if(l->next.compare_exchange_weak(at,e,std::memory_order_relaxed)){ a=at; b=e; return true; } } }
static void leave(){ Loop*l=tls.cur; tls.cur=nullptr; if(l&&tls.team&&tls.team->n>1&&--l->left==0) l->ready.store(0); }
static uint64_t trips(int64_t s,int64_t e,int64_t i){ if(i>0) return s<e?((uint64_t)(e-s)+i-1)/i:0; return s>e?((uint64_t)(s-e)+(-i)-1)/(-i):0; }
static bool lnext(long*a,long*b){ uint64_t x,y; if(!take(x,y)) return false; Loop*l=tls.cur; *a=l->start+(int64_t)x*l->incr; *b=l->start+(int64_t)y*l->incr; return true; }
static bool lstart(int s,long st,long e,long i,long c,long*a,long*b){ enter(s,st,trips(st,e,i),i,s==S_STATIC&&c==0?(uint64_t)-1:(uint64_t)c); return lnext(a,b); }
struct PL{ int s; long st,e,i,c; };
static void pinit(Team*t,void*p){ PL*q=(PL*)p; Loop*l=&t->loops[0]; l->sched=q->s; l->start=q->st; l->count=trips(q->st,q->e,q->i); l->incr=q->i; l->chunk=q->s==S_STATIC&&q->c==0?(uint64_t)-1:(q->c?q->c:1); l->next=0; l->seq=0; l->left=t->n; l->ready=2; }
struct PW{ void(*fn)(void*); void*d; PL pl; }; static void pfn(void*p){ PW*w=(PW*)p; enter(w->pl.s,w->pl.st,trips(w->pl.st,w->pl.e,w->pl.i),w->pl.i,w->pl.s==S_STATIC&&w->pl.c==0?(uint64_t)-1:(uint64_t)w->pl.c); w->fn(w->d); }
static void ploop(int s,void(*fn)(void*),void*d,unsigned n,long st,long e,long i,long c){ PW w={fn,d,{s,st,e,i,c}}; parallel(pfn,&w,n,pinit,&w.pl); }
#define LOOPS(name,S) bool GOMP_loop_##name##_start(long s,long e,long i,long c,long*a,long*b){ return lstart(S,s,e,i,c,a,b); } bool GOMP_loop_##name##_next(long*a,long*b){ return lnext(a,b); } void GOMP_parallel_loop_##name(void(*f)(void*),void*d,unsigned n,long s,long e,long i,long c,unsigned){ ploop(S,f,d,n,s,e,i,c); } \
 bool GOMP_loop_ull_##name##_start(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long c,unsigned long long*a,unsigned long long*b){ (void)up; return lstart(S,(long)s,(long)e,(long)i,(long)c,(long*)a,(long*)b); } bool GOMP_loop_ull_##name##_next(unsigned long long*a,unsigned long long*b){ return lnext((long*)a,(long*)b); }
#define RLOOPS(name,S) bool GOMP_loop_##name##_start(long s,long e,long i,long*a,long*b){ return lstart(S,s,e,i,1,a,b); } bool GOMP_loop_##name##_next(long*a,long*b){ return lnext(a,b); } void GOMP_parallel_loop_##name(void(*f)(void*),void*d,unsigned n,long s,long e,long i,unsigned){ ploop(S,f,d,n,s,e,i,1); } \
 bool GOMP_loop_ull_##name##_start(bool up,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long*a,unsigned long long*b){ (void)up; return lstart(S,(long)s,(long)e,(long)i,1,(long*)a,(long*)b); } bool GOMP_loop_ull_##name##_next(unsigned long long*a,unsigned long long*b){ return lnext((long*)a,(long*)b); }
LOOPS(static,S_STATIC) LOOPS(dynamic,S_DYNAMIC) LOOPS(guided,S_GUIDED) LOOPS(nonmonotonic_dynamic,S_DYNAMIC) LOOPS(nonmonotonic_guided,S_GUIDED) RLOOPS(runtime,S_DYNAMIC) RLOOPS(nonmonotonic_runtime,S_DYNAMIC) RLOOPS(maybe_nonmonotonic_runtime,S_DYNAMIC)
void GOMP_loop_end(){ leave(); GOMP_barrier(); } void GOMP_loop_end_nowait(){ leave(); } bool GOMP_loop_end_cancel(){ GOMP_loop_end(); return false; }
unsigned GOMP_sections_start(unsigned n){ enter(S_SECTIONS,0,n,1,1); uint64_t a,b; tls.cur->sched=S_DYNAMIC; return take(a,b)?a+1:0; } unsigned GOMP_sections_next(){ uint64_t a,b; return take(a,b)?a+1:0; } void GOMP_sections_end(){ leave(); GOMP_barrier(); } void GOMP_sections_end_nowait(){ leave(); }
struct SW{ void(*fn)(void*); void*d; unsigned c; }; static void sfn(void*p){ SW*w=(SW*)p; enter(S_DYNAMIC,0,w->c,1,1); w->fn(w->d); } void GOMP_parallel_sections(void(*f)(void*),void*d,unsigned n,unsigned c,unsigned){ SW w={f,d,c}; parallel(sfn,&w,n,nullptr,nullptr); }
bool GOMP_single_start(){ enter(S_DYNAMIC,0,1,1,1); uint64_t a,b; bool r=take(a,b); leave(); return r; }
static Loop*copyloop; void*GOMP_single_copy_start(){ enter(S_DYNAMIC,0,1,1,1); uint64_t a,b; if(take(a,b)){ return nullptr; } Loop*l=tls.cur; GOMP_barrier(); void*p=l->copy; GOMP_barrier(); leave(); return p; } void GOMP_single_copy_end(void*d){ Loop*l=tls.cur; l->copy=d; GOMP_barrier(); GOMP_barrier(); leave(); }
void GOMP_task(void(*fn)(void*),void*data,void(*cpy)(void*,void*),long sz,long al,bool,unsigned,void**,int,void*){ if(cpy){ char*b=(char*)malloc(sz+al); char*p=(char*)(((uintptr_t)b+al-1)&~(uintptr_t)(al-1)); cpy(p,data); fn(p); free(b); } else fn(data); }
void GOMP_taskwait(){} void GOMP_taskgroup_start(){} void GOMP_taskgroup_end(){} void GOMP_taskyield(){} bool GOMP_cancel(int,bool){ return false; } bool GOMP_cancellation_point(int){ return false; } void GOMP_ordered_start(){ abort(); } void GOMP_ordered_end(){}
}
