#include "sched_rt.h"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <malloc.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <vector>
#include <map>
#include <new>
#include <algorithm>
#define NT 8
extern "C" void* __real_calloc(size_t,size_t);
#define X extern "C" __attribute__((visibility("default")))
namespace mc{ void beat(); }
namespace sched {
bool controlled=false;
static int nthreads=1;
struct VC{uint32_t c[NT]; VC(){memset(c,0,sizeof c);} void join(const VC&o){for(int i=0;i<NT;i++)if(o.c[i]>c[i])c[i]=o.c[i];}};
struct Thr{ int tid; sem_t sem; pthread_t pt; bool started=false,enabled=false,inside=false; int pend=-1; VC vc; int ws,cur; void(*fn)(void*); void*data; void*copypriv; };
static Thr T[NT];
static thread_local int self=0;       // index within the pool (0: the main thread)
static int level=0;                   // 1 while a controlled team is running
static int team=1;
static volatile int running=0;
// --- choices
static std::vector<int> prefix; struct Pt{int n;bool cur;int choice;}; static std::vector<Pt> pts; static std::string violation; static uint64_t naccess=0,nregions=0;
static std::string schedtext(){ std::string s; for(auto&p:pts){if(s.size()>600){s+="...";break;} s+=std::to_string(p.choice);} return s; }
static void setviol(const std::string&s){ if(violation.empty())violation=s+" [schedule "+schedtext()+"]"; }
static void (*onfatal)()=0;
static void fatal(const std::string&s){ setviol(s); fprintf(stderr,"runtime error: %s\n",violation.c_str()); fflush(stderr); abort(); }
// picks the next thread; current one may be disabled
static int choose(){
  int en[NT],n=0; bool cur=T[running].enabled; if(cur)en[n++]=running; for(int i=0;i<team;i++)if(i!=running&&T[i].enabled)en[n++]=i;
  if(n==0)fatal("deadlock: no thread can continue");
  int k=0; size_t i=pts.size(); if(n>1){ if(i<prefix.size()){k=prefix[i]; if(k>=n)fatal("schedule diverges on replay: behaviour is not determined by the schedule");} pts.push_back({n,cur,k}); if(pts.size()>200000)fatal("endless execution"); }
  return en[k]; }
static void handoff(int to){ if(to==self)return; running=to; sem_post(&T[to].sem); int me=self; while(sem_wait(&T[me].sem)){} }
static inline bool on(){return level==1&&T[self].inside;}
static void point(){ if(!on()||team<2)return; handoff(choose()); }
static void block(){ T[self].enabled=false; handoff(choose()); }   // somebody sets enabled again
static inline void tick(int t){T[t].vc.c[t]++;}
// --- sync objects
static std::map<uintptr_t,VC>*sync_=0; static VC&syncvar(uintptr_t a){ if(!sync_)sync_=new std::map<uintptr_t,VC>(); return (*sync_)[a]; }
static void acquire(uintptr_t a){T[self].vc.join(syncvar(a));}
static void release(uintptr_t a){syncvar(a).join(T[self].vc);tick(self);}
struct Lock{int owner=-1;int depth=0;}; static std::map<uintptr_t,Lock>*locks_=0; static Lock&lk(uintptr_t a){ if(!locks_)locks_=new std::map<uintptr_t,Lock>(); return (*locks_)[a]; }
static void lock(uintptr_t a,bool nest=false){ if(!on())return; point(); for(;;){Lock&l=lk(a); if(l.owner<0||(nest&&l.owner==self)){l.owner=self;l.depth++;acquire(a);return;} T[self].pend=1; T[self].copypriv=(void*)a; block();} }
static void unlock(uintptr_t a){ if(!on())return; Lock&l=lk(a); if(l.owner!=self)return; if(--l.depth>0)return; l.owner=-1; release(a); for(int i=0;i<team;i++)if(!T[i].enabled&&T[i].pend==1&&T[i].copypriv==(void*)a){T[i].enabled=true;T[i].pend=-1;} point(); }
static bool trylock(uintptr_t a){ if(!on())return true; point(); Lock&l=lk(a); if(l.owner<0){l.owner=self;l.depth=1;acquire(a);return true;} return false; }
// --- barrier
static int arrived=0; static VC bvc;
static void barrier(bool final_=false){ if(!on()||team<2)return; point(); (void)final_; bvc.join(T[self].vc); arrived++;
  if(arrived==team){ arrived=0; VC v=bvc; bvc=VC(); for(int i=0;i<team;i++){T[i].vc=v; T[i].enabled=true; T[i].pend=-1;} for(int i=0;i<team;i++)tick(i); point(); }
  else { T[self].pend=2; block(); } }
// --- worksharing
struct WS{ bool single=false; bool taken=false; long long next=0,end=0,incr=1,chunk=1; int kind=0; bool sections=false; void*copy=0; long long staticpos[NT]; };
static std::vector<WS> wss;
static WS& ws_get(int i,bool&fresh){ fresh=false; if((int)wss.size()<=i){wss.resize(i+1);fresh=true;} return wss[i]; }
// --- shadow memory
struct Cell{ uint64_t key; uint32_t gen; uint32_t wc[NT],rc[NT]; uint8_t wm[NT],rm[NT],wa[NT],ra[NT]; };
static const size_t TS=1u<<18; static Cell*tab=0; static uint32_t gen=1; static size_t used=0; static bool full=false; static uint64_t nforget=0;
static Cell* cell(uint64_t key,bool create){ if(!tab)tab=(Cell*)__real_calloc(TS,sizeof(Cell)); size_t h=(key*0x9E3779B97F4A7C15ull)>>46; for(;;h=(h+1)&(TS-1)){ Cell&c=tab[h]; if(c.gen!=gen){ if(!create)return 0; if(used>TS*3/4){ gen++; used=0; nforget++; return cell(key,create); } used++; memset(&c,0,sizeof c); c.gen=gen;c.key=key;return &c;} if(c.key==key)return &c; } }
static void newgen(){gen++;used=0; if(gen==0){gen=1;}}
static std::string where(void*pc){ Dl_info d; if(pc&&dladdr(pc,&d)&&d.dli_sname)return d.dli_sname; return "?"; }
static int nowatch=0;
static void race(const char*a,const char*b,uintptr_t addr,int t,void*pc){ if(!violation.empty())return; char s[512]; snprintf(s,sizeof s,"data race: %s by thread %d in %s conflicts with unsynchronised %s by thread %d",a,self,where(pc).c_str(),b,t); (void)addr; setviol(s); }
static void access1(uint64_t key,uint8_t mask,bool wr,bool at,void*pc){
  Cell*c=cell(key,true); if(!c)return; Thr&m=T[self];
  for(int t=0;t<team;t++){ if(t==self)continue;
    if((c->wm[t]&mask)&&c->wc[t]>m.vc.c[t]&&!(at&&c->wa[t]))race(wr?"write":"read","write",key,t,pc);
    if(wr&&(c->rm[t]&mask)&&c->rc[t]>m.vc.c[t]&&!(at&&c->ra[t]))race("write","read",key,t,pc); }
  uint32_t now=m.vc.c[self];
  if(wr){ if(c->wc[self]!=now||(c->wa[self]&&!at)||!c->wm[self]){ if(c->wc[self]==now)c->wm[self]|=mask; else c->wm[self]=mask|(0); c->wc[self]=now; c->wa[self]=at; } else c->wm[self]|=mask; }
  else { if(c->rc[self]!=now||(c->ra[self]&&!at)||!c->rm[self]){ if(c->rc[self]==now)c->rm[self]|=mask; else c->rm[self]=mask; c->rc[self]=now; c->ra[self]=at; } else c->rm[self]|=mask; } }
static inline void access(void*p,size_t n,bool wr,bool at,void*pc){
  if(level!=1||team<2||!T[self].inside||nowatch)return; naccess++; uintptr_t a=(uintptr_t)p,e=a+n;
  while(a<e){ uint64_t k=a>>3; unsigned o=a&7; unsigned l=std::min<size_t>(8-o,e-a); access1(k,(uint8_t)(((1u<<l)-1)<<o),wr,at,pc); a+=l; } }
static void cleared(void*p,size_t n){ if(level!=1||team<2||!p)return; uintptr_t a=(uintptr_t)p; for(uint64_t k=a>>3;k<=(a+n-1)>>3&&n;k++){Cell*c=cell(k,false); if(c){memset(c->wm,0,NT);memset(c->rm,0,NT);} } }
// --- team
static void*worker(void*arg){ Thr*t=(Thr*)arg; self=t->tid; for(;;){ while(sem_wait(&t->sem)){} t->inside=true; t->fn(t->data); 
   // implicit barrier at the end of the region: wait until everybody is done
   bvc.join(t->vc); t->inside=false; t->enabled=false; arrived++; if(arrived==team){ T[0].enabled=true; }
   int to=choose(); running=to; sem_post(&T[to].sem); } return 0; }
static void parallel(void(*fn)(void*),void*data,unsigned n,const std::function<void()>*setup=0){
  if(!controlled||level>0){ int sl=level; if(level==0)level=2; else if(level==1)level=1; 
    // serial execution of the region by the calling thread (not controlled, or nested)
    std::vector<WS> save; bool in=T[self].inside; int sw=T[self].ws,sc=T[self].cur; int steam=team; 
    save.swap(wss); team=1; T[self].ws=0; T[self].cur=-1; T[self].inside=false; if(setup)(*setup)(); fn(data); save.swap(wss); team=steam; T[self].inside=in; T[self].ws=sw;T[self].cur=sc; level=sl; return; }
  int want=n?std::min<unsigned>(n,NT):nthreads; team=want; level=1; nregions++; newgen(); wss.clear(); arrived=0; bvc=VC(); if(setup)(*setup)();
  VC base=T[0].vc; for(int i=1;i<team;i++){ Thr&t=T[i]; t.tid=i; t.fn=fn;t.data=data; if(!t.started){sem_init(&t.sem,0,0);t.started=true; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a,4<<20); pthread_create(&t.pt,&a,worker,&t);} t.vc=base; }
  for(int i=0;i<team;i++){T[i].ws=0;T[i].cur=-1;T[i].enabled=true;T[i].pend=-1;tick(i);} T[0].tid=0; T[0].inside=true; running=0;
  if(team>1)point();
  fn(data);
  if(team>1){ bvc.join(T[0].vc); arrived++; T[0].inside=false; 
    if(arrived<team){ T[0].enabled=false; int to=choose(); running=to; sem_post(&T[to].sem); while(sem_wait(&T[0].sem)){} }
    for(int i=1;i<team;i++)bvc.join(T[i].vc); T[0].vc=bvc; tick(0); T[0].enabled=true; }
  T[0].inside=false; level=0; team=1; wss.clear(); }
std::string explore(int threads,int bound,const std::function<void()>&body,const std::function<std::string()>&check,Stats&st,uint64_t cap){
  if(!T[0].started){sem_init(&T[0].sem,0,0);T[0].started=true;T[0].tid=0;}
  nthreads=threads; prefix.clear(); violation.clear();
  for(;;){ mc::beat(); pts.clear(); controlled=true; body(); controlled=false; st.executions++; st.points+=pts.size(); if(pts.size()>st.maxpoints)st.maxpoints=pts.size();
    std::string e=violation; if(e.empty()&&full)e="internal: shadow memory exhausted"; if(e.empty()){ e=check(); if(!e.empty())e+=" [schedule "+schedtext()+"]"; }
    st.accesses=naccess; st.regions=nregions;
    if(!e.empty()){violation.clear();return e;}
    if(cap&&st.executions>=cap){st.capped=true;return "";}
    int i=(int)pts.size()-1; std::vector<int> cost(pts.size()+1,0); for(size_t k=0;k<pts.size();k++)cost[k+1]=cost[k]+(pts[k].choice>0);
    for(;i>=0;i--){ if(pts[i].choice+1<pts[i].n && cost[i]+1<=bound+(pts[i].choice>0?0:0))break; }
    if(i<0)return "";
    prefix.clear(); for(int k=0;k<i;k++)prefix.push_back(pts[k].choice); prefix.push_back(pts[i].choice+1); } }
void serial(){controlled=false;}
}
using namespace sched;
// ---------------------------------------------------------------- OpenMP runtime entry points
typedef void(*Fn)(void*);
X void GOMP_parallel(Fn fn,void*d,unsigned n,unsigned){parallel(fn,d,n);}
X void GOMP_barrier(){barrier();}
X bool GOMP_barrier_cancel(){barrier();return false;}
static int crit,atom;
X void GOMP_critical_start(){lock((uintptr_t)&crit);} X void GOMP_critical_end(){unlock((uintptr_t)&crit);}
X void GOMP_critical_name_start(void**p){lock((uintptr_t)p);} X void GOMP_critical_name_end(void**p){unlock((uintptr_t)p);}
X void GOMP_atomic_start(){lock((uintptr_t)&atom);} X void GOMP_atomic_end(){unlock((uintptr_t)&atom);}
static WS* enter(bool&fresh){ Thr&t=T[self]; t.cur=t.ws++; return &ws_get(t.cur,fresh); }
X bool GOMP_single_start(){ if(on())point(); bool f; WS*w=enter(f); if(w->taken)return false; w->taken=true; return true; }
X void* GOMP_single_copy_start(){ if(on())point(); bool f; WS*w=enter(f); if(!w->taken){w->taken=true;return 0;} barrier(); return wss[T[self].cur].copy; }
X void GOMP_single_copy_end(void*p){ wss[T[self].cur].copy=p; barrier(); }
enum{STATIC,DYN};
static void initws(WS&w,int kind,long long s,long long e,long long inc,long long ch){ w.kind=kind;w.next=s;w.end=e;w.incr=inc;w.chunk=ch>0?ch:(kind==STATIC?0:1); for(int i=0;i<NT;i++)w.staticpos[i]=0; }
static bool nextchunk(long long&a,long long&b){ if(on())point(); if(T[self].cur<0||T[self].cur>=(int)wss.size())return false; WS&w=wss[T[self].cur]; long long n=w.incr>0?(w.end-w.next+w.incr-1)/w.incr:(w.next-w.end-w.incr-1)/(-w.incr); if(n<0)n=0;
  if(w.kind==DYN){ if(n<=0)return false; long long c=std::min(w.chunk,n); a=w.next; b=w.next+c*w.incr; w.next=b; return true; }
  int me=T[self].inside?self:0; long long tot=n; if(w.chunk==0){ if(w.staticpos[me])return false; w.staticpos[me]=1; long long q=tot/team,r=tot%team; long long lo=me*q+std::min<long long>(me,r),hi=lo+q+(me<r?1:0); if(lo>=hi)return false; a=w.next+lo*w.incr;b=w.next+hi*w.incr;return true; }
  long long k=w.staticpos[me]++; long long lo=(k*team+me)*w.chunk; if(lo>=tot)return false; long long hi=std::min(tot,lo+w.chunk); a=w.next+lo*w.incr;b=w.next+hi*w.incr;return true; }
static bool loopstart(int kind,long long s,long long e,long long i,long long c,long*a,long*b){ bool f; WS*w=enter(f); if(f)initws(*w,kind,s,e,i,c); long long x,y; bool r=nextchunk(x,y); if(r){*a=x;*b=y;} return r; }
static bool loopnext(long*a,long*b){long long x,y; bool r=nextchunk(x,y); if(r){*a=x;*b=y;} return r;}
typedef unsigned long long ull;
static bool ullstart(int kind,bool up,ull s,ull e,ull i,ull c,ull*a,ull*b){ (void)up; bool f; WS*w=enter(f); if(f)initws(*w,kind,(long long)s,(long long)e,(long long)i,(long long)c); long long x,y; bool r=nextchunk(x,y); if(r){*a=(ull)x;*b=(ull)y;} return r; }
static bool ullnext(ull*a,ull*b){long long x,y; bool r=nextchunk(x,y); if(r){*a=(ull)x;*b=(ull)y;} return r;}
#define LOOP(name,kind) \
 X bool GOMP_loop_##name##_start(long s,long e,long i,long c,long*a,long*b){return loopstart(kind,s,e,i,c,a,b);} \
 X bool GOMP_loop_##name##_next(long*a,long*b){return loopnext(a,b);} \
 X bool GOMP_loop_ull_##name##_start(bool up,ull s,ull e,ull i,ull c,ull*a,ull*b){return ullstart(kind,up,s,e,i,c,a,b);} \
 X bool GOMP_loop_ull_##name##_next(ull*a,ull*b){return ullnext(a,b);} \
 X void GOMP_parallel_loop_##name(Fn fn,void*d,unsigned n,long s,long e,long i,long c,unsigned){ std::function<void()> f=[&]{ wss.resize(1); initws(wss[0],kind,s,e,i,c); for(int k=0;k<NT;k++){} }; parallel([](void*p){ auto*q=(std::pair<Fn,void*>*)p; T[self].ws=1; T[self].cur=0; q->first(q->second); },new std::pair<Fn,void*>(fn,d),n,&f);} 
LOOP(static,STATIC) LOOP(dynamic,DYN) LOOP(guided,DYN) LOOP(nonmonotonic_dynamic,DYN) LOOP(nonmonotonic_guided,DYN)
#define LOOPR(name) \
 X bool GOMP_loop_##name##_start(long s,long e,long i,long*a,long*b){return loopstart(DYN,s,e,i,1,a,b);} \
 X bool GOMP_loop_##name##_next(long*a,long*b){return loopnext(a,b);} \
 X bool GOMP_loop_ull_##name##_start(bool up,ull s,ull e,ull i,ull*a,ull*b){return ullstart(DYN,up,s,e,i,1,a,b);} \
 X bool GOMP_loop_ull_##name##_next(ull*a,ull*b){return ullnext(a,b);} \
 X void GOMP_parallel_loop_##name(Fn fn,void*d,unsigned n,long s,long e,long i,unsigned){ GOMP_parallel_loop_dynamic(fn,d,n,s,e,i,1,0);} 
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
X void GOMP_loop_end(){barrier();} X void GOMP_loop_end_nowait(){}
X unsigned GOMP_sections_start(unsigned n){ bool f; WS*w=enter(f); if(f)initws(*w,DYN,1,(long long)n+1,1,1); long long a,b; return nextchunk(a,b)?(unsigned)a:0; }
X unsigned GOMP_sections_next(){ long long a,b; return nextchunk(a,b)?(unsigned)a:0; }
X void GOMP_sections_end(){barrier();} X void GOMP_sections_end_nowait(){}
X void GOMP_parallel_sections(Fn fn,void*d,unsigned n,unsigned cnt,unsigned){ std::function<void()> f=[&]{wss.resize(1);initws(wss[0],DYN,1,(long long)cnt+1,1,1);}; parallel([](void*p){ auto*q=(std::pair<Fn,void*>*)p; T[self].ws=1;T[self].cur=0; q->first(q->second);},new std::pair<Fn,void*>(fn,d),n,&f); }
X void GOMP_task(Fn fn,void*d,void(*cpy)(void*,void*),long sz,long al,bool,unsigned,void**,int,void*){ if(cpy){ char*b=(char*)malloc(sz+al); char*q=(char*)(((uintptr_t)b+al-1)&~(uintptr_t)(al-1)); cpy(q,d); fn(q); free(b);} else fn(d); }
X void GOMP_taskwait(){} X void GOMP_taskyield(){if(on())point();} X void GOMP_taskgroup_start(){} X void GOMP_taskgroup_end(){}
X void GOMP_ordered_start(){lock((uintptr_t)&crit);} X void GOMP_ordered_end(){unlock((uintptr_t)&crit);}
X int omp_get_thread_num(){return T[self].inside?self:0;} X int omp_get_num_threads(){return T[self].inside?team:1;} X int omp_get_max_threads(){return controlled?nthreads:1;} X int omp_get_num_procs(){return controlled?nthreads:1;}
X void omp_set_num_threads(int n){if(controlled&&n>0&&n<=NT)nthreads=n;} X int omp_in_parallel(){return on();} X void omp_set_dynamic(int){} X int omp_get_dynamic(){return 0;} X void omp_set_nested(int){} X int omp_get_nested(){return 0;} X int omp_get_level(){return on();} X int omp_get_thread_limit(){return NT;}
X double omp_get_wtime(){static double t=0; return t+=1e-6;} X double omp_get_wtick(){return 1e-6;}
X void omp_init_lock(void*){} X void omp_destroy_lock(void*){} X void omp_set_lock(void*l){lock((uintptr_t)l);} X void omp_unset_lock(void*l){unlock((uintptr_t)l);} X int omp_test_lock(void*l){return trylock((uintptr_t)l);}
X void omp_init_nest_lock(void*){} X void omp_destroy_nest_lock(void*){} X void omp_set_nest_lock(void*l){lock((uintptr_t)l,true);} X void omp_unset_nest_lock(void*l){unlock((uintptr_t)l);}
// ---------------------------------------------------------------- mutexes and guarded statics of instrumented code
X int __real_pthread_mutex_lock(pthread_mutex_t*); X int __real_pthread_mutex_unlock(pthread_mutex_t*); X int __real_pthread_mutex_trylock(pthread_mutex_t*);
X int __wrap_pthread_mutex_lock(pthread_mutex_t*m){ if(on()){lock((uintptr_t)m);return 0;} return __real_pthread_mutex_lock(m);} 
X int __wrap_pthread_mutex_unlock(pthread_mutex_t*m){ if(on()){unlock((uintptr_t)m);return 0;} return __real_pthread_mutex_unlock(m);} 
X int __wrap_pthread_mutex_trylock(pthread_mutex_t*m){ if(on())return trylock((uintptr_t)m)?0:16; return __real_pthread_mutex_trylock(m);} 
X int __real___cxa_guard_acquire(uint64_t*); X void __real___cxa_guard_release(uint64_t*); X void __real___cxa_guard_abort(uint64_t*);
X int __wrap___cxa_guard_acquire(uint64_t*g){ if(!on())return __real___cxa_guard_acquire(g); if(*(char*)g){acquire((uintptr_t)g);return 0;} lock((uintptr_t)g); if(*(char*)g){unlock((uintptr_t)g);return 0;} return 1; }
X void __wrap___cxa_guard_release(uint64_t*g){ if(!on()){__real___cxa_guard_release(g);return;} *(char*)g=1; release((uintptr_t)g); unlock((uintptr_t)g); }
X void __wrap___cxa_guard_abort(uint64_t*g){ if(!on()){__real___cxa_guard_abort(g);return;} unlock((uintptr_t)g); }
// ---------------------------------------------------------------- memory accesses
#define PC __builtin_return_address(0)
#define RW(n) X void __tsan_read##n(void*p){access(p,n,false,false,PC);} X void __tsan_write##n(void*p){access(p,n,true,false,PC);} \
 X void __tsan_unaligned_read##n(void*p){access(p,n,false,false,PC);} X void __tsan_unaligned_write##n(void*p){access(p,n,true,false,PC);} \
 X void __tsan_volatile_read##n(void*p){access(p,n,false,false,PC);} X void __tsan_volatile_write##n(void*p){access(p,n,true,false,PC);} \
 X void __tsan_unaligned_volatile_read##n(void*p){access(p,n,false,false,PC);} X void __tsan_unaligned_volatile_write##n(void*p){access(p,n,true,false,PC);} 
RW(1) RW(2) RW(4) RW(8) RW(16)
X void __tsan_read_range(void*p,size_t n){access(p,n,false,false,PC);} X void __tsan_write_range(void*p,size_t n){access(p,n,true,false,PC);}
X void __tsan_vptr_update(void*p,void*v){ if(*(void**)p!=v)access(p,8,true,false,PC);} X void __tsan_vptr_read(void*p){access(p,8,false,false,PC);}
X void __tsan_func_entry(void*){} X void __tsan_func_exit(){} X void __tsan_init(){}
// atomics: scheduling point + happens-before according to the requested order (relaxed gives none)
static inline bool acq(int o){return o!=0&&o!=3;} static inline bool rel(int o){return o==3||o==4||o==5;}
static void at_before(void*p,size_t n,bool wr,int o,void*pc){ if(!on())return; point(); if(acq(o))acquire((uintptr_t)p); access(p,n,wr,true,pc); (void)n; }
static void at_after(void*p,int o){ if(!on())return; if(rel(o))release((uintptr_t)p); }
#define AT(bits,ty) \
 X ty __tsan_atomic##bits##_load(const volatile ty*p,int o){at_before((void*)p,sizeof(ty),false,o,PC); return __atomic_load_n(p,5);} \
 X void __tsan_atomic##bits##_store(volatile ty*p,ty v,int o){at_before((void*)p,sizeof(ty),true,o,PC); __atomic_store_n(p,v,5); at_after((void*)p,o);} \
 X ty __tsan_atomic##bits##_exchange(volatile ty*p,ty v,int o){at_before((void*)p,sizeof(ty),true,o,PC); ty r=__atomic_exchange_n(p,v,5); at_after((void*)p,o);return r;} \
 X ty __tsan_atomic##bits##_fetch_add(volatile ty*p,ty v,int o){at_before((void*)p,sizeof(ty),true,o,PC); ty r=__atomic_fetch_add(p,v,5); at_after((void*)p,o);return r;} \
 X ty __tsan_atomic##bits##_fetch_sub(volatile ty*p,ty v,int o){at_before((void*)p,sizeof(ty),true,o,PC); ty r=__atomic_fetch_sub(p,v,5); at_after((void*)p,o);return r;} \
 X ty __tsan_atomic##bits##_fetch_and(volatile ty*p,ty v,int o){at_before((void*)p,sizeof(ty),true,o,PC); ty r=__atomic_fetch_and(p,v,5); at_after((void*)p,o);return r;} \
 X ty __tsan_atomic##bits##_fetch_or(volatile ty*p,ty v,int o){at_before((void*)p,sizeof(ty),true,o,PC); ty r=__atomic_fetch_or(p,v,5); at_after((void*)p,o);return r;} \
 X ty __tsan_atomic##bits##_fetch_xor(volatile ty*p,ty v,int o){at_before((void*)p,sizeof(ty),true,o,PC); ty r=__atomic_fetch_xor(p,v,5); at_after((void*)p,o);return r;} \
 X bool __tsan_atomic##bits##_compare_exchange_strong(volatile ty*p,ty*e,ty v,int o,int){at_before((void*)p,sizeof(ty),true,o,PC); bool r=__atomic_compare_exchange_n(p,e,v,false,5,5); if(r)at_after((void*)p,o);return r;} \
 X bool __tsan_atomic##bits##_compare_exchange_weak(volatile ty*p,ty*e,ty v,int o,int){at_before((void*)p,sizeof(ty),true,o,PC); bool r=__atomic_compare_exchange_n(p,e,v,false,5,5); if(r)at_after((void*)p,o);return r;} \
 X ty __tsan_atomic##bits##_compare_exchange_val(volatile ty*p,ty e,ty v,int o,int){at_before((void*)p,sizeof(ty),true,o,PC); __atomic_compare_exchange_n(p,&e,v,false,5,5); at_after((void*)p,o);return e;}
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
X void __tsan_atomic_thread_fence(int){if(on())point();} X void __tsan_atomic_signal_fence(int){}
// fresh memory has no access history
X void* __real_malloc(size_t); X void __real_free(void*); X void* __real_calloc(size_t,size_t); X void* __real_realloc(void*,size_t);
static inline bool inteam(){return level==1&&team>1&&T[self].inside;}
X void* __wrap_malloc(size_t n){ void*p=__real_malloc(n); if(inteam())cleared(p,malloc_usable_size(p)); return p; }
X void* __wrap_calloc(size_t a,size_t b){ void*p=__real_calloc(a,b); if(inteam())cleared(p,malloc_usable_size(p)); return p; }
X void __wrap_free(void*p){ if(p&&inteam()){ access(p,malloc_usable_size(p),true,false,PC); cleared(p,malloc_usable_size(p)); } __real_free(p); }
X void* __wrap_realloc(void*p,size_t n){ if(p&&inteam())cleared(p,malloc_usable_size(p)); void*q=__real_realloc(p,n); if(q&&inteam())cleared(q,malloc_usable_size(q)); return q; }
void* operator new(size_t n){void*p=__wrap_malloc(n?n:1); if(!p)throw std::bad_alloc(); return p;} void* operator new[](size_t n){return operator new(n);}
void operator delete(void*p)noexcept{__wrap_free(p);} void operator delete[](void*p)noexcept{__wrap_free(p);}
void operator delete(void*p,size_t)noexcept{__wrap_free(p);} void operator delete[](void*p,size_t)noexcept{__wrap_free(p);}
