// C17: Rock4 with its parallel loops, under a scheduler of its own. The solver is compiled with -fopenmp and with the hooks of
// ThreadSanitizer; this file is the OpenMP runtime: the members of a team are coroutines, so each schedule can be forced.
//  * Accesses. One run with the members of every region one after the other records which words each member touches between
//    two barriers; words touched by two members and written by one, and atomic operations, are the conflicts of that region.
//    Regions without conflicts have a single class of interleavings.
//  * Schedules. For every region with conflicts, every order of the members and every schedule with up to the bound of
//    preemptions at conflicting accesses is executed; the result must be the one of the serial build.
#include "mc.hpp"
#include <ucontext.h>
#include <algorithm>
#include <cfenv>
#include "mode.hpp"
#include "tsanrt.hpp"
using namespace std;
extern "C" void mode_run_par(const ModeIn*,ModeOut*); extern "C" void mode_run_ser(const ModeIn*,ModeOut*);
static const size_t STK=1u<<18, ARENA=16u<<20, MSTK=1u<<20;
struct Member { ucontext_t c; char*stack; bool done; int wait; int id; long points; }; // wait: 0 no, 1 barrier, 2 lock
struct Loop { long next,end,incr,chunk; bool guided; int users,finished; bool open; };
struct RegionInfo { vector<uint64_t> conf; vector<long> pts; };
struct RT {
  int T=1; long region=0; bool inteam=false; Member*m[8]; int cur=-1; ucontext_t sched,main,master; char*mstack,*arena,*top; bool running=false; void(*fn)(void*); void*data;
  vector<Loop> loops; int loopof[8]; int singles,singleof[8]; int lockholder=-1; long lockdepth=0; vector<int> queue; bool deadlock=false,nested=false; long points=0,maxpts=0;
  bool learning=false; WordMap words; set<uint64_t> conf; map<long,RegionInfo> info;
  long target=-1; vector<int> perm; vector<long> plan; size_t k; long seg; int deflt=0; const vector<uint64_t>*watch=nullptr; const ModeIn*in; ModeOut*out; Image*img=nullptr; long regions=0;
};
static RT*R; static bool inrt=false; struct In { bool o; In():o(inrt){ inrt=true; } ~In(){ inrt=o; } };
static void yieldto(){ int c=R->cur; swapcontext(&R->m[c]->c,&R->sched); }
// a place where another member may be scheduled
static void point(bool rotate=false){ if(!R||R->cur<0) return; In g; Member&m=*R->m[R->cur]; ++m.points; ++R->points; if(rotate&&R->deflt==2&&R->T>1){ yieldto(); return; } if(R->region-1!=R->target) return; ++R->seg; if(R->k<R->plan.size()&&R->seg==R->plan[R->k]){ ++R->k; R->seg=0; yieldto(); } }
static bool mystack(const char*c){ const char*s=R->m[R->cur]->stack; return c>=s&&c<s+STK; }
static void sync_access(const void*p,size_t n,bool wr){ if(inrt||!R||R->cur<0||mystack((const char*)p)) return; uint64_t a=(uint64_t)p>>3,b=((uint64_t)p+n-1)>>3;
  if(R->learning){ In g; for(uint64_t w=a;w<=b;w++){ uint8_t*v=R->words.at(w,true); if(v){ int c=R->cur; *v|=(wr?16:1)<<c; } } return; }
  if(R->watch&&!R->watch->empty()){ for(uint64_t w=a;w<=b;w++) if(binary_search(R->watch->begin(),R->watch->end(),w)){ point(); return; } } }
static void sync_atomic(const void*p,size_t n){ if(inrt||!R||R->cur<0) return; if(R->learning) sync_access(p,n,true); else { point(); point(); } }
static void conflicts(){ for(size_t i=0;i<R->words.n;i++){ size_t k=R->words.used[i]; uint8_t v=R->words.val[k],r=(v&15)|(v>>4),w=v>>4; if(w&&(r&(r-1))) R->conf.insert(R->words.key[k]); } R->words.clear(); }
static void memberbody(int i){ R->fn(R->data); R->m[i]->done=true; R->m[i]->wait=0; swapcontext(&R->m[i]->c,&R->sched); }
extern "C" void conc_cb(double,const double*,int){}
static void team(void(*fn)(void*),void*data,unsigned nt){ if(R->inteam||!R->running){ bool o=R->nested; R->nested=true; int c=R->cur; fn(data); R->cur=c; R->nested=o; return; }
  In g; long r=R->region++; ++R->regions; R->fn=fn; R->data=data; int T=nt?min((int)nt,8):R->T; bool changed=T!=R->T; int oldT=R->T; R->T=T; R->inteam=true; R->loops.clear(); R->singles=0; R->lockholder=-1; R->queue.clear(); R->k=0; R->seg=0; R->conf.clear(); R->words.clear();
  auto it=R->info.find(r); R->watch=R->learning||it==R->info.end()?nullptr:&it->second.conf;
  for(int i=0;i<T;i++){ Member&m=*R->m[i]; getcontext(&m.c); m.c.uc_stack.ss_sp=m.stack; m.c.uc_stack.ss_size=STK; m.c.uc_link=nullptr; m.done=false; m.wait=0; m.points=0; R->loopof[i]=0; R->singleof[i]=0; makecontext(&m.c,(void(*)())memberbody,1,i); }
  if(r==R->target) for(int i: R->perm) R->queue.push_back(i); else for(int i=0;i<T;i++) R->queue.push_back(R->deflt==1?T-1-i:i);
  while(!R->queue.empty()){ size_t j=0; while(j<R->queue.size()&&R->m[R->queue[j]]->wait) j++;
    if(j==R->queue.size()){ bool bar=true; for(int i: R->queue) if(R->m[i]->wait!=1) bar=false; if(!bar||(int)R->queue.size()!=T){ R->deadlock=true; break; } if(R->learning) conflicts(); for(int i: R->queue) R->m[i]->wait=0; sort(R->queue.begin(),R->queue.end(),[](int a,int b){ return a<b; }); continue; }
    int i=R->queue[j]; R->queue.erase(R->queue.begin()+j); R->cur=i; inrt=false; swapcontext(&R->sched,&R->m[i]->c); inrt=true; R->cur=-1; if(!R->m[i]->done) R->queue.push_back(i); }
  if(R->learning){ conflicts(); RegionInfo q; q.conf.assign(R->conf.begin(),R->conf.end()); R->info[r]=q; } else if(it!=R->info.end()&&it->second.pts.empty()) for(int i=0;i<T;i++) it->second.pts.push_back(R->m[i]->points);
  R->inteam=false; R->watch=nullptr; if(changed) R->T=oldT; }
// ---- the interface of the OpenMP runtime
extern "C" void GOMP_parallel(void(*fn)(void*),void*d,unsigned nt,unsigned){ team(fn,d,nt); }
extern "C" int omp_get_thread_num(){ return R&&R->cur>=0&&!R->nested?R->cur:0; } extern "C" int omp_get_num_threads(){ return R&&R->inteam&&!R->nested?R->T:1; } extern "C" int omp_get_max_threads(){ return R?R->T:1; }
extern "C" void omp_set_num_threads(int){} extern "C" int omp_get_num_procs(){ return 4; } extern "C" int omp_in_parallel(){ return R&&R->inteam; } extern "C" double omp_get_wtime(){ return 0; } extern "C" void omp_set_dynamic(int){} extern "C" int omp_get_dynamic(){ return 0; } extern "C" void omp_set_nested(int){} extern "C" int omp_get_thread_limit(){ return 8; } extern "C" int omp_get_level(){ return R&&R->inteam; }
static bool alone(){ return !R||R->cur<0||R->nested; }
extern "C" void GOMP_barrier(){ if(alone()) return; In g; R->m[R->cur]->wait=1; yieldto(); }
static void lock(){ if(alone()) return; point(); In g; while(R->lockholder>=0&&R->lockholder!=R->cur){ R->m[R->cur]->wait=2; yieldto(); } R->lockholder=R->cur; }
static void unlock(){ if(alone()) return; { In g; R->lockholder=-1; for(int i=0;i<R->T;i++) if(R->m[i]->wait==2) R->m[i]->wait=0; } point(); }
// (accesses under the lock are still recorded as conflicts: they only add places for a switch)
extern "C" void GOMP_critical_start(){ lock(); } extern "C" void GOMP_critical_end(){ unlock(); } extern "C" void GOMP_critical_name_start(void**){ lock(); } extern "C" void GOMP_critical_name_end(void**){ unlock(); } extern "C" void GOMP_atomic_start(){ lock(); } extern "C" void GOMP_atomic_end(){ unlock(); }
typedef int omp_lk; extern "C" void omp_init_lock(omp_lk*){} extern "C" void omp_destroy_lock(omp_lk*){} extern "C" void omp_set_lock(omp_lk*){ lock(); } extern "C" void omp_unset_lock(omp_lk*){ unlock(); }
extern "C" bool GOMP_single_start(){ if(alone()) return true; In g; int&s=R->singleof[R->cur]; bool first=s>=R->singles; if(first) R->singles=s+1; ++s; return first; }
// shared loops: chunks are taken in the order in which the members ask
static bool nextchunk(long*a,long*b){ if(alone()){ Loop&l=R->loops.back(); if(l.next==l.end) return false; *a=l.next; *b=l.end; l.next=l.end; return true; } point(true); In g; Loop&l=R->loops[R->loopof[R->cur]-1]; long left=(l.end-l.next)/l.incr; if((l.end-l.next)%l.incr) ++left; if(left<=0) return false; long c=l.chunk<1?1:l.chunk; if(l.guided){ long q=(left+R->T-1)/R->T; if(q>c) c=q; } if(c>left) c=left; *a=l.next; l.next+=c*l.incr; if((l.incr>0&&l.next>l.end)||(l.incr<0&&l.next<l.end)) l.next=l.end; *b=l.next; return true; }
static void openloop(long s,long e,long inc,long ch,bool gd){ In g; Loop l={s,e,inc,ch,gd,0,0,true}; if((inc>0&&s>e)||(inc<0&&s<e)) l.next=l.end; if(alone()){ R->loops.push_back(l); return; } int&i=R->loopof[R->cur]; if(i>=(int)R->loops.size()) R->loops.push_back(l); ++i; }
static bool startloop(long s,long e,long inc,long ch,long*a,long*b,bool gd){ openloop(s,e,inc,ch,gd); return nextchunk(a,b); }
static void parloop(void(*fn)(void*),void*d,unsigned nt,long s,long e,long inc,long ch,bool gd);
#define GL(nm,gd) extern "C" bool GOMP_loop_##nm##_start(long s,long e,long i,long c,long*a,long*b){ return startloop(s,e,i,c,a,b,gd); } extern "C" bool GOMP_loop_##nm##_next(long*a,long*b){ return nextchunk(a,b); } extern "C" void GOMP_parallel_loop_##nm(void(*fn)(void*),void*d,unsigned nt,long s,long e,long i,long c,unsigned){ parloop(fn,d,nt,s,e,i,c,gd); }
GL(dynamic,false) GL(guided,true) GL(nonmonotonic_dynamic,false) GL(nonmonotonic_guided,true)
#define GLR(nm) extern "C" bool GOMP_loop_##nm##_start(long s,long e,long i,long*a,long*b){ return startloop(s,e,i,1,a,b,false); } extern "C" bool GOMP_loop_##nm##_next(long*a,long*b){ return nextchunk(a,b); } extern "C" void GOMP_parallel_loop_##nm(void(*fn)(void*),void*d,unsigned nt,long s,long e,long i,unsigned){ parloop(fn,d,nt,s,e,i,1,false); }
GLR(runtime) GLR(nonmonotonic_runtime) GLR(maybe_nonmonotonic_runtime)
struct PL { void(*fn)(void*); void*d; long s,e,i,c; bool g; }; static void plbody(void*p){ PL&q=*(PL*)p; openloop(q.s,q.e,q.i,q.c,q.g); q.fn(q.d); }
static void parloop(void(*fn)(void*),void*d,unsigned nt,long s,long e,long inc,long ch,bool gd){ PL q={fn,d,s,e,inc,ch,gd}; team(plbody,&q,nt); }
extern "C" void GOMP_loop_end_nowait(){} extern "C" void GOMP_loop_end(){ GOMP_barrier(); }
// ---- memory of a run: the same addresses in every execution
static void*take(size_t n,size_t al){ char*p=(char*)(((uintptr_t)R->top+16+al-1)&~(uintptr_t)(al-1)); if(p+n>R->arena+ARENA) abort(); R->top=p+n; return p; }
extern "C" void*__real_malloc(size_t); extern "C" void __real_free(void*); extern "C" int __real_posix_memalign(void**,size_t,size_t);
static bool mine(){ return R&&R->running&&!inrt; }
extern "C" void*__wrap_malloc(size_t n){ return mine()?take(n,16):__real_malloc(n); } extern "C" void __wrap_free(void*p){ if(R&&(char*)p>=R->arena&&(char*)p<R->arena+ARENA) return; __real_free(p); }
extern "C" int __wrap_posix_memalign(void**q,size_t al,size_t n){ if(!mine()) return __real_posix_memalign(q,al,n); *q=take(n,al<16?16:al); return 0; }
void*operator new(size_t n){ void*p=__wrap_malloc(n); if(!p) throw bad_alloc(); return p; } void*operator new[](size_t n){ return operator new(n); }
void operator delete(void*p)noexcept{ __wrap_free(p); } void operator delete[](void*p)noexcept{ __wrap_free(p); } void operator delete(void*p,size_t)noexcept{ __wrap_free(p); } void operator delete[](void*p,size_t)noexcept{ __wrap_free(p); }
static void masterbody(){ mode_run_par(R->in,R->out); swapcontext(&R->master,&R->main); }
static void setup(){ R=new RT; for(int i=0;i<8;i++){ R->m[i]=new Member; R->m[i]->stack=(char*)mmap(0,STK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); } R->mstack=(char*)mmap(0,MSTK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); R->arena=(char*)mmap(0,ARENA,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); }
static void exec(const ModeIn&I,ModeOut&O){ R->img->restore(); R->top=R->arena; R->region=0; R->cur=-1; R->inteam=false; R->nested=false; R->deadlock=false; R->points=0; R->in=&I; R->out=&O; memset(&O,0,sizeof O); getcontext(&R->master); R->master.uc_stack.ss_sp=R->mstack; R->master.uc_stack.ss_size=MSTK; R->master.uc_link=nullptr; makecontext(&R->master,masterbody,0); R->running=true; inrt=false; swapcontext(&R->main,&R->master); R->running=false; }
struct Ser { ModeOut A; double ms,hs; bool flip; };
static void body(){ if(!R){ setup(); (void)mc::G(); }
  ModeIn I; memset(&I,0,sizeof I); int T=mc::chooseq(3,4,"threads")+1; I.prob=mc::choose(3,"problem"); I.lay=mc::choose(5,"size"); I.opt=mc::choose(2,"options"); static const double TL[2]={1e-4,1e-7}; I.tol=TL[mc::choose(2,"tolerance")]; static const double HH[3]={0.1,0.013,1e-5}; I.h0=HH[mc::choose(3,"h")]; I.xe=I.prob==1?0.02:0.15; mc::shard(); static const int NN[5]={1,2,7,8,33};
  string d=mc::fmt("%d threads, problem %d, size %d, options %d, tolerance %g, h=%g",T,I.prob,NN[I.lay],I.opt,I.tol,I.h0); mc::describe(d); R->T=T;
  static string*key=nullptr; static Ser*S=nullptr; static long*nreg=nullptr,*npts=nullptr; if(!key){ key=new string; S=new Ser; nreg=new long; npts=new long; R->img=new Image; }
  if(*key!=d){ *key=d; R->info.clear(); R->target=-1; R->deflt=0; R->plan.clear(); ModeOut Q; S->flip=false; S->ms=S->hs=0; mode_run_ser(&I,&S->A); static const double PP[2]={2e-14,-1e-13}; static const int RM[3]={FE_UPWARD,FE_DOWNWARD,FE_TOWARDZERO};
    for(int k=0;k<5;k++){ ModeIn J=I; if(k<2) J.py=PP[k]; else fesetround(RM[k-2]); mode_run_ser(&J,&Q); fesetround(FE_TONEAREST); if(Q.status!=S->A.status||memcmp(Q.c,S->A.c,sizeof Q.c)) S->flip=true; for(int i=0;i<Q.n;i++) S->ms=max(S->ms,fabs(Q.y[i]-S->A.y[i])); S->hs=max(S->hs,fabs(Q.h-S->A.h)); }
    R->learning=true; exec(I,Q); R->learning=false; *nreg=R->region; mc::eval(); exec(I,Q); *npts=0; long nc=0; for(auto&q: R->info){ if(!q.second.conf.empty()) ++nc; for(long p: q.second.pts) *npts=max(*npts,p); } mc::count("regions",R->info.size()); mc::count("regions with conflicting accesses",nc); if(T>1) MC_REQUIRE(R->info.size()>3,"omp:none","only %zu parallel regions were executed",R->info.size()); }
  vector<long> act; for(auto&q: R->info){ bool p=false; for(long v: q.second.pts) if(v) p=true; if(p||!q.second.conf.empty()) act.push_back(q.first); }
  R->target=-1; R->plan.clear(); R->deflt=mc::choose(3,"order of the members elsewhere"); size_t na=min(act.size(),(size_t)(mc::thorough()?12:T==3?2:4)); int w=T==1?0:mc::choose((int)na+1,"region"); string how;
  if(w){ R->target=act[w-1]; R->perm.clear(); vector<int> pool; for(int i=0;i<T;i++) pool.push_back(i); while(!pool.empty()){ int c=mc::choose((int)pool.size(),"order"); R->perm.push_back(pool[c]); pool.erase(pool.begin()+c); } auto&pt=R->info[R->target].pts; long tot=0; for(long v: pt) tot+=v; if(tot>40) tot=40; int nb=mc::choose((int)min(tot,(long)(tot>16?1:2))+1,"preemptions"); for(int k=0;k<nb;k++) R->plan.push_back(1+mc::choose((int)tot,"points before the switch")); how=mc::fmt("region %ld, order",R->target); for(int i: R->perm) how+=mc::fmt(" %d",i); how+=", switches after"; for(long p: R->plan) how+=mc::fmt(" %ld",p); mc::describe(d+", "+how); }
  ModeOut B; exec(I,B); mc::step(*nreg+R->points); const ModeOut&A=S->A; MC_REQUIRE(!R->deadlock,"omp:deadlock","the members wait for each other"); mc::countmax("most points of a member in a region",*npts);
  double sc=0; for(int i=0;i<A.n;i++) sc=max(sc,fabs(A.y[i])); if(S->flip){ mc::count("cut: rounding decides"); for(int i=0;i<A.n;i++) MC_REQUIRE(fabs(A.y[i]-B.y[i])<=300*A.n*I.tol*(1+fabs(A.y[i])),"omp:result","component %d is %.15g, serially %.15g",i,B.y[i],A.y[i]); return; }
  MC_REQUIRE(A.status==B.status,"omp:status",B.status?"only the parallel solver throws":"only the serial solver throws"); MC_REQUIRE(memcmp(A.c,B.c,sizeof A.c)==0,"omp:counters","steps %ld, accepted %ld, rejected %ld, evaluations %ld; serially %ld, %ld, %ld, %ld",B.c[0],B.c[1],B.c[2],B.c[3],A.c[0],A.c[1],A.c[2],A.c[3]);
  double lim=1e-13*(sc+1e-3)+300*S->ms,worst=0; for(int i=0;i<A.n;i++){ double e=fabs(A.y[i]-B.y[i]); MC_REQUIRE(e<=lim,"omp:result","component %d is %.17g, serially %.17g (limit %g)",i,B.y[i],A.y[i],lim); worst=max(worst,e/lim); } double hl=1e-12*fabs(A.h)+300*S->hs; MC_REQUIRE(fabs(A.h-B.h)<=hl,"omp:last-step","last step %.17g, serially %.17g (limit %g)",B.h,A.h,hl); mc::countmax("largest difference, percent of the limit",100*worst);
  uint64_t h=mc::hstr((d+how).c_str()); h=mc::mix(h,R->deflt); mc::state(h); uint64_t o=mc::hstr(d.c_str()); for(int i=0;i<B.n;i++) o=mc::hd(o,B.y[i]); mc::outcome(o); mc::validated(); if(w) mc::sample(mc::G().desc); }
int main(int c,char**v){ return mc::run(c,v,body); }
