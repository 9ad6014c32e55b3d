// C15: two solver objects used from two threads. The solvers are compiled with -fsanitize=thread, whose hooks end here:
// every memory access is seen, and the threads run one at a time under an explorer of schedules.
//  * Accesses. Both integrations run one after the other (in both orders, from a fresh image of the static data, in memory
//    never reused); the words touched by both and written by one are the conflicts. If there are none, all interleavings of
//    memory accesses are equivalent to one (the partial-order argument), whatever the number of preemptions.
//  * Schedules. Every schedule with up to the bound of preemptions at calls of user functions, of LAPACK, and at conflicting
//    accesses is executed; each integration must give, bit for bit, what it gives alone.
// FAMS: X(k) for each family linked in (0 Radau, 1 Rodas, 2 Rock4, 3 linear Rock4, 4 diagonally implicit, 5 symplectic).
#include "mc.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <algorithm>
#include "mode.hpp"
#include "tsanrt.hpp"
using namespace std;
#define X(k) extern "C" void mode_run_f##k(const ModeIn*,ModeOut*);
FAMS
#undef X
struct Fam { int k; void(*f)(const ModeIn*,ModeOut*); };
#define X(k) {k,mode_run_f##k},
static const Fam FS[]={ FAMS };
#undef X
static const size_t ARENA=48u<<20, STACK=2u<<20;
struct Th { pthread_t id; sem_t sem; void(*f)(const ModeIn*,ModeOut*); ModeIn in; ModeOut out; bool active,done; char*arena,*top,*stack; long points; uint64_t trace; };
struct RT { Th t[2]; sem_t main; int cur=-1; bool learning=false,deadlock=false,overflow=false; WordMap words; vector<uint64_t> conf; vector<long> plan; size_t k=0; long seg=0; long switches=0; Image*img=nullptr; };
static RT*R; static __thread int me=-1; static __thread bool inrt=false;
struct In { bool o; In():o(inrt){ inrt=true; } ~In(){ inrt=o; } };
static void switchto(int j){ In g; int i=me; R->cur=j; ++R->switches; sem_post(&R->t[j].sem); while(sem_wait(&R->t[i].sem)); }
static void point(){ if(me<0) return; Th&t=R->t[me]; ++t.points; ++R->seg; if(R->k<R->plan.size()&&R->plan[R->k]&&R->seg==R->plan[R->k]){ Th&o=R->t[1-me]; ++R->k; R->seg=0; if(o.active&&!o.done) switchto(1-me); } }
// the thread cannot go on: the other one has to
static bool forced(){ Th&o=R->t[1-me]; if(!o.active||o.done){ R->deadlock=true; return false; } switchto(1-me); return true; }
static void sync_access(const void*p,size_t n,bool wr){ int i=me; if(i<0||inrt) return; Th&t=R->t[i]; const char*c=(const char*)p; if(c>=t.stack&&c<t.stack+STACK) return;
  if(R->learning){ In g; for(uint64_t w=(uint64_t)c>>3;w<=((uint64_t)c+n-1)>>3;w++){ uint8_t*v=R->words.at(w,true); if(v) *v|=(wr?2:1)<<(2*i); else R->overflow=true; } return; }
  if(R->conf.empty()) return; In g; for(uint64_t w=(uint64_t)c>>3;w<=((uint64_t)c+n-1)>>3;w++) if(binary_search(R->conf.begin(),R->conf.end(),w)){ point(); return; } }
static void sync_atomic(const void*p,size_t n){ sync_access(p,n,true); }
extern "C" void conc_cb(double t,const double*y,int n){ if(me<0) return; { In g; uint64_t h=R->t[me].trace; h=mc::hd(h,t); for(int i=0;i<n;i++) h=mc::hd(h,y[i]); R->t[me].trace=h; } point(); }
// memory of a thread: never reused within an execution
static void*take(size_t n,size_t al){ Th&t=R->t[me]; char*p=(char*)(((uintptr_t)t.top+16+al-1)&~(uintptr_t)(al-1)); if(p+n>t.arena+ARENA) abort(); *(size_t*)(p-8)=n; t.top=p+n; return p; }
static bool ours(void*p){ for(int i=0;R&&i<2;i++) if((char*)p>=R->t[i].arena&&(char*)p<R->t[i].arena+ARENA) return true; return false; }
extern "C" void*__real_malloc(size_t); extern "C" void __real_free(void*); extern "C" int __real_posix_memalign(void**,size_t,size_t);
extern "C" void*__wrap_malloc(size_t n){ return me<0||inrt?__real_malloc(n):take(n,16); }
extern "C" void __wrap_free(void*p){ if(!ours(p)) __real_free(p); }
extern "C" int __wrap_posix_memalign(void**q,size_t al,size_t n){ if(me<0||inrt) return __real_posix_memalign(q,al,n); *q=take(n,al<16?16:al); return 0; }
extern "C" void*__wrap_calloc(size_t a,size_t b){ void*p=__wrap_malloc(a*b); if(p) memset(p,0,a*b); return p; }
extern "C" void*__wrap_aligned_alloc(size_t al,size_t n){ void*p=nullptr; __wrap_posix_memalign(&p,al,n); return p; }
void*operator new(size_t n){ void*p=__wrap_malloc(n); if(!p) throw bad_alloc(); return p; } void*operator new[](size_t n){ return operator new(n); }
void operator delete(void*p)noexcept{ __wrap_free(p); } void operator delete[](void*p)noexcept{ __wrap_free(p); } void operator delete(void*p,size_t)noexcept{ __wrap_free(p); } void operator delete[](void*p,size_t)noexcept{ __wrap_free(p); }
// static variables initialised at first use, and locks
extern "C" int __cxa_guard_acquire(long long*g){ char*b=(char*)g; for(;;){ if(b[0]) return 0; if(!b[1]){ b[1]=1; return 1; } if(me<0||!forced()) return 0; } }
extern "C" void __cxa_guard_release(long long*g){ char*b=(char*)g; b[0]=1; b[1]=0; } extern "C" void __cxa_guard_abort(long long*g){ ((char*)g)[1]=0; }
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*); extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t*m){ if(me<0||inrt) return __real_pthread_mutex_lock(m); point(); for(;;){ int r=pthread_mutex_trylock(m); if(r!=EBUSY) return r; if(!forced()) return EDEADLK; } }
// LAPACK works on what it is given
static void use(const void*p,size_t n,bool w=true){ if(p&&n&&me>=0) sync_access(p,n,w); }
#define LP(name,proto,args,acc) extern "C" void __real_##name proto; extern "C" void __wrap_##name proto { if(me>=0){ point(); acc } __real_##name args; if(me>=0) point(); }
#define TRF(name,sz) LP(name,(int*m,int*n,double*a,int*l,int*p,int*i),(m,n,a,l,p,i),{ use(a,(size_t)sz**l**n); use(p,4**n); use(i,4); use(m,4,0); use(n,4,0); use(l,4,0); })
TRF(dgetrf_,8) TRF(zgetrf_,16)
#define BTRF(name,sz) LP(name,(int*m,int*n,int*kl,int*ku,double*a,int*l,int*p,int*i),(m,n,kl,ku,a,l,p,i),{ use(a,(size_t)sz**l**n); use(p,4**n); use(i,4); use(m,4,0); use(n,4,0); use(l,4,0); use(kl,4,0); use(ku,4,0); })
BTRF(dgbtrf_,8) BTRF(zgbtrf_,16)
#define TRS(name,sz) LP(name,(const char*t,int*n,int*nr,double*a,int*l,int*p,double*b,int*lb,int*i),(t,n,nr,a,l,p,b,lb,i),{ use(a,(size_t)sz**l**n,0); use(p,4**n,0); use(b,sz**lb**nr); use(i,4); })
TRS(dgetrs_,8) TRS(zgetrs_,16)
#define BTRS(name,sz) LP(name,(const char*t,int*n,int*kl,int*ku,int*nr,double*a,int*l,int*p,double*b,int*lb,int*i),(t,n,kl,ku,nr,a,l,p,b,lb,i),{ use(a,(size_t)sz**l**n,0); use(p,4**n,0); use(b,sz**lb**nr); use(i,4); })
BTRS(dgbtrs_,8) BTRS(zgbtrs_,16)
LP(dgehrd_,(int*n,int*lo,int*hi,double*a,int*l,double*tau,double*w,int*lw,int*i),(n,lo,hi,a,l,tau,w,lw,i),{ use(a,8**l**n); use(tau,8*(*n-1)); use(w,*lw>0?8**lw:8); use(i,4); })

static void*worker(void*a){ Th&t=*(Th*)a; int i=&t-R->t; for(;;){ while(sem_wait(&t.sem)); me=i; t.f(&t.in,&t.out); me=-1; t.done=true; Th&o=R->t[1-i]; if(o.active&&!o.done){ R->cur=1-i; sem_post(&o.sem); } else { R->cur=-1; sem_post(&R->main); } } return nullptr; }
static void setup(){ R=new RT; sem_init(&R->main,0,0); for(int i=0;i<2;i++){ Th&t=R->t[i]; t.arena=(char*)mmap(0,ARENA,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); t.stack=(char*)mmap(0,STACK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); sem_init(&t.sem,0,0); t.active=false; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at,t.stack,STACK); pthread_create(&t.id,&at,worker,&t); } (void)mc::G(); R->img=new Image; }
// one execution: from fresh static data and memory, thread s first; only one thread if other==false
static void exec(int s,bool other){ R->img->restore(); R->deadlock=false; R->k=0; R->seg=0; for(int i=0;i<2;i++){ Th&t=R->t[i]; t.top=t.arena; t.points=0; t.trace=1; t.done=false; t.active=(i==s)||other; memset(&t.out,0,sizeof t.out); } R->cur=s; sem_post(&R->t[s].sem); while(sem_wait(&R->main)); }
struct Alone { ModeOut out; uint64_t trace; };
static bool same(const ModeOut&a,const ModeOut&b){ return a.status==b.status&&a.n==b.n&&a.nc==b.nc&&!memcmp(&a.x,&b.x,8)&&!memcmp(&a.h,&b.h,8)&&!memcmp(a.c,b.c,sizeof a.c)&&!memcmp(a.y,b.y,8*a.n); }
static const char*FN[]={"Radau","Rodas","Rock4","linear Rock4","diagonally implicit","symplectic"};
static ModeIn job(int fam,const char*who,string&d,bool small){ static const int NS[6]={1,3,1,1,5,4}; ModeIn I; memset(&I,0,sizeof I); I.solver=mc::choose(small&&fam==1?1:NS[fam],who); I.lay=fam==5?0:mc::choose(small?2:5,"size or layout")*(small?3:1); I.opt=small?mc::choose(2,"options"):mc::choose(fam<=1?3:2,"options"); I.prob=mc::thorough()&&!small?mc::choose(fam==4?1:2,"problem"):fam==4?0:1; I.tol=fam==0?1e-2:1e-2; I.x0=0; I.xe=fam==3?0.5:fam==2?0.01:0.02; I.h0=fam==5?1e-3:fam==2?0.01:0.02; d+=mc::fmt("%s solver %d problem %d layout %d options %d",FN[fam],I.solver,I.prob,I.lay,I.opt); return I; }
static string mapname(uint64_t w){ char*p=(char*)(w<<3); if(p+8>__data_start&&p<_end) return "static data"; for(int i=0;i<2;i++) if(p>=R->t[i].arena&&p<R->t[i].arena+ARENA) return mc::fmt("memory allocated by thread %d",i); return "other memory"; }
static void body(){ if(!R) setup(); const int nf=sizeof FS/sizeof*FS; int a=mc::choose(nf,"family of thread 0"),b=mc::choose(nf,"family of thread 1"); bool small=a!=b; string d; for(int i=0;i<2;i++){ if(i) d+=" with "; R->t[i].f=FS[i?b:a].f; R->t[i].in=job(FS[i?b:a].k,i?"solver of thread 1":"solver of thread 0",d,small); }
  if(memcmp(&R->t[0].in,&R->t[1].in,sizeof(ModeIn))>0&&a==b) throw mc::Skip(); if(a>b) throw mc::Skip(); // the first thread is a choice below
  mc::shard(); mc::describe(d);
  // what each does alone, and the conflicts
  static map<string,pair<vector<uint64_t>,vector<long>>>*cache=nullptr; static map<string,vector<Alone>>*alones=nullptr; if(!cache){ cache=new map<string,pair<vector<uint64_t>,vector<long>>>; alones=new map<string,vector<Alone>>; R->img->~Image(); R->img=new Image; }
  R->plan.clear(); if(!cache->count(d)){ if(cache->size()>50){ cache->clear(); alones->clear(); } set<uint64_t> conf; vector<Alone> al(2); R->conf.clear(); R->learning=true;
    for(int s=0;s<2;s++){ R->words.clear(); exec(s,true); for(size_t i=0;i<R->words.n;i++){ size_t k=R->words.used[i]; uint8_t v=R->words.val[k]; if((v&3)&&(v&12)&&(v&10)) conf.insert(R->words.key[k]); } }
    R->learning=false; MC_REQUIRE(!R->overflow&&R->words.n>20,"conc:harness","%zu words recorded",R->words.n); R->conf.assign(conf.begin(),conf.end()); vector<long> np(2); for(int s=0;s<2;s++){ exec(s,false); al[s]={R->t[s].out,R->t[s].trace}; np[s]=R->t[s].points; }
    mc::eval(); mc::count(conf.empty()?"pairs of integrations without any conflicting access":"pairs of integrations with conflicting accesses"); (*cache)[d]={R->conf,np}; (*alones)[d]=al; }
  auto&ca=(*cache)[d]; R->conf=ca.first; auto&al=(*alones)[d]; mc::countmax("most points in one integration",max(ca.second[0],ca.second[1]));
  double sched=(double)ca.second[0]*ca.second[1]; int nb=mc::choose(sched*sqrt(sched)<(mc::thorough()?4e5:0)?4:sched<(mc::thorough()?1e5:900)?3:2,"preemptions"), s=mc::choose(2,"first thread"); long left[2]={ca.second[0],ca.second[1]}; for(int k=0,t=s;k<nb;k++,t=1-t){ if(left[t]<=0) throw mc::Skip(); int v=1+mc::choose((int)left[t],"points before the switch"); R->plan.push_back(v); left[t]-=v; }
  exec(s,true); mc::step(R->t[0].points+R->t[1].points); string how=mc::fmt("thread %d first, switches after",s); for(long v:R->plan) how+=mc::fmt(" %ld",v); if(nb==0) how+=" its end"; mc::describe(d+", "+how);
  MC_REQUIRE(!R->deadlock,"conc:deadlock","the threads wait for each other");
  for(int i=0;i<2;i++){ const Th&t=R->t[i]; if(!same(t.out,al[i].out)||t.trace!=al[i].trace){ string w; if(!ca.first.empty()) w=mc::fmt(" (%zu words are touched by both and written, the first in %s)",ca.first.size(),mapname(ca.first[0]).c_str()); int k=0; while(k<t.out.n-1&&t.out.y[k]==al[i].out.y[k]) k++; mc::fail("conc:interference",mc::fmt("thread %d: status %d, component %d is %.17g after %ld steps; alone: status %d, %.17g after %ld steps%s",i,t.out.status,k,t.out.y[k],t.out.c[0],al[i].out.status,al[i].out.y[k],al[i].out.c[0],w.c_str())); } }
  uint64_t h=mc::hstr(d.c_str()); for(long v:R->plan) h=mc::mix(h,v); h=mc::mix(h,s); mc::state(h); h=mc::hstr(d.c_str()); for(int i=0;i<2;i++) h=mc::mix(h,R->t[i].trace); mc::outcome(h); mc::validated(2); if(nb==2) mc::sample(mc::G().desc); }
int main(int c,char**v){ return mc::run(c,v,body); }
