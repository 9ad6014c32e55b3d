// C32: a solver releases the memory it acquired, exactly once and by the matching function, whatever the user's functions
// do (they may throw at any call), and an integration does not accumulate memory.
// FAM as in mode.cpp; MODES: X(k) for each build linked in. Every allocation of the code under test ends here.
#include "mc.hpp"
#include "mode.hpp"
#include <new>
#include <algorithm>
using namespace std;
struct Fault { long tag; };
#define X(k) extern "C" void mode_run_##k(const ModeIn*,ModeOut*);
MODES
#undef X
struct M { int k; void(*f)(const ModeIn*,ModeOut*); };
#define X(k) {k,mode_run_##k},
static const M MS[]={ MODES };
static const char*NAME[]={"plain","aligned","debug checks and logging","aligned, debug checks and logging, optimised"};
// live blocks of the run
struct Blk { char*p; size_t n; int how; size_t off; };
static const size_t CAP=1<<15; static Blk TAB[CAP],*const T=TAB; static size_t live=0,peak=0,total=0; static bool on=false; static const char*broken=nullptr; static char detail[200];
static const unsigned char CAN=0xA7; static const size_t GUARD=64;
extern "C" void*__real_malloc(size_t); extern "C" void __real_free(void*); extern "C" int __real_posix_memalign(void**,size_t,size_t);
static void bad(const char*w,size_t n=0){ if(!broken){ broken=w; snprintf(detail,sizeof detail,"%zu",n); } }
static void*take(size_t n,size_t al,int how){ if(al<GUARD) al=GUARD; void*r=nullptr; if(__real_posix_memalign(&r,al,n+al+GUARD)) return nullptr; char*p=(char*)r+al; memset(p-GUARD,CAN,GUARD); memset(p,0xCB,n); memset(p+n,CAN,GUARD);
  size_t k=((uintptr_t)p>>6)%CAP; while(T[k].p) k=(k+1)%CAP; T[k]={p,n,how,al}; if(++live>peak) peak=live; ++total; if(live>CAP/2) abort(); return p; }
static Blk*find(void*p){ if(!T) return nullptr; size_t k=((uintptr_t)p>>6)%CAP; for(size_t i=0;i<CAP&&T[k].p;i++,k=(k+1)%CAP) if(T[k].p==p) return &T[k]; return nullptr; }
static bool clean(const Blk&b){ for(size_t i=0;i<GUARD;i++) if((unsigned char)b.p[-1-(long)i]!=CAN||(unsigned char)b.p[b.n+i]!=CAN) return false; return true; }
static void drop(Blk*b){ __real_free(b->p-b->off); --live; size_t k=b-T; T[k].p=nullptr; // close the gap
  for(size_t j=(k+1)%CAP;T[j].p;j=(j+1)%CAP){ Blk q=T[j]; T[j].p=nullptr; size_t m=((uintptr_t)q.p>>6)%CAP; while(T[m].p) m=(m+1)%CAP; T[m]=q; } }
static void rel(void*p,int how){ if(!p) return; Blk*b=find(p); if(!b){ if(on){ bad("memory is released that was not acquired, or twice"); return; } __real_free(p); return; }
  if(b->how!=how) bad("a block is released by the wrong function",b->n); if(!clean(*b)) bad("memory outside of a block was written",b->n); drop(b); }
static void sweep(){ if(T) for(size_t k=0;k<CAP;k++) while(T[k].p) drop(&T[k]); }
extern "C" void*__wrap_malloc(size_t n){ return on?take(n,16,0):__real_malloc(n); }
extern "C" void __wrap_free(void*p){ if(find(p)||on) rel(p,0); else __real_free(p); }
extern "C" int __wrap_posix_memalign(void**q,size_t al,size_t n){ if(!on) return __real_posix_memalign(q,al,n); *q=take(n,al,0); return *q?0:12; }
extern "C" void*__wrap_calloc(size_t a,size_t b){ void*p=__wrap_malloc(a*b); if(p) memset(p,0,a*b); return p; }
extern "C" void*__wrap_aligned_alloc(size_t al,size_t n){ void*p=nullptr; __wrap_posix_memalign(&p,al,n); return p; }
extern "C" void*__wrap_realloc(void*p,size_t n){ void*q=__wrap_malloc(n); if(p){ Blk*b=find(p); if(b) memcpy(q,p,min(n,b->n)); __wrap_free(p); } return q; }
static void*nw(size_t n,int how){ void*p=on?take(n,16,how):__real_malloc(n?n:1); if(!p) throw bad_alloc(); return p; }
void*operator new(size_t n){ return nw(n,1); } void*operator new[](size_t n){ return nw(n,2); }
static void dl(void*p,int how){ if(!p) return; if(find(p)) rel(p,how); else if(on) bad("memory is released that was not acquired, or twice"); else __real_free(p); }
void operator delete(void*p)noexcept{ dl(p,1); } void operator delete[](void*p)noexcept{ dl(p,2); } void operator delete(void*p,size_t)noexcept{ dl(p,1); } void operator delete[](void*p,size_t)noexcept{ dl(p,2); }
// every call of a user function
static long ncall=0,faultAt=-1; static size_t early=0,late=0; static uint64_t trc=1;
struct Off { bool o; Off():o(on){ on=false; } ~Off(){ on=o; } };
extern "C" void conc_cb(double t,const double*y,int n){ long c=ncall++; if(c<40) early=max(early,live); else late=max(late,live); trc=mc::hd(trc,t); for(int i=0;i<n;i++) trc=mc::hd(trc,y[i]); if(c==faultAt){ Off g; throw Fault{c}; } if(c>200000){ Off g; throw Fault{-1}; } }
struct Out { int how; ModeOut O; size_t left,peak,total; };
static Out once(const M&m,const ModeIn&I,long fault){ Out r; sweep(); live=peak=total=early=late=0; ncall=0; trc=1; faultAt=fault; broken=nullptr; r.how=0; on=true; try{ m.f(&I,&r.O); }catch(Fault&f){ on=false; r.how=f.tag<0?3:1; }catch(...){ on=false; r.how=2; } on=false; r.left=live; r.peak=peak; r.total=total;
  if(T&&!broken) for(size_t k=0;k<CAP;k++) if(T[k].p&&!clean(T[k])) bad("memory outside of a block was written",T[k].n); mc::step(ncall); return r; }
static void body(){
  static const int NS[6]={1,3,1,1,5,4}; ModeIn I; memset(&I,0,sizeof I); int mi=mc::choose((int)(sizeof MS/sizeof*MS),"build"); const M&m=MS[mi]; I.solver=mc::choose(NS[FAM],"solver"); I.prob=mc::choose(FAM==4?1:3,"problem"); I.lay=FAM==5?0:mc::choose(5,"size or layout"); I.opt=mc::choose(FAM<=1?3:2,"options");
  int dir=FAM<=1?mc::choose(3,"interval"):0; static const double TL[3]={1e-4,1e-7,1e-2}; I.tol=FAM<=2?TL[mc::choose(mc::thorough()?3:2,"tolerance")]:0;
  I.x0=0; I.xe=FAM==3?1:0.9; if(dir==1){ I.x0=0.5; I.xe=I.prob==1?0.47:0.2; } else if(dir==2){ I.x0=0.3; I.xe=0.3; }
  static const double HH[4]={0.1,0.013,0.5,1e-5}; I.h0=HH[mc::choose(FAM==5?2:FAM==3?3:FAM==4?4:mc::thorough()?4:3,"h")]; mc::shard();
  bool logs=m.k>=2;
  string id=mc::fmt("family %d solver %d problem %d layout %d options %d [%g,%g] h=%g tolerance %g, %s build",FAM,I.solver,I.prob,I.lay,I.opt,I.x0,I.xe,I.h0,I.tol,NAME[m.k]);
  mc::describe(id);
  static string last; static Out a; static long calls; static size_t e,l; static uint64_t tr; // the run without an exception is made once for all the places of one
  if(last!=id||mc::G().replaying){ last=""; once(m,I,-1); /* what is made once and kept */ a=once(m,I,-1); calls=ncall; e=early; l=late; tr=trc; if(!broken&&a.left==0) last=id; } else broken=nullptr; string w; auto judge=[&](const Out&r){
    MC_REQUIRE(!broken,"memory:misuse","%s (size %s)",broken,detail); MC_REQUIRE(r.left==0,"memory:leak","%zu of %zu blocks are not released",r.left,r.total); };
  judge(a); if(a.how==3){ sweep(); return; } MC_REQUIRE(logs||l<=e+6,"memory:grows","%zu blocks during the first 40 calls of user functions, later up to %zu",e,l);
  uint64_t h=mc::mix(FAM*100+m.k,I.lay*10+I.opt); h=mc::mix(h,tr); mc::state(h); mc::outcome(mc::mix(h,a.total)); mc::countmax("most blocks in use",a.peak); 
  if(!calls) return; long lim=mc::thorough()?400:60; long k=mc::choose((int)min(calls,lim)+(calls>lim?8:0),"user function throws at"); if(k>=lim) k=calls-1-(k-lim); 
  mc::describe(id+mc::fmt(": call %ld of %ld throws",k,calls)); Out f=once(m,I,k); MC_REQUIRE(f.how==1,"memory:exception","the exception does not reach the caller"); judge(f); mc::state(mc::mix(h,k)); mc::outcome(mc::mix(h,f.total*1000+f.peak)); sweep();
  // again without: nothing was left behind
  Out g=once(m,I,-1); judge(g); MC_REQUIRE(g.total==a.total&&g.peak==a.peak&&ncall==calls,"memory:differs","after an exception a run acquires %zu blocks, before %zu",g.total,a.total); mc::validated(); if(k==5) mc::sample(mc::G().desc); }
int main(int c,char**v){ return mc::run(c,v,body); }
