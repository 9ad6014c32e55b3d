// C27: the same integration in every build mode. FAM 0 Radau, 1 Rodas, 2 Rock4, 3 linear Rock4, 4 diagonally implicit, 5 symplectic.
// MODES: list of the modes linked in (X(k) for each); mode 0 is the plain build all are compared with.
#include "mc.hpp"
#include "mode.hpp"
#include <cfenv>
#include <functional>
using namespace std;
// blocks of new, new[] and malloc are told apart: releasing one by the function of another ends the run
static void*blk(size_t n,uint64_t k){ char*p=(char*)malloc(n+64); if(!p) throw bad_alloc(); memcpy(p+48,&k,8); return p+64; }
static void rel(void*v,uint64_t k){ if(!v) return; char*p=(char*)v-64; uint64_t q; memcpy(&q,p+48,8); if(q!=k){ fprintf(stderr,"a block is released by the wrong function\n"); abort(); } q=0; memcpy(p+48,&q,8); free(p); }
static const uint64_t KO=0x6e65775f6f6e6531ull,KA=0x6e65775f61727279ull;
void*operator new(size_t n){ return blk(n,KO); } void*operator new[](size_t n){ return blk(n,KA); }
void operator delete(void*p)noexcept{ rel(p,KO); } void operator delete[](void*p)noexcept{ rel(p,KA); } void operator delete(void*p,size_t)noexcept{ rel(p,KO); } void operator delete[](void*p,size_t)noexcept{ rel(p,KA); }
#define X(k) extern "C" void mode_run_##k(const ModeIn*,ModeOut*);
MODES
#undef X
extern "C" void mode_run_0(const ModeIn*,ModeOut*);
struct M { int k; void(*f)(const ModeIn*,ModeOut*); };
#define X(k) {k,mode_run_##k},
static const M MS[]={ MODES };
static const char*NAME[]={"plain","-O0","-O3 native, fast floating point","aligned","aligned, -O3 native, fast floating point","debug checks","event logging","aligned, debug checks, logging, -O3","clang -O3 native","clang, aligned, debug checks, logging","clang fast floating point","parallel loops","aligned, parallel loops, -O3 native"};
static bool FASTMODE(int k){ return k==2||k==4||k==10; }
static void judge(const ModeIn&I,const ModeOut&A,const M&m,const double*sens,double hs,bool flip,const function<bool()>&more){
  mc::describe(mc::fmt("family %d solver %d problem %d layout %d options %d [%g,%g] h=%g tolerance %g, array offset %d, mode %d (%s)",FAM,I.solver,I.prob,I.lay,I.opt,I.x0,I.xe,I.h0,I.tol,I.mis,m.k,NAME[m.k]));
  ModeOut B; m.f(&I,&B); mc::step(); MC_REQUIRE(A.status!=7&&B.status!=7,"mode:overrun","the solver writes outside of the caller's array");
  double sc=0,ms=0; for(int i=0;i<A.n;i++){ sc=max(sc,fabs(A.y[i])); ms=max(ms,sens[i]); }
  if(A.status==2||B.status==2){ const ModeOut&O=A.status==2?A:B; MC_REQUIRE(O.h<=1e-26*(1+sc*sc),"mode:status","the iteration of %s fails with squared residual %g",A.status==2?"the plain build":"this mode",O.h); mc::count("cut: iteration cycles at rounding level"); return; }
  if(A.status==1&&FASTMODE(m.k)){ mc::count("cut: the problem blows up"); return; }
  if(A.status==0) for(int i=0;i<A.n;i++) if(!(fabs(A.y[i])<1e8)){ mc::count("cut: the problem blows up"); return; }
  if(A.status==0&&FAM<=2&&ms>1e-6*(1+sc)){ mc::count("cut: unstable problem"); return; }
  if(FAM<=2&&!flip&&(A.status!=B.status||memcmp(A.c,B.c,sizeof A.c)!=0)) flip=more();
  if(flip&&FAM<=2){ mc::count("cut: rounding decides"); if(A.status==0&&B.status==0){ for(int i=0;i<A.n;i++) MC_REQUIRE(fabs(A.y[i]-B.y[i])<=300*A.n*I.tol*(1+fabs(A.y[i])),"mode:result","component %d is %.15g, in the plain build %.15g",i,B.y[i],A.y[i]); } return; }
  MC_REQUIRE(A.status==B.status,"mode:status",B.status?"only this mode throws":"only the plain build throws"); if(A.status) return;
  MC_REQUIRE(memcmp(A.c,B.c,sizeof A.c)==0,"mode:counters","steps %ld/%ld/%ld/%ld/%ld, in the plain build %ld/%ld/%ld/%ld/%ld",B.c[0],B.c[1],B.c[2],B.c[3],B.c[4],A.c[0],A.c[1],A.c[2],A.c[3],A.c[4]);
  MC_REQUIRE(A.x==B.x,"mode:time","ends at %.17g, in the plain build at %.17g",B.x,A.x);
  double worst=0,lim=1e-12*(sc+1e-3)+300*ms; for(int i=0;i<A.n;i++){ double d=fabs(A.y[i]-B.y[i]); if(!(d<=lim)) mc::fail("mode:result",mc::fmt("component %d is %.15g, in the plain build %.15g (limit %g)",i,B.y[i],A.y[i],lim)); worst=max(worst,d/lim); } mc::countmax("largest difference, percent of the limit",100*worst); if(FAM<=2) mc::countmax("largest limit over tolerance, percent",100*lim/I.tol);
  { double l=1e-9*fabs(A.h)+300*hs; MC_REQUIRE(fabs(A.h-B.h)<=l,"mode:last-step","last step %.15g, in the plain build %.15g (limit %g)",B.h,A.h,l); mc::countmax("last step, percent of the limit",100*fabs(A.h-B.h)/l); }
  uint64_t h=FAM; for(int i=0;i<A.n;i++) h=mc::hd(h,B.y[i]); mc::state(h); mc::outcome(mc::mix(h,B.c[0])); mc::validated(); if(I.prob==1&&I.opt) mc::sample(mc::G().desc); }
static void body(){
  static const int NS[6]={1,3,1,1,5,4}; ModeIn I; memset(&I,0,sizeof I); I.solver=mc::choose(NS[FAM],"solver"); I.prob=mc::choose(FAM==4?1:3,"problem"); I.lay=FAM==5?0:mc::choose(5,"size or layout"); I.opt=mc::choose(FAM<=1?3:2,"options");
  int dir=FAM<=1?mc::choose(3,"interval"):0; static const double TL[3]={1e-4,1e-7,1e-2}; I.tol=FAM<=2?TL[mc::chooseq(2,3,"tolerance")]:0; mc::shard();
  I.x0=0; I.xe=FAM==3?1:0.9; if(dir==1){ I.x0=0.5; I.xe=I.prob==1?0.47:0.2; } else if(dir==2){ I.x0=-2; I.xe=3; }
  static const double HH[4]={0.1,0.013,0.5,1e-5}; I.h0=HH[mc::choose(FAM==5?2:FAM==3?3:FAM==4?4:mc::thorough()?4:2,"h")]; I.mis=FAM<=1?mc::choose(mc::thorough()?8:3,"alignment of the caller's array"):0; if(I.mis==2&&!mc::thorough()) I.mis=5;
  ModeOut A; ModeIn J=I; J.mis=0; mode_run_0(&J,&A); 
  // sensitivity: the same run with slightly different data and in the other rounding directions. If it decides differently, rounding decides, and only the tolerance can be required
  double sens[80]={0},hs=0; bool flip=false; static const double PP[2]={2e-14,-1e-13}; static const int RM[3]={FE_UPWARD,FE_DOWNWARD,FE_TOWARDZERO};
  for(int k=0;k<5;k++){ J=I; J.mis=0; if(k<2){ J.py=PP[k]; J.h0=I.h0*(FAM<=2?1+PP[1-k]:1); } else fesetround(RM[k-2]); ModeOut Q; mode_run_0(&J,&Q); fesetround(FE_TONEAREST); if(Q.status!=A.status||memcmp(Q.c,A.c,sizeof A.c)) flip=true; for(int i=0;i<A.n;i++) sens[i]=max(sens[i],fabs(Q.y[i]-A.y[i])); hs=max(hs,fabs(Q.h-A.h)); }
  // when the decisions of a mode differ: is there a decision so close that some small perturbation turns it? Difference quotients magnify rounding by 1e8
  int fl=-1; auto more=[&]{ if(fl>=0) return fl!=0; fl=0; static const double Q[6]={1e-14,1e-13,5e-13,2e-12,1e-11,5e-11}; int nq=FAM<=1&&(I.lay==1||I.lay==4)?6:4; for(int k=0;k<nq&&!fl;k++) for(int s=-1;s<=1&&!fl;s++) for(int z=-1;z<=1&&!fl;z++) for(int r=0;r<(k?1:4)&&!fl;r++) if(s||z||r){ J=I; J.mis=0; J.py=s*Q[k]; J.h0=I.h0*(1+z*Q[k]); if(r) fesetround(RM[r-1]); ModeOut q; mode_run_0(&J,&q); fesetround(FE_TONEAREST); if(q.status!=A.status||memcmp(q.c,A.c,sizeof A.c)) fl=1; } for(int z=1;z<=30&&!fl&&FAM<=1;z++){ J=I; J.mis=0; J.noise=z*7919; ModeOut q; mode_run_0(&J,&q); if(q.status!=A.status||memcmp(q.c,A.c,sizeof A.c)) fl=1; } if(fl) mc::count("decisions found close in a second search"); return fl!=0; };
  for(const M&m: MS){ judge(I,A,m,sens,hs,flip,more); }
}
int main(int c,char**v){ return mc::run(c,v,body); }
