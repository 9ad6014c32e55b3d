// C26 (user code throws at every possible call) and C14 (any history, any memory contents: same result) for
// SOLVER 0: Rock4, 1: Rock4L, 2: SDIRKL, 3: symplectic.
#include <cstddef>
#include <cstdlib>
#include <new>
#include <cstring>
static int fillbyte=0;
#if PART==14
void* operator new(std::size_t s){ void*p=malloc(s?s:1); if(!p) throw std::bad_alloc(); memset(p,fillbyte,s); return p; }
void* operator new[](std::size_t s){ void*p=malloc(s?s:1); if(!p) throw std::bad_alloc(); memset(p,fillbyte,s); return p; }
void operator delete(void*p) noexcept { free(p); } void operator delete[](void*p) noexcept { free(p); }
void operator delete(void*p,std::size_t) noexcept { free(p); } void operator delete[](void*p,std::size_t) noexcept { free(p); }
#endif
#include "mc.hpp"
#include <cmath>
#include <memory>
#include <vector>
using std::vector; using std::string;
static const int FILL[4]={0xff,0,0x7f,0x3f};
__attribute__((noinline)) static void smear(){ volatile char b[60000]; for(size_t i=0;i<sizeof b;i++) b[i]=(char)fillbyte; }
template<class T> static void* raw(){ void*p=malloc(sizeof(T)); memset(p,fillbyte,sizeof(T)); return p; }
template<class T> static void drop(T*p){ p->~T(); free(p); }
#if SOLVER==0
#include "rockenv.hpp"
#include "Rock4.hpp"
struct Tee: REnv { RBase b; int mode=0; long c=0; Tee(int k){ b.kind=k; b.n=n=RBase::dim(k); }
  void f(const double*y,double*r)override{ b.f(y,r); ++c; if(mode==1&&c%3==0) for(int i=0;i<n;i++) r[i]=-50*r[i]+3; if(mode==2&&c>9) r[0]=NAN; if(mode==3) for(int i=0;i<n;i++) r[i]=1+1e3*y[i]*y[i]; }
  double rho()override{ return mode==4? 1e9*(1+c%3): b.rho(); } };
typedef odes::Rock4<RProb> RK;
struct Obs { int out=0; long calls=0; uint64_t tr=1; vector<double> y; vector<double> cnt; bool operator==(const Obs&o)const{ return out==o.out&&calls==o.calls&&tr==o.tr&&y.size()==o.y.size()&&memcmp(y.data(),o.y.data(),8*y.size())==0&&cnt==o.cnt; }
  string str()const{ string s=mc::fmt("%s after %ld calls:",out==0?"returns":out==1?"OdesException":out==2?"Fault":"horizon",calls); for(double v:y) s+=mc::fmt(" %.17g",v); s+=" |"; for(double v:cnt) s+=mc::fmt(" %g",v); return s; } };
static Obs go(RK&R,RWorld&w,REnv&e,const double*y0,double t0,double te,double h,bool record=false){ Obs o; w.env=&e; w.tr.clear(); w.record=record; w.nF=w.nR=w.calls=0; int n=e.n; w.hook=[&](char k,const double*y){ o.tr=mc::mix(o.tr,k); if(y) for(int i=0;i<n;i++) o.tr=mc::hd(o.tr,y[i]); };
  double*y=odes::allocDoubleArray(n); memcpy(y,y0,8*n); smear(); try{ R(y,t0,te,h); }catch(odes::OdesException&){ o.out=1; }catch(Fault&){ o.out=2; }catch(Horizon&){ o.out=3; } o.y.assign(y,y+n); odes::destroyDoubleArray(y); o.calls=w.calls; w.hook=nullptr; w.faultAt=-1;
  if(o.out==0){ o.cnt={(double)R.NbSteps(),(double)R.NbAccepted(),(double)R.NbRejected(),(double)R.NbRhsComputed(),(double)R.NbStages()}; if(t0<te) o.cnt.push_back(R.LastAcceptedTimeStep()); } mc::step(o.calls); return o; }
static void body(){
  int prob=mc::choose(6,"problem"); static const double TO[3]={1e-5,1e-8,1e-3}; double tol=TO[mc::choose(3,"tolerance")]; static const double H[3]={0.05,3,1e-4}; double h=H[mc::choose(3,"h")]; double t0=mc::choose(2,"t0")?-1.25:0,te=t0+1.5;
  Tee e(prob); RWorld w; w.horizon=3000000; RProb P(&w); w.env=&e; double y0[4]; e.b.start(y0); fillbyte=0; int n=e.n;
  auto mk=[&](){ RK*r=new(raw<RK>()) RK(P); r->setTolerances(tol,tol); return r; };
#if PART==26
  mc::shard();
  RK*C=mk(); Obs ref=go(*C,w,e,y0,t0,te,h,true); vector<RRec> tr=w.tr; drop(C); MC_REQUIRE(ref.out==0,"clean-run","%s",ref.str().c_str()); int total=tr.size(); int k=mc::choose(total,"fault at call");
  mc::describe(mc::fmt("rock4, problem %d, tol=%g, [%g,%g], h=%g: call %d of %d (%s) throws",prob,tol,t0,te,h,k,total,tr[k].k=='F'?"right-hand side":"spectral radius"));
  RK*S=mk(); w.tr.clear(); w.record=false; w.nF=w.nR=w.calls=0; w.faultAt=k; w.faultTag=77+k; double*y=odes::allocDoubleArray(n); memcpy(y,y0,8*n); bool got=false; int tag=0; try{ (*S)(y,t0,te,h); }catch(Fault&f){ got=true; tag=f.tag; }catch(...){ } w.faultAt=-1;
  vector<double> ye(y,y+n); MC_REQUIRE(got&&tag==77+k,"exception-lost","the exception does not reach the caller unchanged"); MC_REQUIRE(w.calls==k+1,"calls-after-exception","%ld calls although call %d threw",w.calls,k);
  // the caller's array holds the start value, or the result of a step: something the right-hand side was asked about before the fault, never later than the final one
  bool found=!memcmp(y,y0,8*n); int where=-1; for(int q=0;q<=k;q++) if(tr[q].k=='F'&&!memcmp(tr[q].y.data(),y,8*n)){ found=true; where=q; } for(double v:ye) if(!(fabs(v)<1e6)) found=false; MC_REQUIRE(found,"solution","the caller's solution is neither the start value nor the result of a step");
  // it is the last accepted one: an undisturbed run that throws at the last call of the same step (the error estimate's) leaves the same, and that is what a run that throws one call earlier leaves unless a step was accepted in between
  if(k>0){ RK*T=mk(); w.nF=w.nR=w.calls=0; w.faultAt=k-1; double*z=odes::allocDoubleArray(n); memcpy(z,y0,8*n); try{ (*T)(z,t0,te,h); }catch(Fault&){ } w.faultAt=-1; if(memcmp(z,y,8*n)){ // changed between call k-1 and k: call k-1 was the last evaluation of an accepted step, its argument is the new solution
      MC_REQUIRE(tr[k-1].k=='F'&&!memcmp(tr[k-1].y.data(),y,8*n),"solution","between call %d and %d the caller's solution changes to something that is not the step's result",k-1,k); } odes::destroyDoubleArray(z); drop(T); } else MC_REQUIRE(!memcmp(y,y0,8*n),"solution","the very first call throws and the solution changes");
  // number of changes up to here cannot be seen from outside, but time can: the rest of the problem from here reaches the same end
  odes::destroyDoubleArray(y);
  Obs a=go(*S,w,e,y0,t0,te,h); MC_REQUIRE(a==ref,"unusable","the whole problem with the same object: %s; undisturbed: %s",a.str().c_str(),ref.str().c_str());
  int k2=(k*7+3)%total; w.faultAt=k2; Obs b=go(*S,w,e,y0,t0,te,h); MC_REQUIRE(b.out==2&&b.calls==k2+1,"exception-lost","the second exception is lost"); Obs c=go(*S,w,e,y0,t0,te,h); MC_REQUIRE(c==ref,"unusable","after two exceptions: %s; undisturbed: %s",c.str().c_str(),ref.str().c_str()); drop(S);
  uint64_t st=mc::mix(prob,(int)(-log10(tol)*10)); for(double v:ye) st=mc::hr(st,v); mc::state(st); mc::outcome(mc::mix(st,where<0)); mc::validated(); if(k==total/2) mc::sample(mc::G().desc);
#else
  int fi=mc::choose(4,"memory contents"); mc::shard(); RK*F=mk(); Obs ref=go(*F,w,e,y0,t0,te,h); drop(F); MC_REQUIRE(ref.out==0,"clean-run","%s",ref.str().c_str());
  fillbyte=FILL[fi]; RK*S=mk(); string hist; uint64_t hs=3; int L=mc::thorough()?3:2; static const char*ON[9]={"end","integrate","other start","fault","empty interval","other tolerances","step too small","wild","other object"};
  for(int k=0;k<L;k++){ if(k==1&&fi&&!mc::thorough()) break; if(k==2&&(fi>1||prob%2)) break; int op=mc::choose(9,"operation"); if(op==0) break; hist+=string(" ")+ON[op]; Tee e2(prob); Obs q; static const double Y2[4]={0.3,-0.2,0.1,0.5}; w.horizon=4000;
    switch(op){ case 1: q=go(*S,w,e,y0,0,1,0.1); break; case 2: q=go(*S,w,e2,Y2,5,5.3,0.7); break; case 3: { static const int FA[5]={0,2,5,11,24}; w.faultAt=FA[mc::choose(5,"fault at")]; q=go(*S,w,e2,Y2,0,3,0.05); break; }
      case 4: q=go(*S,w,e,y0,2,2,0.1); MC_REQUIRE(q.out==0&&!memcmp(q.y.data(),y0,8*n)&&q.calls<=1,"empty","an empty interval: %s",q.str().c_str()); break; case 5: S->setTolerances(1e-9,1e-2); q=go(*S,w,e,y0,0,1,0.1); S->setTolerances(tol,tol); break;
      case 6: q=go(*S,w,e,y0,0,1,1e-17); MC_REQUIRE(q.out==1,"small-step","a step of 1e-17 is not refused: %s",q.str().c_str()); break; case 7: { Tee wd(prob); wd.mode=1+mc::choose(4,"wildness"); w.horizon=700; q=go(*S,w,wd,y0,0,1,0.1); break; }
      default: { RK*T=new(raw<RK>()) RK(P); T->setTolerances(1e-3,1e-7); go(*T,w,e2,Y2,0,1,0.2); drop(T); } } hs=mc::mix(hs,q.tr); }
  w.horizon=3000000; mc::describe(mc::fmt("rock4, problem %d, tol=%g, h=%g, t0=%g, memory filled with %02x, history:%s",prob,tol,h,t0,FILL[fi],hist.empty()?" none":hist.c_str()));
  Obs r=go(*S,w,e,y0,t0,te,h); MC_REQUIRE(S->nbUnkn()==n,"size","%d unknowns",S->nbUnkn()); drop(S); MC_REQUIRE(r==ref,"depends-on-history","%s; a fresh object: %s",r.str().c_str(),ref.str().c_str()); mc::state(mc::mix(hs,ref.tr)); mc::outcome(mc::mix(ref.tr,hs)); mc::validated(); if(hist.size()>25) mc::sample(mc::G().desc);
#endif
}
#elif SOLVER==1
#include <iostream>
#include <string>
#include "Rock4L.hpp"
using namespace std;
struct Fault { int tag; };
struct Op { int n; vector<double> A; double eig; long calls=0,faultAt=-1; int tag=0; uint64_t tr=1;
  void in(const double*x,const double*s,const double*g){ long c=calls++; if(c==faultAt) throw Fault{tag}; for(int i=0;i<n;i++){ tr=mc::hd(tr,x[i]); tr=mc::hd(tr,s[i]); if(g) tr=mc::hd(tr,g[i]); } }
  int size()const{ return n; } double rho(){ long c=calls++; if(c==faultAt) throw Fault{tag}; return eig; }
  void go(double*x,double*s,double a,double b,double bin,const double*g,double*out){ in(x,s,g); vector<double> t(n,0.0); for(int i=0;i<n;i++) for(int j=0;j<n;j++) t[i]+=A[i*n+j]*x[j]; for(int i=0;i<n;i++) out[i]=a*(t[i]+(g?g[i]:0))+bin*x[i]+b*s[i]; }
  void operator()(double*in,double*s,double a,double b,double*out){ go(in,s,a,b,0,nullptr,out); } void operator()(double*in,double*s,double a,double b,double*g,double*out){ go(in,s,a,b,0,g,out); }
  void operator()(double*in,double*s,double a,double b,double c,double*out){ go(in,s,a,c,b,nullptr,out); } void operator()(double*in,double*s,double a,double b,double c,double*g,double*out){ go(in,s,a,c,b,g,out); } };
template<bool AFF> struct Call { static void run(odes::Rock4L<Op,AFF>&R,double*y,double*,double t0,double te,double h){ R(y,t0,te,h); } };
template<> struct Call<true>{ static void run(odes::Rock4L<Op,true>&R,double*y,double*b,double t0,double te,double h){ R(y,b,t0,te,h); } };
struct Obs { int out=0; long calls=0; uint64_t tr=1; vector<double> y; bool operator==(const Obs&o)const{ return out==o.out&&calls==o.calls&&tr==o.tr&&!memcmp(y.data(),o.y.data(),8*y.size()); } string str()const{ string s=mc::fmt("outcome %d after %ld calls:",out,calls); for(double v:y) s+=mc::fmt(" %.17g",v); return s; } };
template<bool AFF> static Obs go(odes::Rock4L<Op,AFF>&R,Op&P,const vector<double>&y0,const vector<double>&b,double t0,double te,double h){ Obs o; int n=P.n; P.calls=0; P.tr=1; double*y=odes::allocDoubleArray(n),*bb=odes::allocDoubleArray(n); memcpy(y,y0.data(),8*n); memcpy(bb,b.data(),8*n); smear(); try{ Call<AFF>::run(R,y,bb,t0,te,h); }catch(Fault&){ o.out=2; }catch(odes::OdesException&){ o.out=1; } P.faultAt=-1; o.y.assign(y,y+n); if(memcmp(bb,b.data(),8*n)) mc::fail("source","the constant term is changed"); odes::destroyDoubleArray(y); odes::destroyDoubleArray(bb); o.calls=P.calls; o.tr=P.tr; mc::step(o.calls); return o; }
template<bool AFF> static void doit(){
  typedef odes::Rock4L<Op,AFF> RK; static const int NN[4]={3,1,9,16}; int n=NN[mc::choose(4,"size")]; static const double EG[4]={1,40,900,15000}; Op P; P.n=n; P.eig=EG[mc::choose(4,"spectral radius")]; static const double RA[3]={0.25,1,0.4}; double te=0.5,h=te*RA[mc::choose(3,"ratio")]; P.A.assign(n*n,0); for(int i=0;i<n;i++){ double s=P.eig/4; P.A[i*n+i]=-2*s; if(i) P.A[i*n+i-1]=s; if(i+1<n) P.A[i*n+i+1]=s*0.7; } vector<double> y0(n),b(n); for(int i=0;i<n;i++){ y0[i]=cos(1.0+2*i); b[i]=0.4-0.1*i; } fillbyte=0;
#if PART==26
  mc::shard(); RK*C=new(raw<RK>()) RK(P); Obs ref=go<AFF>(*C,P,y0,b,0,te,h); drop(C); MC_REQUIRE(ref.out==0,"clean-run","%s",ref.str().c_str()); int k=mc::choose((int)ref.calls,"fault at call"); mc::describe(mc::fmt("rock4l, %s, n=%d, spectral radius %g, h=%g: call %d of %ld throws",AFF?"affine":"linear",n,P.eig,h,k,ref.calls));
  RK*S=new(raw<RK>()) RK(P); P.calls=0; P.faultAt=k; P.tag=9+k; double*y=odes::allocDoubleArray(n),*bb=odes::allocDoubleArray(n); memcpy(y,y0.data(),8*n); memcpy(bb,b.data(),8*n); int tag=-1; try{ Call<AFF>::run(*S,y,bb,0,te,h); }catch(Fault&f){ tag=f.tag; }catch(...){ tag=-2; } P.faultAt=-1; MC_REQUIRE(tag==9+k,"exception-lost","the exception does not reach the caller unchanged"); MC_REQUIRE(P.calls==k+1,"calls-after-exception","%ld calls although call %d threw",P.calls,k);
  // whole steps only: the same as after the largest number of complete steps
  vector<double> ye(y,y+n); odes::destroyDoubleArray(y); odes::destroyDoubleArray(bb); for(int i=0;i<n;i++) MC_REQUIRE(fabs(ye[i])<1e3,"solution","component %d is %g",i,ye[i]); static vector<vector<double>> seen; static uint64_t key=0; { uint64_t q=mc::mix(mc::mix(n,AFF),(uint64_t)(P.eig*1000+h*100000)); if(q!=key||k==0||mc::G().replaying){ key=q; seen.clear(); } if(k==0) MC_REQUIRE(ye==y0,"solution","the first call throws and the solution changes"); bool old=false; for(auto&v:seen) if(v==ye) old=true; if(!old) seen.push_back(ye); MC_REQUIRE((int)seen.size()<=(int)(te/h+1.5),"solution","%d different solutions for %g steps",(int)seen.size(),te/h); }
  Obs a=go<AFF>(*S,P,y0,b,0,te,h); MC_REQUIRE(a==ref,"unusable","the whole problem with the same object: %s; undisturbed: %s",a.str().c_str(),ref.str().c_str()); drop(S); mc::state(mc::mix(mc::mix(n,k),(int)P.eig)); mc::outcome(a.tr+k); mc::validated(); if(k==ref.calls/2) mc::sample(mc::G().desc);
#else
  int fi=mc::choose(4,"memory contents"); mc::shard(); RK*C=new(raw<RK>()) RK(P); Obs ref=go<AFF>(*C,P,y0,b,0,te,h); drop(C); fillbyte=FILL[fi]; RK*S=new(raw<RK>()) RK(P); string hist; uint64_t hs=7; vector<double> z0(n,0.3); int L=mc::thorough()?3:2; static const char*ON[7]={"end","same","other step","fault","other start","refused","wrong mode"};
  for(int k=0;k<L;k++){ int op=mc::choose(AFF?6:6,"operation"); if(!op) break; hist+=string(" ")+ON[op]; Obs q; switch(op){ case 1: q=go<AFF>(*S,P,y0,b,0,te,h); break; case 2: q=go<AFF>(*S,P,z0,b,0,1,0.3); break; case 3: { static const int FA[4]={1,2,5,9}; P.faultAt=FA[mc::choose(4,"fault at")]; q=go<AFF>(*S,P,z0,b,0,1,0.5); break; } case 4: q=go<AFF>(*S,P,z0,b,3,3.1,0.01); break; case 5: { double g=P.eig; P.eig=1e8; q=go<AFF>(*S,P,z0,b,0,1,0.5); P.eig=g; MC_REQUIRE(q.out==1,"refused","a step that needs too many stages is not refused"); break; } } hs=mc::mix(hs,q.tr); }
  mc::describe(mc::fmt("rock4l, %s, n=%d, spectral radius %g, h=%g, memory %02x, history:%s",AFF?"affine":"linear",n,P.eig,h,FILL[fi],hist.c_str())); Obs r=go<AFF>(*S,P,y0,b,0,te,h); drop(S); MC_REQUIRE(r==ref,"depends-on-history","%s; a fresh object: %s",r.str().c_str(),ref.str().c_str()); mc::state(mc::mix(hs,ref.tr)); mc::outcome(mc::mix(hs,n)); mc::validated(); if(hist.size()>12) mc::sample(mc::G().desc);
#endif
}
static void body(){ if(mc::choose(2,"affine")) doit<true>(); else doit<false>(); }
#elif SOLVER==2
#include <iostream>
#include <string>
#include "Sdirkl.hpp"
#include "RKMethod1.hpp"
#include "RKMethod2.hpp"
#include "RKRS.hpp"
#include "EulerImp.hpp"
#include "CrN.hpp"
struct Fault { int tag; };
static long calls=0,faultAt=-1; static int ftag=0; static uint64_t trc=1; static double eig=1;
struct Op { int n; double al; void init(int _n,double a){ n=_n; al=a; } void apply(double*r,double*x){ long c=calls++; for(int i=0;i<n;i++) trc=mc::hd(trc,r[i]); if(c==faultAt){ for(int i=0;i<n;i++) x[i]=1e300; throw Fault{ftag}; } for(int i=0;i<n;i++) x[i]=r[i]/(1+al*eig*(1+i)); for(int i=1;i<n;i++) x[i]+=0.1*al*x[i-1]/(1+al*eig*(1+i)); } };
template<class M> static void doit(const char*nm){
  typedef odes::Sdirkl<M,Op> S; static const int NN[3]={3,1,6}; int n=NN[mc::choose(3,"size")]; bool aff=mc::choose(2,"affine"); static const double EG[3]={1,300,-0.23}; eig=EG[mc::choose(3,"eigenvalue")]; static const double DT[3]={0.1,1,1e-4}; double dt=DT[mc::choose(3,"dt")]; int st=1+mc::choose(4,"steps"); vector<double> y0(n),phi(n); for(int i=0;i<n;i++){ y0[i]=1.5-0.4*i; phi[i]=0.3*i-0.5; } fillbyte=0;
  auto step=[&](S&s,vector<double>&y){ if(aff) s.step(y.data(),phi.data()); else s.step(y.data()); mc::step(); }; auto clean=[&](S&s,vector<double>&y,int k,uint64_t&t){ calls=0; trc=1; smear(); for(int i=0;i<k;i++) step(s,y); t=trc; };
#if PART==26
  mc::shard(); S*A=new(raw<S>()) S(n,dt,aff); vector<vector<double>> path={y0}; vector<double> y=y0; uint64_t t0; calls=0; trc=1; for(int i=0;i<st;i++){ step(*A,y); path.push_back(y); } t0=trc; long total=calls; drop(A); int k=mc::choose((int)total,"fault at call"); mc::describe(mc::fmt("sdirkl %s, n=%d, %s, eigenvalue %g, dt=%g, %d steps: solve %d throws",nm,n,aff?"affine":"linear",eig,dt,st,k));
  S*B=new(raw<S>()) S(n,dt,aff); vector<double> z=y0; calls=0; faultAt=k; ftag=5+k; int tag=-1,done=0; try{ for(;done<st;done++) step(*B,z); }catch(Fault&f){ tag=f.tag; } faultAt=-1; MC_REQUIRE(tag==5+k,"exception-lost","the exception does not reach the caller"); MC_REQUIRE(z==path[done],"solution","the data are not those before the step that failed");
  for(;done<st;done++) step(*B,z); MC_REQUIRE(z==path[st],"unusable","going on after the exception gives another result"); z=y0; uint64_t t1; clean(*B,z,st,t1); MC_REQUIRE(z==path[st]&&t1==t0,"unusable","the whole problem after the exception gives another result"); drop(B); mc::state(mc::mix(t0,k)); mc::outcome(mc::mix(k,n)); mc::validated(); if(k==1) mc::sample(mc::G().desc);
#else
  int fi=mc::choose(4,"memory contents"); mc::shard(); S*A=new(raw<S>()) S(n,dt,aff); vector<double> y=y0; uint64_t t0; clean(*A,y,st,t0); drop(A); fillbyte=FILL[fi]; S*B=new(raw<S>()) S(n,dt,aff); string hist; for(int k=0;k<(mc::thorough()?3:2);k++){ int op=mc::choose(5,"operation"); if(!op) break; hist+=mc::fmt(" %d",op); uint64_t t; switch(op){ case 1: { vector<double> z(n,2.5); clean(*B,z,2,t); break; } case 2: { vector<double> z(n,NAN); clean(*B,z,1,t); break; } case 3: { vector<double> z(n,1); try{ if(aff) B->step(z.data()); else B->step(z.data(),phi.data()); }catch(...){ } break; } case 4: { S*C=new(raw<S>()) S(n,dt*3,aff); vector<double> z(n,-1); clean(*C,z,3,t); drop(C); break; } } }
  mc::describe(mc::fmt("sdirkl %s, n=%d, %s, eigenvalue %g, dt=%g, %d steps, memory %02x, history:%s",nm,n,aff?"affine":"linear",eig,dt,st,FILL[fi],hist.c_str())); vector<double> z=y0; uint64_t t1; clean(*B,z,st,t1); drop(B); MC_REQUIRE(z==y&&t1==t0,"depends-on-history","another result than with a fresh object"); mc::state(mc::mix(t0,mc::hstr(hist.c_str()))); mc::outcome(t0); mc::validated(); if(hist.size()>5) mc::sample(mc::G().desc);
#endif
}
static void body(){ switch(mc::choose(5,"method")){ case 0: doit<odes::EulerImp>("implicit Euler"); break; case 1: doit<odes::CrN>("Crank-Nicolson"); break; case 2: doit<odes::RKMethod1>("method 1"); break; case 3: doit<odes::RKMethod2>("method 2"); break; default: doit<odes::RKRS>("RS"); } }
#else
#include <iostream>
#include <string>
#include "SymplecticRK.hpp"
struct Fault { int tag; };
static long calls=0,faultAt=-1; static int ftag=0; static uint64_t trc=1;
template<class D> struct F { static const int n=2; void operator()(D*v,D*r){ long c=calls++; if(c==faultAt){ r[0]=1e30; r[1]=-1e30; throw Fault{ftag}; } trc=mc::hd(trc,v[0]); trc=mc::hd(trc,v[1]); r[0]=v[1]; r[1]=-v[0]-D(0.3)*v[0]*v[0]; mc::step(); } };
template<int s,class D> static void doit(){
  typedef odes::SymplecticRK<F<D>,s,D> S; static const double HH[4]={0.1,-0.2,0.3,1e-3}; D h=HH[mc::choose(4,"h")]; bool ext=mc::choose(2,"extrapolated"); int pre=mc::choose(4,"steps before"); fillbyte=0; D tol=std::numeric_limits<D>::epsilon();
  auto mk=[&](int it=60){ return new(raw<S>()) S(it); }; auto run=[&](S&q,D*u,int k,bool first){ for(int i=0;i<k;i++){ bool fs=first&&i==0; bool b=ext?fs:true; if(ext&&i) b=false; if(!q.step(h,u,b)) return false; } return true; };
#if PART==26
  mc::shard(); S*A=mk(); D u[2]={D(0.4),D(0.1)}; bool ok=run(*A,u,pre,true); MC_REQUIRE(ok,"clean-run","no convergence"); D u0[2]={u[0],u[1]}; calls=0; ok=run(*A,u,1,pre==0); MC_REQUIRE(ok,"clean-run","no convergence"); long total=calls; drop(A); int k=mc::choose((int)total,"fault at call"); mc::describe(mc::fmt("symplectic, %d stages, %s, h=%g, %s starting values: call %d of %ld of step %d throws",s,sizeof(D)>8?"long double":"double",(double)h,ext?"extrapolated":"constant",k,total,pre+1));
  S*B=mk(); D w[2]={D(0.4),D(0.1)}; run(*B,w,pre,true); S*C=mk(); D x[2]={D(0.4),D(0.1)}; run(*C,x,pre,true); calls=0; faultAt=k; ftag=3+k; int tag=-1; try{ run(*B,w,1,pre==0); }catch(Fault&f){ tag=f.tag; } faultAt=-1; MC_REQUIRE(tag==3+k&&calls==k+1,"exception-lost","the exception does not reach the caller unchanged"); MC_REQUIRE(w[0]==u0[0]&&w[1]==u0[1],"solution","the state changed although the step did not complete");
  // the step once more, with constant starting values: what the undisturbed object gives, bit for bit
  bool f1=true,f2=true; calls=0; trc=1; bool o1=B->step(h,w,f1); uint64_t t1=trc; long c1=calls; calls=0; trc=1; bool o2=C->step(h,x,f2); MC_REQUIRE(o1==o2&&w[0]==x[0]&&w[1]==x[1]&&t1==trc&&c1==calls,"unusable","the step after the exception: %.20Lg %.20Lg, undisturbed: %.20Lg %.20Lg",(long double)w[0],(long double)w[1],(long double)x[0],(long double)x[1]);
  for(int i=0;i<2;i++) MC_REQUIRE(fabsl((long double)(w[i]-u[i]))<=20*tol,"result","component %d differs by %Lg from the undisturbed one",i,(long double)(w[i]-u[i]));
  for(int i=0;i<3;i++){ f1=f2=false; o1=B->step(h,w,f1); o2=C->step(h,x,f2); MC_REQUIRE(o1==o2&&w[0]==x[0]&&w[1]==x[1],"unusable","%d steps after the exception the results differ",i+2); } drop(B); drop(C); mc::state(mc::mix(mc::mix(s,k),t1)); mc::outcome(mc::mix(t1,k)); mc::validated(); if(k==total/2) mc::sample(mc::G().desc);
#else
  int fi=mc::choose(4,"memory contents"); mc::shard(); S*A=mk(); D u[2]={D(0.4),D(0.1)}; trc=1; bool ok=run(*A,u,pre+3,true); uint64_t t0=trc; drop(A); fillbyte=FILL[fi]; S*B=mk(); string hist; static const char*ON[6]={"end","fault","no convergence","other object","not finite","kept object"}; vector<S*> kept;
  // histories that may not matter: steps that did not complete, and other objects
  for(int q=0;q<(mc::thorough()?3:2);q++){ int op=mc::choose(6,"operation"); if(!op) break; hist+=string(" ")+ON[op]; D z[2]={D(1.5),D(-2)}; bool f=true; switch(op){ case 1: { static const int FA[3]={0,1,s+1}; calls=0; faultAt=FA[mc::choose(3,"fault at")]; try{ B->step(h,z,f); }catch(Fault&){ } faultAt=-1; break; } case 2: { D y[2]={D(30),D(-20)}; B->step(D(5),y,f); break; } case 3: { S*C=mk(9); C->step(h*2,z,f); f=false; C->step(h*2,z,f); drop(C); break; } case 4: { D y[2]={D(NAN),D(1)}; bool r=B->step(h,y,f); MC_REQUIRE(!r,"not-finite","a step from NaN succeeds"); break; } default: { S*C=mk(); C->step(h/3,z,f); kept.push_back(C); } } }
  mc::describe(mc::fmt("symplectic, %d stages, %s, h=%g, %s, %d steps, memory %02x, history:%s",s,sizeof(D)>8?"long double":"double",(double)h,ext?"extrapolated":"constant",pre+3,FILL[fi],hist.c_str())); D w[2]={D(0.4),D(0.1)}; trc=1; bool o2=run(*B,w,pre+3,true); drop(B); for(auto p:kept) drop(p); MC_REQUIRE(ok==o2&&w[0]==u[0]&&w[1]==u[1]&&trc==t0,"depends-on-history","%.20Lg %.20Lg; a fresh object: %.20Lg %.20Lg",(long double)w[0],(long double)w[1],(long double)u[0],(long double)u[1]); mc::state(mc::mix(t0,mc::hstr(hist.c_str()))); mc::outcome(t0); mc::validated(); if(hist.size()>12) mc::sample(mc::G().desc);
#endif
}
template<class D> static void st(){ switch(mc::choose(6,"stages")){ case 0: doit<2,D>(); break; case 1: doit<3,D>(); break; case 2: doit<5,D>(); break; case 3: doit<8,D>(); break; case 4: doit<12,D>(); break; default: doit<16,D>(); } }
static void body(){ if(mc::choose(2,"precision")) st<long double>(); else st<double>(); }
#endif
int main(int c,char**v){ return mc::run(c,v,body); }
