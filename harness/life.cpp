// C26 (faults thrown by user code at every possible call) and C14 (any history, any memory contents: same result)
// for the Radau and Rodas solvers. METHOD 0: Radau5, 1..3: Rodas.
#include <cstddef>
#include <cstdlib>
static int fillbyte=0;
#ifndef LITE
#define LITE 0
#endif
#if PART==14
#include <new>
#include <cstring>
void* operator new(std::size_t s){ void*p=malloc(s?s:1); if(!p) throw std::bad_alloc(); memset(p,fillbyte,s); return p; }
void* operator new[](std::size_t s){ void*p=malloc(s?s:1); if(!p) throw std::bad_alloc(); memset(p,fillbyte,s); return p; }
void operator delete(void*p) noexcept { free(p); } void operator delete[](void*p) noexcept { free(p); }
void operator delete(void*p,std::size_t) noexcept { free(p); } void operator delete[](void*p,std::size_t) noexcept { free(p); }
#endif
#if METHOD
#define USE_RODAS
#else
#define USE_RADAU
#endif
#include "ode.hpp"
#include "envs.hpp"
using namespace std;
#if METHOD
template<class PR> using Solver=odes::Rodascc<PR>;
static const double*SAFEV=nullptr;
#else
template<class PR> using Solver=odes::Radau5cc<PR>;
#endif
struct Wild: Env { int mode=0; NonEnv b; long c=0; // overflow, NaN, discontinuity
  void f(double t,const double*y,double*r)override{ b.n=n; b.f(t,y,r); ++c; if(mode==0) for(int i=0;i<n;i++) r[i]=1+1e3*y[i]*y[i]; else if(mode==1){ if(c>9) r[0]=NAN; } else if(c%3==0) r[0]=-50*r[0]+3; }
  void jac(double t,const double*y,double*J)override{ b.n=n; b.jac(t,y,J); } void dft(double t,const double*y,double*r)override{ b.n=n; b.dft(t,y,r); } };
struct Opt { double rt,at; double thet; };
static const double Y0[4]={0.4,1.3,0.7,0.2};
template<class S> static void setopt(S&R,const Opt&o){ double a[4]={o.at,o.at,o.at,o.at},r[4]={o.rt,o.rt,o.rt,o.rt}; R.setTestPolicy(true,a,r);
#if !METHOD
  R.setRecomputeJacobianTreshold(o.thet);
#endif
}
template<class PR> static Solver<PR>* make(const Opt&o){ double a[4]={o.at,o.at,o.at,o.at},r[4]={o.rt,o.rt,o.rt,o.rt}; void*p=malloc(sizeof(Solver<PR>)); memset(p,fillbyte,sizeof(Solver<PR>)); Solver<PR>*S=new(p) Solver<PR>(true,a,r); setopt(*S,o); return S; }
template<class PR> static void drop(Solver<PR>*S){ S->~Solver<PR>(); free(S); }
struct Obs { uint64_t tr=1; long calls=0; int out=0; double x=0; vector<double> y; vector<long> cnt; vector<double> hs; bool operator==(const Obs&o)const{ return tr==o.tr&&calls==o.calls&&out==o.out&&memcmp(&x,&o.x,8)==0&&memcmp(y.data(),o.y.data(),8*y.size())==0&&cnt==o.cnt&&(hs.size()==o.hs.size()&&memcmp(hs.data(),o.hs.data(),8*hs.size())==0); }
  string str()const{ string s=mc::fmt("%s after %ld calls, x=%.17g y=",out==0?"returns":out==1?"OdesException":out==2?"Fault":"horizon",calls,x); for(double v:y) s+=mc::fmt("%.17g ",v); for(long v:cnt) s+=mc::fmt("%ld/",v); for(double v:hs) s+=mc::fmt(" %.17g",v); return s; } };
__attribute__((noinline)) static void smear(){ volatile char b[60000]; for(size_t i=0;i<sizeof b;i++) b[i]=(char)fillbyte; }
template<class S> static Obs go(S&R,World&w,Env&e,double h,double x0,double xe,const double*ys,int n){ Obs o; w.env=&e; w.reset(); w.record=false; w.hook=[&](char k,double t,const double*y){ o.tr=mc::mix(o.tr,k); o.tr=mc::hd(o.tr,t); for(int i=0;i<n;i++) o.tr=mc::hd(o.tr,y[i]); }; o.y.assign(ys,ys+n); o.x=x0; smear(); try{ R(h,o.x,xe,o.y.data()); }catch(odes::OdesException&){ o.out=1; }catch(Fault&){ o.out=2; }catch(Horizon&){ o.out=3; } w.hook=nullptr; o.calls=w.calls; w.faultAt=-1;
  if(o.out==0){ o.cnt={R.getNstep(),R.getNaccpt(),R.getNrejct(),R.getNJac(),R.getNdec()};
#if !METHOD
    o.cnt.push_back(R.getNfoncCalled()); if(x0!=xe) o.cnt.push_back(R.getNewt());
#endif
    o.hs.push_back(R.getLastTimeStep()); if(x0!=xe) o.hs.push_back(R.getfirstAcceptedStep()); } mc::step(o.calls); return o; }
#if PART==26
template<int N,int SUB,int SUP,bool HS,bool NJ,bool AUT,bool DFT> static void doit(const char*lay){
  typedef P<N,SUB,SUP,HS,NJ,AUT,DFT,METHOD> PR; static const Opt OO[4]={{1e-4,1e-4,-1},{1e-6,1e-7,-1},{1e-4,1e-4,0.001},{1e-2,1e-3,-1}};
  NonEnv e; e.n=N; e.full=SUB==N-1&&SUP==N-1; e.kind=AUT?2:mc::choose(3,"problem"); int io=mc::choose(METHOD?3:4,"options"); Opt o=OO[METHOD&&io==2?3:io]; int dir=mc::choose(2,"direction"); double x0=dir?0.5:0,xe=dir?0.4:0.6; int hk=mc::choose(2,"h"); double h=hk?0.5:0.01; mc::shard();
  World w; W()=&w; w.horizon=100000; double y[N]; for(int i=0;i<N;i++) y[i]=Y0[i];
  // clean run
  auto*A=make<PR>(o); w.env=&e; w.reset(); w.record=true; double x=x0; (*A)(h,x,xe,y); drop<PR>(A); vector<Rec> tr=w.tr; vector<double> yend(y,y+N); w.record=false; MC_REQUIRE(x==xe||fabs(x-xe)<1e-14,"clean-run","the clean run ends at %.17g",x);
  int total=tr.size(); int k=mc::choose(total,"fault at call");
  mc::describe(mc::fmt("%s%d, %s, problem %d, rtol=%g, x0=%g, h=%g, thet=%g: call %d of %d (%c) throws",METHOD?"rodas":"radau5 ",METHOD,lay,e.kind,o.rt,x0,h,o.thet,k,total,tr[k].k));
  // the last accepted state: where the Jacobian was last asked for, or differences started
  double xs=x0; vector<double> ysv(Y0,Y0+N); auto base=[&](int b){ if(tr[b].k!='F'||b+1>=total) return false; if(!NJ) return tr[b+1].k=='J'&&tr[b+1].t==tr[b].t&&tr[b+1].y==tr[b].y; if(b+N>=total) return false; for(int j=0;j<N;j++){ auto&q=tr[b+1+j]; if(q.k!='F'||q.t!=tr[b].t) return false; for(int i=0;i<N;i++) if((q.y[i]!=tr[b].y[i])!=(i==j)) return false; } return true; };
  for(int b=0;b<=k;b++) if(base(b)){ xs=tr[b].t; ysv=tr[b].y; }
  auto*S=make<PR>(o); for(int i=0;i<N;i++) y[i]=Y0[i]; x=x0; w.reset(); w.faultAt=k; w.faultTag=1234+k; bool got=false; int tag=0; string other;
  try{ (*S)(h,x,xe,y); }catch(Fault&f){ got=true; tag=f.tag; }catch(odes::OdesException&){ other="OdesException"; }catch(...){ other="something else"; }
  mc::step(w.calls); w.faultAt=-1; MC_REQUIRE(got&&tag==1234+k,"exception-lost","the exception does not reach the caller unchanged (%s)",got?"wrong tag":other.empty()?"no exception":other.c_str());
  MC_REQUIRE(w.calls==k+1,"calls-after-exception","%ld calls although call %d threw",w.calls,k);
  bool exact=o.thet<0||METHOD; if(exact){ MC_REQUIRE(x==xs,"time","the time is %.17g, last accepted %.17g",x,xs); for(int i=0;i<N;i++) MC_REQUIRE(y[i]==ysv[i],"solution","component %d is %.17g, last accepted %.17g",i,y[i],ysv[i]); }
  else { bool found=x==x0; if(found) for(int i=0;i<N;i++) found=found&&y[i]==Y0[i]; for(auto&q:tr) if(!found&&q.k=='F'&&q.t==x){ bool s=true; for(int i=0;i<N;i++) if(q.y[i]!=y[i]) s=false; found=s; } MC_REQUIRE(found,"solution","time %.17g and solution do not belong together",x); MC_REQUIRE((x-xs)*(dir?-1:1)>=0,"time","the time %.17g is before the last accepted state %.17g",x,xs); }
  // the same object goes on: as a fresh one does, bit for bit
  Obs a=go(*S,w,e,h,x,xe,y,N); auto*B=make<PR>(o); Obs b=go(*B,w,e,h,x,xe,y,N); MC_REQUIRE(a.out==0,"unusable","after the exception the object does not integrate any more: %s",a.str().c_str()); MC_REQUIRE(a==b,"unusable","going on with the same object: %s; with a fresh one: %s",a.str().c_str(),b.str().c_str());
  for(int i=0;i<N;i++) MC_REQUIRE(fabs(a.y[i]-yend[i])<=300*(o.at+o.rt*fabs(yend[i])),"result","component %d: %.12g, without the exception %.12g",i,a.y[i],yend[i]);
  // a second exception in the continued run, then the whole problem once more
  if(a.calls>2){ int k2=(k*7)%a.calls; w.reset(); w.faultAt=k2; double x2=x; vector<double> y2(y,y+N); bool g2=false; try{ (*S)(h,x2,xe,y2.data()); }catch(Fault&){ g2=true; } w.faultAt=-1; MC_REQUIRE(g2,"exception-lost","the second exception is lost"); }
  Obs c=go(*S,w,e,h,x0,xe,Y0,N); Obs d=go(*B,w,e,h,x0,xe,Y0,N); MC_REQUIRE(c==d&&c.out==0,"unusable","after two exceptions: %s; undisturbed: %s",c.str().c_str(),d.str().c_str());
  for(int i=0;i<N;i++) MC_REQUIRE(c.y[i]==yend[i],"result","the whole problem again: component %d is %.17g instead of %.17g",i,c.y[i],yend[i]);
  drop<PR>(S); drop<PR>(B); uint64_t st=mc::mix(e.kind,io*2+dir); st=mc::hr(st,x); for(int i=0;i<N;i++) st=mc::hr(st,y[i]); mc::state(st); mc::outcome(mc::mix(st,tr[k].k)); mc::validated(); if(k==total/2) mc::sample(mc::G().desc);
}
#else
template<int N,int SUB,int SUP,bool HS,bool NJ,bool AUT,bool DFT> static void doit(const char*lay){
  typedef P<N,SUB,SUP,HS,NJ,AUT,DFT,METHOD> PR; static const Opt OO[2]={{1e-5,1e-6,0.001},{1e-3,1e-3,-1}}; static const int FILL[4]={0xff,0,0x7f,0x3f};
  NonEnv e; e.n=N; e.full=SUB==N-1&&SUP==N-1; e.kind=AUT?2:mc::choose(3,"probe problem"); int io=mc::choose(2,"probe options"); Opt o=OO[io]; int pk=mc::choose(4,"probe"); int fi=mc::choose(4,"memory contents"); if(!mc::thorough()&&io==1&&pk!=0&&pk!=2) mc::skip(); mc::shard();
  double x0=pk==1?0.5:0,xe=pk==1?0.1:0.8,h=pk==2?0.6:0.01; World w; W()=&w; w.horizon=200000;
  auto probe=[&](Solver<PR>&R,bool fresh)->Obs{ (void)fresh; if(pk==3) R.performOnlyOneStep(true); Obs q=go(R,w,e,h,x0,xe,Y0,N); if(pk==3) R.performOnlyOneStep(false); return q; };
  fillbyte=0; auto*F=make<PR>(o); Obs ref=probe(*F,true); drop<PR>(F);
  fillbyte=FILL[fi]; auto*S=make<PR>(o); int L=mc::thorough()?3:2; string hist; uint64_t hs=3;
  static const char*ON[12]={"end","integrate","backwards","fault","step limit","single step","empty interval","other tolerances","wild","settings","other object","nan"};
  for(int k=0;k<L;k++){ if(k==1&&fi&&!mc::thorough()) break; if(k==2&&fi>1) break; w.horizon=700; int op=mc::choose(12,"operation"); if(op==0) break; hist+=string(" ")+ON[op]; NonEnv e2; e2.n=N; e2.full=e.full; e2.kind=2; static const double Y2[4]={1,-0.5,0.2,2}; Obs q;
    switch(op){ case 1: q=go(*S,w,e,0.02,0,1.1,Y0,N); break; case 2: q=go(*S,w,e2,0.3,1,0.2,Y2,N); break; case 3: { static const int FA[4]={1,6,14,33}; w.faultAt=FA[mc::choose(4,"fault at")]; q=go(*S,w,e2,0.05,0,3,Y2,N); break; }
      case 4: S->setNmax(3); q=go(*S,w,e,1e-4,0,2,Y0,N); S->setNmax(10000); break; case 5: S->performOnlyOneStep(true); q=go(*S,w,e2,0.1,0,1,Y2,N); if(q.out==0){ Obs z=go(*S,w,e2,0.1,q.x,1,q.y.data(),N); } S->performOnlyOneStep(false); break; case 6: q=go(*S,w,e,0.1,0.3,0.3,Y0,N); MC_REQUIRE(q.out==0&&q.x==0.3&&q.calls==0,"empty","an empty interval: %s",q.str().c_str()); break;
      case 7: { Opt p={1e-2,1e-7,0.1}; setopt(*S,p); q=go(*S,w,e,0.02,0,1,Y0,N); setopt(*S,o); break; } case 8: { Wild wd; wd.n=N; wd.b.full=e.full; wd.b.kind=0; wd.mode=mc::choose(2,"wildness")?2:0; S->setNmax(60); q=go(*S,w,wd,0.1,0,1,Y0,N); S->setNmax(10000); break; }
      case 9: S->setSafe(0.5); S->setGustafssonTest(false);
#if !METHOD
        S->setFacrFacl(0.5,2.); S->setMaxIterationsNewton(10); S->setFnewt(0.02);
#endif
        q=go(*S,w,e,0.02,0,1,Y0,N); S->setSafe(0.9); S->setGustafssonTest(true);
#if !METHOD
        S->setFacrFacl(1.e+0/8.e+0,5.e+0); S->setMaxIterationsNewton(7); setopt(*S,o); 
#endif
        break;
      case 10: { Opt p={1e-3,1e-3,0.001}; auto*T=make<PR>(p); go(*T,w,e2,0.2,0,2,Y2,N); if(mc::choose(2,"kept")) drop<PR>(T); else { go(*T,w,e,0.1,1,0,Y0,N); drop<PR>(T); } break; }
      default: { Wild wd; wd.n=N; wd.b.full=e.full; wd.b.kind=1; wd.mode=1; S->setNmax(40); q=go(*S,w,wd,0.1,0,1,Y0,N); S->setNmax(10000); } } hs=mc::mix(hs,q.tr); }
  mc::describe(mc::fmt("%s%d, %s, problem %d, options %d, probe %d, memory filled with %02x, history:%s",METHOD?"rodas":"radau5 ",METHOD,lay,e.kind,io,pk,FILL[fi],hist.empty()?" none":hist.c_str()));
  w.horizon=200000; Obs r=probe(*S,false); drop<PR>(S); MC_REQUIRE(r==ref,"depends-on-history","%s; a fresh object: %s",r.str().c_str(),ref.str().c_str());
  mc::state(mc::mix(hs,ref.tr)); mc::outcome(mc::mix(ref.tr,hs)); mc::validated(); if(hist.size()>25) mc::sample(mc::G().desc);
}
#endif
static void body(){ 
#if METHOD
  switch(mc::choose(6,"layout")){ case 0: doit<3,2,2,false,false,true,false>("full, autonomous"); break; case 1: doit<3,2,2,false,true,false,true>("full, numeric, DF_t"); break; case 2: doit<3,1,1,false,false,false,false>("banded, numeric DF_t"); break; case 3: doit<3,2,2,true,false,false,true>("hessenberg"); break; case 4: doit<4,1,1,false,true,false,false>("banded, all numeric"); break; default: doit<2,1,1,true,true,true,false>("hessenberg, numeric, autonomous"); }
#else
  switch(mc::choose(5,"layout")){ case 0: doit<3,2,2,false,false,false,false>("full"); break; case 1: doit<3,2,2,false,true,false,false>("full, numeric"); break; case 2: doit<4,1,1,false,false,false,false>("banded"); break; case 3: doit<3,2,2,true,false,false,false>("hessenberg"); break; default: doit<4,1,1,false,true,false,false>("banded, numeric"); }
#endif
}
int main(int c,char**v){ return mc::run(c,v,body); }
