// C12: call-by-call conformance of the Rodas solver with the independent model, under deviating user functions.
#define USE_RODAS
#ifndef PART
#define PART 0
#endif
#if PART==24
#define CONF(ok,...) do{ if(!(ok)) mc::skip(); }while(0)
#else
#define CONF MC_REQUIRE
#endif
#include "dev.hpp"
#include "rodas_ref.hpp"
#if PART==24
#include "lapackcount.hpp"
#endif
using namespace std;
struct Cfg { int prob; int mode; RodasOpt o; double h0,x0,xe; bool again=false; };
struct Res { bool threw=false,inf=false; int cnt[5]; double hl,hf; };
template<class PR> static void drive(const Cfg&c,World&w,vector<double>&y,double&x,Res&r){
  RodasOpt o=c.o; odes::Rodascc<PR> R(o.same,o.at.data(),o.rt.data()); R.setSafe(o.safe); R.setGustafssonTest(o.gus); R.setNmax(o.nmax); R.performOnlyOneStep(o.single);
#if PART==24
  if(c.again){ vector<double> y0=y; double x0=x; try{ R(c.h0,x,c.xe,y.data()); }catch(odes::OdesException&){}catch(Horizon&){} y=y0; x=x0; w.reset(); ((DevEnv*)w.env)->restart(); }
  lapackcount::R=lapackcount::C=0;
#endif
  try{ R(c.h0,x,c.xe,y.data()); }catch(odes::OdesException&){ r.threw=true; }catch(Horizon&){ r.inf=true; }
  r.cnt[0]=R.getNstep();r.cnt[1]=R.getNaccpt();r.cnt[2]=R.getNrejct();r.cnt[3]=R.getNJac();r.cnt[4]=R.getNdec(); r.hl=R.getLastTimeStep(); r.hf=r.cnt[1]?R.getfirstAcceptedStep():0; }
// modes: 0 full analytic J, autonomous flag as the problem is; 1 numeric J, analytic DF_t; 2 hessenberg, numeric DF_t
template<int N> static void d1(const Cfg&c,World&w,vector<double>&y,double&x,Res&r){ bool aut=c.prob==0||c.prob==1||c.prob==3;
  if(c.mode==0){ if(aut) drive<P<N,N-1,N-1,false,false,true,false,METHOD>>(c,w,y,x,r); else drive<P<N,N-1,N-1,false,false,false,true,METHOD>>(c,w,y,x,r); }
  else if(c.mode==1){ if(aut) drive<P<N,N-1,N-1,false,true,true,false,METHOD>>(c,w,y,x,r); else drive<P<N,N-1,N-1,false,true,false,true,METHOD>>(c,w,y,x,r); }
  else { if(aut) drive<P<N,N-1,N-1,true,false,true,false,METHOD>>(c,w,y,x,r); else drive<P<N,N-1,N-1,true,false,false,false,METHOD>>(c,w,y,x,r); } }
static RodasOpt opt(int k){ RodasOpt o; switch(k){ case 0: break; case 1: o.at={1e-3};o.rt={1e-3}; break; case 2: o.gus=false; o.at={1e-4};o.rt={1e-4}; break; case 3: o.safe=0.6; o.at={1e-5};o.rt={1e-3}; break; case 4: o.nmax=12; break; case 5: o.same=false; o.at={1e-3,1e-6}; o.rt={1e-5,1e-3}; break; } return o; }
static void body(){
  Cfg c; c.prob=mc::choose(5,"problem"); int ok=mc::choose(6,"options"); c.o=opt(ok); c.mode=mc::choose(3,"jacobian/layout");
  int dir=mc::choose(2,"direction"); c.x0=dir?1.0:0.0; c.xe=dir?-0.5:2.0; if(dir&&(c.prob==2||c.prob==3)) c.xe=0.7; if(c.prob==2) c.xe=dir?0.95:1.0;
  int hk=mc::choose(mc::thorough()?3:2,"h0"); c.h0=hk==0?0.05:hk==1?1e-4:10;
  if(!mc::thorough()){ if(hk==1&&ok>2) mc::skip(); if(c.mode&&ok>1&&ok!=5) mc::skip(); }
  DevEnv e(c.prob);
#if PART==24
  c.again=mc::choose(2,"call"); int K=mc::thorough()?24:8;
#else
  int K=mc::thorough()?36:26;
#endif
  int nd=c.mode==0&&hk==0&&(ok==1||mc::thorough())?2:1; bool nan6=c.mode!=1&&(nd==1||mc::thorough());
  choose_devs(e,nd,K,nan6?vector<int>{0,1,2,3,6,10,15}:vector<int>{0,1,2,3,10,15},3,{100,101,102,110,113});
  for(auto&q:e.d) if(q.kind==6) c.o.nmax=min(c.o.nmax,150); // a NaN at the start of a step is never forgotten
  World w; W()=&w; w.env=&e; w.horizon=20000; vector<double> y(e.n); e.b.start(y.data()); vector<double> yin=y; double x=c.x0; Res r;
  mc::describe(mc::fmt("method %d problem %d options %d jac/layout %d x0=%g xend=%g h0=%g%s",METHOD,c.prob,ok,c.mode,c.x0,c.xe,c.h0,e.str().c_str()));
  if(e.n==1) d1<1>(c,w,y,x,r); else d1<2>(c,w,y,x,r);
  mc::step((long)w.tr.size());
  DevEnv e2(c.prob); e2.d=e.d; World w2; w2.env=&e2; w2.horizon=20000; bool aut=c.prob==0||c.prob==1||c.prob==3;
  RodasRef R(e.n,METHOD,c.mode==1,aut,c.mode!=2,e.n-1,e.n-1,c.o,&w2); bool inf2=false; try{ R.run(c.h0,c.x0,c.xe,yin.data()); }catch(Horizon&){ inf2=true; }
  bool apx=c.mode==1||(!aut&&c.mode==2);
  size_t lim=R.ambiguous>=0?(size_t)R.ambiguous:w2.tr.size(); bool whole=R.ambiguous<0; if(!whole) mc::count("runs cut at an ambiguous decision");
  mc::count("rejected steps",R.nstep-R.naccpt); mc::count("accepted steps",R.naccpt); if(r.threw) mc::count("runs that throw");
  double sc=0;
  size_t cap=3000; for(auto&q:e.d) if(q.kind%100>=10&&c.prob==2) cap=90; // a wrong Jacobian of a stiff problem makes the run itself chaotic
  if(w2.tr.size()>cap) whole=false;
  for(size_t k=0;k<lim&&k<w2.tr.size()&&k<cap;k++){
    CONF(k<w.tr.size(),"conformance:stopped-early","the solver made %zu calls, the model's call #%zu is %c(t=%.12g)",w.tr.size(),k,w2.tr[k].k,w2.tr[k].t);
    auto&a=w.tr[k]; auto&b=w2.tr[k]; for(double v:b.y) sc=max(sc,fabs(v)); if(!(sc<1e4)){ whole=false; mc::count("runs cut at overflow"); break; }
    double grow=1+k/300.0,tol=grow*(apx?1e-3:4e-6)*(1e-3+sc);
    bool same=a.k==b.k&&fabs(a.t-b.t)<=grow*(apx?1e-3:1e-6)*fabs(b.t-c.x0)+1e-11; for(size_t i=0;i<b.y.size()&&same;i++) if(!(fabs(a.y[i]-b.y[i])<=tol)&&!(std::isnan(a.y[i])&&std::isnan(b.y[i]))) same=false;
    { double m=0; for(size_t i=0;i<b.y.size();i++) m=max(m,fabs(a.y[i]-b.y[i])/tol); if(m>0.1) mc::count("comparisons above a tenth of the tolerance"); if(m>0.5) mc::count("comparisons above half of the tolerance"); }
    if(k<400||!same){ uint64_t h=1; h=mc::hr(h,a.t); for(double v:a.y) h=mc::mix(h,(uint64_t)llround(v*1e4)); mc::gstate(mc::mix(h,c.prob*10+ok)); }
    CONF(same,"conformance:call","call #%zu: solver %c(t=%.12g, y0=%.12g), model %c(t=%.12g, y0=%.12g)",k,a.k,a.t,a.y[0],b.k,b.t,b.y[0]); }
  mc::validated();
  if(whole){
    CONF(r.inf==inf2,"conformance:never-stops","the solver %s, the model %s",r.inf?"exceeds 20000 calls":"stops",inf2?"does not":"does"); if(r.inf) return;
    CONF(r.threw==R.threw,"conformance:exception","solver %s, model %s",r.threw?"throws":"returns",R.threw?"throws":"returns");
    if(!apx||w2.tr.size()<120) CONF(w.tr.size()==w2.tr.size(),"conformance:extra-calls","solver made %zu calls, model %zu",w.tr.size(),w2.tr.size());
    for(int i=0;i<e.n;i++) CONF(fabs(y[i]-(double)R.Y[i])<=(1+w.tr.size()/300.0)*(apx?1e-3:1e-5)*(1e-3+sc),"conformance:result","component %d: %.12g, model %.12Lg",i,y[i],R.Y[i]);
    CONF(fabs(x-R.x)<=1e-5*fabs(R.x-c.x0)+1e-12,"conformance:time","final time %.17g, model %.17g",x,R.x);
    double hlu=1e-300; if(R.acc.size()>1) hlu=fabs((double)(R.acc.back().first-R.acc[R.acc.size()-2].first)); else if(R.acc.size()) hlu=fabs((double)(R.acc[0].first-c.x0));
    if(!r.threw) CONF(fabs(r.hl-(double)R.h)<=((apx?3e-2:1e-3)+2e-5*fabs(c.xe-c.x0)/hlu)*fabs((double)R.h),"conformance:last-step","step size reported at the end %.12g, model %.12Lg",r.hl,R.h);
    if(R.naccpt) CONF(fabs(r.hf-(double)R.first)<=(apx?1e-2:1e-3)*fabs((double)R.first),"conformance:first-accepted","first accepted step reported %.12g, model %.12Lg",r.hf,R.first);
#if PART==24
    if(lapackcount::R) MC_REQUIRE(lapackcount::R==r.cnt[4],"conformance:counters","%d factorizations reported, %ld made",r.cnt[4],lapackcount::R);
    if(c.mode!=1) MC_REQUIRE(r.cnt[3]==w.nJ,"conformance:counters","%d Jacobians reported, %ld computed",r.cnt[3],w.nJ);
#endif
    if(!apx||w2.tr.size()<120) MC_REQUIRE(r.cnt[0]==R.nstep&&r.cnt[1]==R.naccpt&&r.cnt[2]==R.nrejct&&r.cnt[3]==R.njac&&r.cnt[4]==R.ndec,"conformance:counters","steps/accepted/rejected/jacobians/decompositions %d/%d/%d/%d/%d, model %d/%d/%d/%d/%d",r.cnt[0],r.cnt[1],r.cnt[2],r.cnt[3],r.cnt[4],R.nstep,R.naccpt,R.nrejct,R.njac,R.ndec);
  }
  uint64_t h=2; h=mc::mix(h,R.nstep);h=mc::mix(h,R.naccpt);h=mc::mix(h,R.nrejct);h=mc::mix(h,r.threw); h=mc::mix(h,c.prob); mc::outcome(h);
  if(mc::G().samples.size()<2&&e.d.size()) mc::sample(mc::G().desc+mc::fmt(" -> %d steps, %d accepted, %d rejected",r.cnt[0],r.cnt[1],r.cnt[2]));
}
int main(int c,char**v){ return mc::run(c,v,body); }
