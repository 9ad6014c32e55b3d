// PART 29: call-by-call conformance of Radau5 with the independent model, under deviating user functions.
// PART 24: counters against what was observed (runs that do not conform are left to PART 29), first or second call on the object.
#define USE_RADAU
#ifndef PART
#define PART 0
#endif
#if PART==24
#define CONF(ok,...) do{ if(!(ok)) mc::skip(); }while(0)
#else
#define CONF MC_REQUIRE
#endif
#include "dev.hpp"
#include "radau_ref.hpp"
#if PART==24
#include "lapackcount.hpp"
#endif
using namespace std;

struct Cfg { int prob; bool numj; RadauOpt o; double h0,x0,xe; int layout; bool again=false; };
template<class PR> static void drive(const Cfg&c,World&w,vector<double>&y,double&x,bool&threw,int cnt[6],double&hl,double&hf,long&nf){
  RadauOpt o=c.o; odes::Radau5cc<PR> R(o.same,o.at.data(),o.rt.data());
  R.setRecomputeJacobianTreshold(o.thet); R.setMaxIterationsNewton(o.nit); R.setSafe(o.safe); R.setGustafssonTest(o.gus); R.setNmax(o.nmax); if(o.fnewt>0) R.setFnewt(o.fnewt);
  if(o.facr!=0.125||o.facl!=5) R.setFacrFacl(o.facr,o.facl);
  R.performOnlyOneStep(o.single);
#if PART==24
  if(c.again){ vector<double> y0=y; double x0=x; try{ R(c.h0,x,c.xe,y.data()); }catch(odes::OdesException&){}catch(Horizon&){} y=y0; x=x0; w.reset(); ((DevEnv*)w.env)->restart(); }
  lapackcount::R=lapackcount::C=0;
#endif
  threw=false; try{ R(c.h0,x,c.xe,y.data()); }catch(odes::OdesException&){ threw=true; }
  cnt[0]=R.getNstep();cnt[1]=R.getNaccpt();cnt[2]=R.getNrejct();cnt[3]=R.getNJac();cnt[4]=R.getNdec(); nf=R.getNfoncCalled(); hl=R.getLastTimeStep(); hf=cnt[1]?R.getfirstAcceptedStep():0;
}
static void dispatch(const Cfg&c,World&w,vector<double>&y,double&x,bool&t,int cnt[6],double&hl,double&hf,long&nf){
  int n=Base::dim(c.prob);
  if(n==1){ if(c.numj) drive<P<1,0,0,false,true>>(c,w,y,x,t,cnt,hl,hf,nf); else if(c.layout==0) drive<P<1,0,0,false,false>>(c,w,y,x,t,cnt,hl,hf,nf); else drive<P<1,0,0,true,false>>(c,w,y,x,t,cnt,hl,hf,nf); }
  else { if(c.numj) drive<P<2,1,1,false,true>>(c,w,y,x,t,cnt,hl,hf,nf); else if(c.layout==0) drive<P<2,1,1,false,false>>(c,w,y,x,t,cnt,hl,hf,nf); else drive<P<2,1,1,true,false>>(c,w,y,x,t,cnt,hl,hf,nf); }
}
static RadauOpt opt(int k){ RadauOpt o; switch(k){ case 0: break; case 1: o.at={1e-3};o.rt={1e-3}; break; case 2: o.nit=3; o.at={1e-4};o.rt={1e-4}; break; case 3: o.gus=false; o.thet=0.05; o.at={1e-4};o.rt={1e-4}; break; case 4: o.safe=0.6; o.thet=-1; o.at={1e-5};o.rt={1e-3}; break; case 5: o.nit=2; o.fnewt=0.02; o.at={1e-3};o.rt={1e-3}; o.thet=0.3; break;
  case 6: o.facr=0.5; o.facl=2; o.at={1e-4};o.rt={1e-4}; break; case 7: o.nit=10; o.fnewt=1e-4; o.thet=0.2; o.at={1e-4};o.rt={1e-4}; break; case 8: o.nmax=15; break; case 9: o.nit=1; o.fnewt=0.03; o.at={1e-3};o.rt={1e-3}; break; } return o; }
#ifndef NPROB
#define NPROB 5
#endif
static void body(){
  Cfg c; c.prob=mc::choose(NPROB,"problem"); int ok=mc::choose(10,"options"); c.o=opt(ok); 
  int jm=mc::choose(3,"jacobian/layout"); c.numj=jm==1; c.layout=jm==2; if(c.layout&&Base::dim(c.prob)==1) mc::skip();
  int dir=mc::choose(2,"direction"); c.x0= dir? 1.0: 0.0; c.xe= dir? -0.5: 2.0; if(dir&&(c.prob==2||c.prob==3)) { c.xe=0.7; }
  if(c.prob==2) c.xe= dir?0.95:1.0;
  int hk=mc::choose(mc::thorough()?3:2,"h0"); c.h0= hk==0? 0.05: hk==1? 1e-4: 10;
  DevEnv e(c.prob);
#if PART==24
  c.again=mc::choose(2,"call"); int K=mc::thorough()?30:9;
#else
  int K=mc::thorough()?40:26;
#endif
  if(!(jm==0||(jm==1&&ok<2)||(jm==2&&ok==1))) mc::skip();
  if(hk==1&&ok!=0&&ok!=3&&!mc::thorough()) mc::skip();
  int nd=(ok<2||mc::thorough())&&jm==0&&hk==0?2:1;
  // no NaN here: what the Newton iteration does with one before it gives up is not documented (C08 and C09 judge the outcome)
  choose_devs(e,nd,K,{0,1,2,3,10,15},4,{100,101,102,103,110,113,114});
  World w; W()=&w; w.env=&e; w.horizon=20000;
  vector<double> y(e.n); e.b.start(y.data()); vector<double> yin=y; double x=c.x0; bool threw; int cnt[6]; double hl,hf; long nf;
  mc::describe(mc::fmt("problem %d options %d jac/layout %d x0=%g xend=%g h0=%g%s",c.prob,ok,jm,c.x0,c.xe,c.h0,e.str().c_str()));
  bool inf=false; try{ dispatch(c,w,y,x,threw,cnt,hl,hf,nf); }catch(Horizon&){ inf=true; }
  mc::step((long)w.tr.size());
  DevEnv e2(c.prob); e2.d=e.d; World w2; w2.env=&e2; w2.horizon=20000;
  RadauRef R(e.n,c.numj,e.n-1,e.n-1,c.o,&w2); bool inf2=false; try{ R.run(c.h0,c.x0,c.xe,yin.data()); }catch(Horizon&){ inf2=true; }
  size_t lim= R.ambiguous>=0? (size_t)R.ambiguous : w2.tr.size(); bool whole=R.ambiguous<0;
  if(!whole) mc::count("runs cut at an ambiguous decision");
  mc::count("rejected steps",R.nrejct); mc::count("accepted steps",R.naccpt); if(threw) mc::count("runs that throw"); mc::count("newton failures and rejections before the first step",R.nstep-R.nrejct-R.naccpt);
  // compare call by call
  double sc=0;
  size_t cap=3000; for(auto&q:e.d) if(q.kind%100>=10&&c.prob==2) cap=90; // a wrong Jacobian of a stiff problem makes the run itself chaotic
  if(w2.tr.size()>cap) whole=false;
  for(size_t k=0;k<lim&&k<w2.tr.size()&&k<cap;k++){
    CONF(k<w.tr.size(),"conformance:stopped-early","the solver made %zu calls, the model's call #%zu is %c(t=%.12g)",w.tr.size(),k,w2.tr[k].k,w2.tr[k].t);
    auto&a=w.tr[k]; auto&b=w2.tr[k]; for(double v:b.y) sc=max(sc,fabs(v)); if(!(sc<1e6)){ whole=false; mc::count("runs cut at overflow"); break; } double grow=1+k/300.0, tol=grow*(c.numj?1e-4:4e-6)*(1e-3+sc), tt=grow*(c.numj?4e-5:1e-6)*(fabs(b.t-c.x0))+1e-11;
    bool same=a.k==b.k && fabs(a.t-b.t)<=tt; for(size_t i=0;i<b.y.size()&&same;i++) if(!(fabs(a.y[i]-b.y[i])<=tol)&&!(std::isnan(a.y[i])&&std::isnan(b.y[i]))) same=false;
    { double m=fabs(a.t-b.t)/tt; for(size_t i=0;i<b.y.size();i++) m=max(m,fabs(a.y[i]-b.y[i])/tol); if(m>0.1) mc::count("comparisons above a tenth of the tolerance"); if(m>0.5) mc::count("comparisons above half of the tolerance"); }
    if(k<400||!same){ uint64_t h=1; h=mc::hr(h,a.t); for(double v:a.y) h=mc::mix(h,(uint64_t)llround(v*1e4)); mc::gstate(mc::mix(h,c.prob*10+ok)); }
    CONF(same,"conformance:call","call #%zu: solver %c(t=%.12g, y0=%.12g), model %c(t=%.12g, y0=%.12g)",k,a.k,a.t,a.y[0],b.k,b.t,b.y[0]);
  }
  mc::validated();
  if(whole){
    CONF(inf==inf2,"conformance:never-stops","the solver %s, the model %s",inf?"exceeds 20000 calls":"stops",inf2?"does not":"does");
    if(inf) return;
    CONF(threw==R.threw,"conformance:exception","solver %s, model %s",threw?"throws":"returns",R.threw?"throws":"returns");
    if(!threw){
      CONF(w.tr.size()==w2.tr.size(),"conformance:extra-calls","solver made %zu calls, model %zu",w.tr.size(),w2.tr.size());
      double ysc=0; for(int i=0;i<e.n;i++) ysc=max(ysc,fabs((double)R.Y[i]));
      for(int i=0;i<e.n;i++) CONF(fabs(y[i]-(double)R.Y[i])<=(1+w.tr.size()/300.0)*(c.numj?1e-4:1e-5)*(1e-3+sc),"conformance:result","component %d: %.12g, model %.12Lg",i,y[i],R.Y[i]);
      CONF(fabs(x-R.x)<=1e-9,"conformance:time","final time %.17g, model %.17g",x,R.x);
      CONF(fabs(hl-(double)R.h)<=(1e-3+2e-6*w.tr.size())*fabs((double)R.h),"conformance:last-step","step size reported at the end %.12g, model %.12Lg",hl,R.h);
      CONF(fabs(hf-(double)R.first)<=1e-3*fabs((double)R.first),"conformance:first-accepted","first accepted step reported %.12g, model %.12Lg",hf,R.first);
    }
    MC_REQUIRE(cnt[0]==R.nstep&&cnt[1]==R.naccpt&&cnt[2]==R.nrejct&&cnt[3]==R.njac&&cnt[4]==R.ndec,"conformance:counters","steps/accepted/rejected/jacobians/decompositions %d/%d/%d/%d/%d, model %d/%d/%d/%d/%d",cnt[0],cnt[1],cnt[2],cnt[3],cnt[4],R.nstep,R.naccpt,R.nrejct,R.njac,R.ndec);
#if PART==24
    if(lapackcount::R) MC_REQUIRE(lapackcount::R==cnt[4]&&lapackcount::C==cnt[4],"conformance:counters","%d factorizations reported, %ld real and %ld complex ones made",cnt[4],lapackcount::R,lapackcount::C);
    if(!c.numj&&!threw) MC_REQUIRE(cnt[3]==w.nJ,"conformance:counters","%d Jacobians reported, %ld computed",cnt[3],w.nJ);
#endif
    if(!threw) MC_REQUIRE(nf==(long)w.nF,"conformance:fcount","reported %ld right-hand-side evaluations, observed %ld",nf,w.nF);
  }
  uint64_t h=2; h=mc::mix(h,R.nstep);h=mc::mix(h,R.naccpt);h=mc::mix(h,R.nrejct);h=mc::mix(h,R.njac);h=mc::mix(h,R.ndec);h=mc::mix(h,threw); mc::outcome(h);
  if(mc::G().samples.size()<2&&e.d.size()) mc::sample(mc::G().desc+mc::fmt(" -> %d steps, %d accepted, %d rejected, %d decompositions",cnt[0],cnt[1],cnt[2],cnt[4]));
}
int main(int c,char**v){ return mc::run(c,v,body); }
