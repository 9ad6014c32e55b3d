// C25: every setting takes effect, stays in force, and single-step mode advances by exactly one step. METHOD 0: Radau5, 1..3: Rodas.
// Oracle: the independent model run with the settings in force. Problems whose undisturbed default run does not conform to the
// default model are left to C29/C12.
#if METHOD
#define USE_RODAS
#else
#define USE_RADAU
#endif
#include "dev.hpp"
#if METHOD
#include "rodas_ref.hpp"
typedef RodasOpt Opt; typedef RodasRef Ref; template<class PR> using Solver=odes::Rodascc<PR>;
#else
#include "radau_ref.hpp"
typedef RadauOpt Opt; typedef RadauRef Ref; template<class PR> using Solver=odes::Radau5cc<PR>;
#endif
using namespace std;
// settings: what a setter call with its k-th value does
enum { TOL, SAFE, GUS, NMAX,
#if !METHOD
  THET, NIT, FAC, FNEWT,
#endif
  NOPT };
static const int NV=2;
static const char*NM[]={"tolerances","safety","predictive control","step limit","Jacobian reuse","Newton limit","growth limits","Newton tolerance"};
template<class S> static void apply(S*R,Opt&o,int k,int v,int n){ // R may be null: only the description of the settings in force changes
  switch(k){
  case TOL: if(v==0){ o.same=true; o.at={1e-3}; o.rt={1e-4}; } else { o.same=false; o.at={1e-5,1e-3}; o.rt={1e-3,1e-5}; }
#if !METHOD
    o.fnewt=0; // the default Newton tolerance depends on the tolerances and is renewed with them
#endif
    { double a[2]={o.at[0],o.at.size()>1?o.at[1]:0},r[2]={o.rt[0],o.rt.size()>1?o.rt[1]:0}; if(R) R->setTestPolicy(o.same,a,r); a[0]=a[1]=r[0]=r[1]=1; } break;
  case SAFE: o.safe=v?0.97:0.55; if(R) R->setSafe(o.safe); break; case GUS: o.gus=v; if(R) R->setGustafssonTest(o.gus); break; case NMAX: o.nmax=v?9:400; if(R) R->setNmax(o.nmax); break;
#if !METHOD
  case THET: o.thet=v?-1:0.3; if(R) R->setRecomputeJacobianTreshold(o.thet); break; case NIT: o.nit=v?12:3; if(R) R->setMaxIterationsNewton(o.nit); break; case FAC: if(v){ o.facr=0.5; o.facl=2; } else { o.facr=0.05; o.facl=10; } if(R) R->setFacrFacl(o.facr,o.facl); break; case FNEWT: o.fnewt=v?1e-3:0.05; if(R) R->setFnewt(o.fnewt); break;
#endif
  } }
static Opt defaults(){ Opt o; o.at={1e-5}; o.rt={1e-5}; return o; }
struct Run { bool threw=false,inf=false; double x; vector<double> y; vector<Rec> tr; int acc=0; double hf=0; };
static Run model(int prob,const Opt&o,double h0,double x0,double xe,const vector<double>&y0,Ref*&R,World&w){ Base*e=new Base; e->kind=prob; e->n=Base::dim(prob); w.env=e; w.horizon=20000; bool aut=prob==0||prob==1||prob==3; (void)aut; Run r;
#if METHOD
  R=new Ref(e->n,METHOD,false,aut,true,e->n-1,e->n-1,o,&w);
#else
  R=new Ref(e->n,false,e->n-1,e->n-1,o,&w);
#endif
  try{ R->run(h0,x0,xe,y0.data()); }catch(Horizon&){ r.inf=true; } r.threw=R->threw; r.x=R->x; for(auto v:R->Y) r.y.push_back((double)v); r.tr=w.tr; r.acc=R->naccpt; r.hf=(double)R->first; delete e; return r; }
// empty string: conforms (up to the first decision too close to call)
static string conform(const Run&a,const Run&b,Ref&M,double x0,bool&whole){ whole=M.ambiguous<0; size_t lim=whole?b.tr.size():(size_t)M.ambiguous; double sc=0;
  for(size_t k=0;k<lim&&k<b.tr.size();k++){ if(k>=a.tr.size()) return mc::fmt("the solver made %zu calls, the model's call #%zu is %c(t=%.12g)",a.tr.size(),k,b.tr[k].k,b.tr[k].t); auto&p=a.tr[k];auto&q=b.tr[k]; for(double v:q.y) sc=max(sc,std::isnan(v)?INFINITY:fabs(v)); if(!(sc<1e5)){ whole=false; return ""; } mc::count("calls compared"); double grow=1+k/300.0,tol=grow*4e-6*(1e-3+sc); bool same=p.k==q.k&&fabs(p.t-q.t)<=grow*1e-6*fabs(q.t-x0)+1e-11; for(size_t i=0;i<q.y.size()&&same;i++) if(!(fabs(p.y[i]-q.y[i])<=tol)) same=false; if(!same) return mc::fmt("call #%zu: solver %c(t=%.12g, y0=%.12g), model %c(t=%.12g, y0=%.12g)",k,p.k,p.t,p.y[0],q.k,q.t,q.y[0]); }
  if(whole){ if(a.inf||b.inf) return a.inf==b.inf?"":"only one of solver and model stops"; if(a.threw!=b.threw) return a.threw?"the solver throws, the model does not":"the model throws, the solver does not"; if(a.tr.size()!=b.tr.size()) return mc::fmt("the solver made %zu calls, the model %zu",a.tr.size(),b.tr.size()); if(!(fabs(a.x-b.x)<=1e-6*fabs(b.x-x0)+1e-12)) return mc::fmt("time %.15g, model %.15g",a.x,b.x); for(size_t i=0;i<a.y.size();i++) if(!(fabs(a.y[i]-b.y[i])<=(1+a.tr.size()/300.0)*1e-5*(1e-3+sc))) return mc::fmt("component %zu: %.12g, model %.12g",i,a.y[i],b.y[i]); if(a.acc!=b.acc) return mc::fmt("%d accepted steps, model %d",a.acc,b.acc); if(b.acc&&!(fabs(a.hf-b.hf)<=1e-3*fabs(b.hf))) return mc::fmt("first accepted step reported %.12g, model %.12g",a.hf,b.hf); }
  return ""; }
template<class PR> static Run go(Solver<PR>&R,World&w,double h0,double x0,double xe,const vector<double>&y0){ Run r; Base e; e.kind=((Base*)w.env)->kind; w.reset(); r.x=x0; r.y=y0; try{ R(h0,r.x,xe,r.y.data()); }catch(odes::OdesException&){ r.threw=true; }catch(Horizon&){ r.inf=true; } r.tr=w.tr; r.acc=R.getNaccpt(); r.hf=r.acc?R.getfirstAcceptedStep():0; mc::step((long)w.tr.size()); return r; }
static map<int,bool> okdef; // problem*2+direction
template<int N> static void doit(int prob){
  const bool aut=false;
#if METHOD
  typedef P<N,N-1,N-1,false,false,aut,true,METHOD> PRn; typedef P<N,N-1,N-1,false,false,true,false,METHOD> PRa;
#else
  typedef P<N,N-1,N-1,false,false> PRn; typedef PRn PRa;
#endif
  (void)aut; extern void dummy(); (void)sizeof(PRa);
  int dir=mc::choose(2,"direction"); double x0=dir?1.0:0.0,xe=dir?-0.5:2.0; if(dir&&(prob==2||prob==3)) xe=0.7; if(prob==2) xe=dir?0.95:1.0;
  int mode=mc::choose(4,"mode"); Base e; e.kind=prob; e.n=N; vector<double> y0(N); e.start(y0.data()); World w; W()=&w; w.env=&e; w.horizon=20000;
  auto body=[&](auto tag){ typedef decltype(tag) PR; Opt d=defaults(); double at[2]={1e-5,1e-5},rt[2]={1e-5,1e-5};
    auto check=[&](Solver<PR>&R,const Opt&o,double h0,double a,double b,const vector<double>&y,const char*when,Run*out=nullptr){ Run r=go<PR>(R,w,h0,a,b,y); if(out) *out=r; Run m; Ref*M; World w2; m=model(prob,o,h0,a,b,y,M,w2); bool whole; string s=conform(r,m,*M,a,whole); if(!whole) mc::count("runs cut at an ambiguous decision"); delete M; W()=&w; MC_REQUIRE(s.empty(),string(when).find("second")!=string::npos?"setting-lost":"setting-ignored","%s: %s",when,s.c_str()); mc::count("calls made",r.tr.size()); mc::validated(); uint64_t h=1; for(auto&q:r.tr) h=mc::hr(h,q.t); mc::gstate(h); mc::outcome(mc::mix(h,r.threw)); return whole; };
    { int key=prob*2+dir; if(!okdef.count(key)){ Solver<PR> R(true,at,rt); Run r=go<PR>(R,w,0.05,x0,xe,y0); Ref*M; World w2; Run m=model(prob,d,0.05,x0,xe,y0,M,w2); bool whole; okdef[key]=conform(r,m,*M,x0,whole).empty(); delete M; W()=&w; } if(!okdef[key]) mc::skip(); }
    Solver<PR> R(true,at,rt); Opt o=d; string ds; auto set=[&](int k,int v){ apply(&R,o,k,v,N); ds+=mc::fmt(" %s:%d",NM[k],v); };
    if(mode==0){ // every subset of settings, each with either value
      for(int k=0;k<NOPT;k++){ int c=mc::choose(NV+1,NM[k]); if(c) set(k,c-1); if(k==4) mc::shard(); } mc::shard(); double h0=mc::choose(2,"h0")?0.7:0.05; mc::describe(mc::fmt("method %d problem %d [%g,%g] h0=%g settings:%s",METHOD,prob,x0,xe,h0,ds.c_str())); check(R,o,h0,x0,xe,y0,"first integration"); if(mc::choose(2,"again")) check(R,o,0.05,x0,xe,y0,"second integration"); }
    else if(mode==1){ // settings called in any order, before and between integrations
      auto seq=[&](int L){ for(int q=0;q<L;q++){ int c=mc::choose(NOPT*NV+1,"setting"); if(c==0) break; set((c-1)/NV,(c-1)%NV); } }; seq(2); mc::shard(); mc::describe(mc::fmt("method %d problem %d [%g,%g] settings:%s",METHOD,prob,x0,xe,ds.c_str())); check(R,o,0.05,x0,xe,y0,"first integration"); ds+=", then"; seq(mc::thorough()?2:1); mc::describe(mc::fmt("method %d problem %d [%g,%g] settings:%s",METHOD,prob,x0,xe,ds.c_str())); check(R,o,0.3,x0,xe,y0,"second integration"); if(mc::choose(2,"third")) check(R,o,0.05,x0,xe,y0,"second integration after the second"); }
    else if(mode==2){ // single steps
      for(int k=0;k<NOPT;k++) if(k!=NMAX){ int c=mc::choose(k==TOL||mc::thorough()?NV+1:2,NM[k]); if(c) set(k,c-1); } mc::shard(); double h0=mc::choose(2,"h0")?0.7:0.05; mc::describe(mc::fmt("method %d problem %d [%g,%g] h0=%g single steps, settings:%s",METHOD,prob,x0,xe,h0,ds.c_str())); R.performOnlyOneStep(true); o.single=true; double x=x0,h=h0; vector<double> y=y0; int k=0,pol=mc::choose(2,"next step size"); bool amb=false;
      for(;x!=xe&&k<20000;k++){ if(k<60&&!amb){ Run r; bool wh=check(R,o,h,x,xe,y,k?"a single step after others":"a single step",&r); (void)wh; if(r.threw||r.inf) return; MC_REQUIRE(r.acc==1,"single-step","%d accepted steps reported by a single step",r.acc); MC_REQUIRE(r.x!=x&&(r.x-x)*(xe-x)>0&&(xe-r.x)*(xe-x)>=0,"single-step","the time goes from %.17g to %.17g",x,r.x); MC_REQUIRE(fabs(r.x-x-r.hf)<=1e-15*(fabs(x)+fabs(r.x))+1e-12*fabs(r.hf),"single-step","the time advances by %.17g, the reported step is %.17g",r.x-x,r.hf); bool ch=false; for(int i=0;i<N;i++) if(r.y[i]!=y[i]) ch=true; MC_REQUIRE(ch,"single-step","the time advances, the solution does not"); x=r.x; y=r.y; h=pol?r.hf*1.5:h0; }
        else { double xo=x; World&ww=w; ww.reset(); R(h,x,xe,y.data()); MC_REQUIRE(R.getNaccpt()==1&&(x-xo)*(xe-x0)>0,"single-step","no step"); h=pol?R.getfirstAcceptedStep()*1.5:h0; } }
      MC_REQUIRE(x==xe,"single-step","the end is not reached in %d single steps",k); R.performOnlyOneStep(false); o.single=false; check(R,o,0.05,x0,xe,y0,"second integration, single-step mode off"); }
    else { // single-step mode switched on and off at any place of a sequence
      for(int k=0;k<4;k++){ int op=mc::choose(5,"operation"); if(k==1) mc::shard(); if(op==0) break; if(op==1){ R.performOnlyOneStep(true); o.single=true; ds+=" on"; } else if(op==2){ R.performOnlyOneStep(false); o.single=false; ds+=" off"; } else if(op==3){ set(SAFE,0); } else { mc::describe(mc::fmt("method %d problem %d [%g,%g]%s",METHOD,prob,x0,xe,ds.c_str())); check(R,o,0.05,x0,xe,y0,k?"second integration":"first integration"); ds+=" run"; } } mc::shard(); mc::describe(mc::fmt("method %d problem %d [%g,%g]%s",METHOD,prob,x0,xe,ds.c_str())); check(R,o,0.3,x0,xe,y0,"second integration"); }
    if(ds.size()>40) mc::sample(mc::G().desc);
  };
#if METHOD
  if(prob==0||prob==1||prob==3) body(PRa()); else body(PRn());
#else
  body(PRn());
#endif
}
static void body(){ int prob=mc::choose(5,"problem"); if(Base::dim(prob)==1) doit<1>(prob); else doit<2>(prob); }
int main(int c,char**v){ return mc::run(c,v,body); }
