// C11: the error test uses exactly the tolerances given, component by component. METHOD 0: Radau5, 1..3: Rodas.
// Oracle: the independent model run with the tolerances in force; a vector of equal tolerances must give the scalar run bit for bit.
#if METHOD
#define USE_RODAS
#else
#define USE_RADAU
#endif
#include "ode.hpp"
#include "envs.hpp"
#if METHOD
#include "rodas_ref.hpp"
typedef RodasOpt Opt; typedef RodasRef Ref; template<class PR> using Solver=odes::Rodascc<PR>;
#else
#include "radau_ref.hpp"
typedef RadauOpt Opt; typedef RadauRef Ref; template<class PR> using Solver=odes::Radau5cc<PR>;
#endif
using namespace std;
static const double AT[4]={1e-3,1e-6,1e-8,1e-4},RT[4]={1e-4,1e-3,1e-6,1e-4}; static const double Y0[4]={0.4,1.3,0.7,0.2};
struct Run { bool threw=false; double x; vector<double> y; vector<Rec> tr; int acc=0; bool operator==(const Run&o)const{ auto df=[](const vector<double>&a,const vector<double>&b){ return a.size()!=b.size()||memcmp(a.data(),b.data(),8*a.size()); }; if(threw!=o.threw||memcmp(&x,&o.x,8)||df(y,o.y)||tr.size()!=o.tr.size()) return false; for(size_t i=0;i<tr.size();i++) if(tr[i].k!=o.tr[i].k||memcmp(&tr[i].t,&o.tr[i].t,8)||df(tr[i].y,o.tr[i].y)) return false; return true; } };
// arrays of exactly as many entries as the call may read; wiped and released right after it
struct Arr { double*p; Arr(const vector<double>&v){ p=new double[v.size()]; for(size_t i=0;i<v.size();i++) p[i]=v[i]; m=v.size(); } size_t m; ~Arr(){ for(size_t i=0;i<m;i++) p[i]=1e300; delete[] p; } };
static string conform(const Run&a,const vector<Rec>&b,Ref&M,double x0,bool&whole){ whole=M.ambiguous<0; size_t lim=whole?b.size():(size_t)M.ambiguous; double sc=0;
  for(size_t k=0;k<lim&&k<b.size()&&k<4000;k++){ if(k>=a.tr.size()) return mc::fmt("the solver made %zu calls, the model's call #%zu is %c(t=%.12g)",a.tr.size(),k,b[k].k,b[k].t); auto&p=a.tr[k];auto&q=b[k]; for(double v:q.y) sc=max(sc,std::isnan(v)?INFINITY:fabs(v)); if(!(sc<1e5)){ whole=false; return ""; } double grow=1+k/300.0,tol=grow*4e-6*(1e-3+sc); bool same=p.k==q.k&&fabs(p.t-q.t)<=grow*1e-6*fabs(q.t-x0)+1e-11; for(size_t i=0;i<q.y.size()&&same;i++) if(!(fabs(p.y[i]-q.y[i])<=tol)) same=false; if(!same) return mc::fmt("call #%zu: solver %c(t=%.12g, y0=%.12g), model %c(t=%.12g, y0=%.12g)",k,p.k,p.t,p.y[0],q.k,q.t,q.y[0]); mc::count("calls compared"); }
  if(whole){ if(a.threw!=M.threw) return a.threw?"the solver throws, the model does not":"the model throws, the solver does not"; if(a.tr.size()!=b.size()) return mc::fmt("the solver made %zu calls, the model %zu",a.tr.size(),b.size()); if(a.acc!=M.naccpt) return mc::fmt("%d accepted steps, model %d",a.acc,M.naccpt); }
  return ""; }
template<int N,int SUB,int SUP,bool HS> static void doit(const char*lay){
  typedef P<N,SUB,SUP,HS,false,false,true,METHOD> PR; NonEnv e; e.n=N; e.full=SUB==N-1&&SUP==N-1&&N>2; e.kind=mc::choose(3,"problem"); int dir=mc::choose(2,"direction"); double x0=dir?0.6:0,xe=dir?(e.kind==1?0.57:0.4):0.8; double h0=mc::choose(2,"h0")?0.3:0.01;
  World w; W()=&w; w.env=&e; w.horizon=100000; mc::shard();
  auto model=[&](const Opt&o,double a,double b,const vector<double>&y,World&w2)->Ref*{ w2.env=&e; w2.horizon=100000;
#if METHOD
    Ref*R=new Ref(N,METHOD,false,false,true,SUB,SUP,o,&w2);
#else
    Ref*R=new Ref(N,false,SUB,SUP,o,&w2);
#endif
    R->run(h0,a,b,y.data()); return R; };
  auto go=[&](Solver<PR>&R,double a,double b){ Run r; w.reset(); r.x=a; r.y.assign(Y0,Y0+N); try{ R(h0,r.x,b,r.y.data()); }catch(odes::OdesException&){ r.threw=true; } r.tr=w.tr; r.acc=R.getNaccpt(); mc::step((long)w.tr.size()); return r; };
  auto check=[&](const Run&r,const Opt&o,double a,double b,const char*when){ World w2; unique_ptr<Ref> M(model(o,a,b,vector<double>(Y0,Y0+N),w2)); bool whole; string s=conform(r,w2.tr,*M,a,whole); if(!whole) mc::count("runs cut at an ambiguous decision"); mc::validated(); uint64_t h=1; for(auto&q:r.tr) h=mc::hr(h,q.t); mc::gstate(h); mc::outcome(h); return s.empty()?s:string(when)+": "+s; };
  static map<string,bool> ok; { string key=mc::fmt("%s %d %d %g",lay,e.kind,dir,h0); if(!ok.count(key)){ bool good=true; for(int k=0;k<3;k++){ Opt o; o.at={AT[k]}; o.rt={RT[k]}; Arr a(o.at),r(o.rt); Solver<PR> R(true,a.p,r.p); Run q=go(R,x0,xe); if(!check(q,o,x0,xe,"").empty()) good=false; } ok[key]=good; } if(!ok[key]) { mc::count("cut: the scalar run already differs from the model (C12, C29)"); mc::skip(); } }
  int how=mc::choose(5,"how"); // 0 vector in the constructor, 1 by setTestPolicy, 2 scalar, 3 vector then another vector between integrations, 4 vector then scalar
  Opt o; string ds; vector<int> v; if(how!=2){ o.same=false; o.at.clear(); o.rt.clear(); for(int i=0;i<N;i++){ int k=mc::choose(i<3?3:2,"tolerance"); v.push_back(k); o.at.push_back(AT[k]); o.rt.push_back(RT[k]); ds+=mc::fmt(" %d",k); } } else { int k=mc::choose(4,"tolerance"); o.at={AT[k]}; o.rt={RT[k]}; ds+=mc::fmt(" %d",k); }
  static const char*HW[5]={"vector in the constructor","vector set later","scalar","another vector between two integrations","scalar after vector"}; mc::describe(mc::fmt("%s%d %s problem %d [%g,%g] h0=%g, %s, tolerances%s",METHOD?"rodas":"radau",METHOD,lay,e.kind,x0,xe,h0,HW[how],ds.c_str()));
  unique_ptr<Solver<PR>> R;
  if(how==0||how==2||how==4){ Arr a(o.at),r(o.rt); R.reset(new Solver<PR>(o.same,a.p,r.p)); } else { vector<double> a1(how==3?N:1),r1(how==3?N:1); for(size_t i=0;i<a1.size();i++){ a1[i]=AT[(i+1)%4]; r1[i]=RT[(i+2)%4]; } Arr a(a1),r(r1); R.reset(new Solver<PR>(how!=3,a.p,r.p)); if(how==1){ Arr a(o.at),r(o.rt); R->setTestPolicy(o.same,a.p,r.p); } else { Opt q; q.same=false; q.at=a1; q.rt=r1; Run f=go(*R,x0,xe); string s=check(f,q,x0,xe,"first integration"); MC_REQUIRE(s.empty(),"tolerances","%s",s.c_str()); Arr a(o.at),r(o.rt); R->setTestPolicy(o.same,a.p,r.p); } }
  Run r=go(*R,x0,xe); string s=check(r,o,x0,xe,how==3?"after the change":"first integration"); MC_REQUIRE(s.empty(),"tolerances","%s",s.c_str());
  if(how==4){ Opt q; q.at={AT[1]}; q.rt={RT[3]}; { Arr a(q.at),b(q.rt); R->setTestPolicy(true,a.p,b.p); } Run f=go(*R,x0,xe); s=check(f,q,x0,xe,"after the change to scalar tolerances"); MC_REQUIRE(s.empty(),"tolerances","%s",s.c_str()); }
  else { Run f=go(*R,x0,xe); MC_REQUIRE(f==r,"tolerances","a second integration with the same tolerances differs"); }
  // a vector of equal tolerances is the scalar tolerance
  if(how<=1){ bool eq=true; for(int k:v) eq=eq&&k==v[0]; if(eq){ Arr a({o.at[0]}),b({o.rt[0]}); Solver<PR> S(true,a.p,b.p); Run f=go(S,x0,xe); MC_REQUIRE(f==r,"vector-scalar","equal vector and scalar tolerances give different runs"); } }
  if(how==3&&N>2) mc::sample(mc::G().desc);
}
int main(int c,char**v){ return mc::run(c,v,[]{ switch(mc::choose(6,"layout")){ case 0: doit<1,0,0,false>("n=1"); break; case 1: doit<2,1,1,false>("n=2"); break; case 2: doit<3,2,2,false>("n=3"); break; case 3: doit<4,1,1,false>("n=4 banded"); break; case 4: doit<4,3,3,false>("n=4"); break; default: doit<3,2,2,true>("n=3 hessenberg"); } }); }
