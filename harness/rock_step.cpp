// C16: one Rock4 step, for every number of stages the solver can choose: order conditions, stability, error estimate.
#include "rockenv.hpp"
#include "Rock4.hpp"
using namespace std;
struct Tree { vector<int> kids; int order; LD gamma; };
static vector<Tree> trees(int maxorder){ vector<Tree> T; T.push_back({{},1,1}); for(int o=2;o<=maxorder;o++){ int have=(int)T.size(); vector<vector<int>> out; vector<int> cur; std::function<void(int,int)> rec=[&](int s,int left){ if(!left){ out.push_back(cur); return; } for(int k=s;k<have;k++) if(T[k].order<=left){ cur.push_back(k); rec(k,left-T[k].order); cur.pop_back(); } }; rec(0,o-1); for(auto&m:out){ Tree t; t.kids=m; t.order=o; t.gamma=o; for(int k:m) t.gamma*=T[k].gamma; T.push_back(t); } } return T; }
// the largest spectral radius times step for which the solver settles for m stages, and the middle of that range
static double ztop(int m){ return 0.353*m*(double)m-3; }
// the published coefficients leave amplifications up to 1.008 near z=-8.4 for the two largest degrees, and stability of degree 63 ends 2e-5 early
static double zmid(int m){ return m==5? 0.0: 0.353*(m-0.5)*(m-0.5)-3; }
struct TEnv: REnv { vector<Tree> T; double eig=0; vector<int> pm; double sc=1;
  void f(const double*y,double*r)override{ for(int k=0;k<(int)T.size();k++){ double p=1; for(int c:T[k].kids) p*=y[pm[c]]; r[pm[k]]=p; } } double rho()override{ return eig; } };
struct LEnv: REnv { vector<double> lam; double eig=0; int rot=0; void f(const double*y,double*r)override{ for(int i=0;i<n;i++) r[i]=lam[i]*y[i]; } double rho()override{ return eig; } };
struct Out { vector<double> y; int steps,rej,stages,fc; long nf; bool threw=false; };
static Out drive(REnv&e,const vector<double>&y0,double t0,double te,double h0,double at,double rt){
  RWorld w; w.env=&e; w.record=false; RProb P(&w); odes::Rock4<RProb> R(P); R.setTolerances(at,rt); double*y=odes::allocDoubleArray(e.n); copy(y0.begin(),y0.end(),y); Out o;
  try{ R(y,t0,te,h0); }catch(odes::OdesException&){ o.threw=true; } o.y.assign(y,y+e.n); odes::destroyDoubleArray(y); o.steps=R.NbSteps(); o.rej=R.NbRejected(); o.stages=R.NbStages(); o.fc=R.NbRhsComputed(); o.nf=w.nF; mc::step(w.nF); return o; }
static void body(){
  int part=mc::choose(4,"part"); int m=5+mc::choose(148,"stages"); mc::shard();
  static const double HH[4]={1,0.1,1e-3,30}; static const double T0[3]={0,5,-2}; double t0=T0[mc::choose(3,"start")];
  if(part==0){ // order conditions
    TEnv e; e.T=trees(4); e.n=(int)e.T.size(); double H=HH[mc::choose(4,"h")]; int rev=mc::choose(2,"components reversed"); e.pm.resize(e.n); for(int k=0;k<e.n;k++) e.pm[k]=rev?e.n-1-k:k; double te=t0+H; double h=te-t0; int edge=mc::choose(2,"spectral radius"); e.eig=(edge? ztop(m)*(1-1e-9): zmid(m))/h;
    mc::describe(mc::fmt("%d stages, order conditions, h=%g t0=%g",m,H,t0)); Out o=drive(e,vector<double>(e.n,0),t0,te,h,1e60,0);
    MC_REQUIRE(!o.threw&&o.steps==1,"one-step","%d steps, %s",o.steps,o.threw?"exception":"no exception");
    MC_REQUIRE(o.stages>=m&&o.stages<=m+20&&o.nf>=o.stages,"stages","%d stages used, %d are needed",o.stages,m); // at least as many as needed
    for(int k=0;k<e.n;k++){ LD ex=powl(h,e.T[k].order)/e.T[k].gamma; LD d=fabsl(o.y[e.pm[k]]-ex)/ex; mc::countmax("max defect of an order condition, x1e15",1e15*(double)d); MC_REQUIRE(d<2e-11L,"order-condition","tree %d (order %d): %.15g instead of %.15Lg",k,e.T[k].order,o.y[e.pm[k]],ex); mc::eval(); }
    uint64_t q=o.stages; for(int k=0;k<e.n;k++) q=mc::hr(q,o.y[k]); mc::gstate(q); mc::outcome(o.stages);
  } else if(part==1){ // stability on the whole interval announced
    LEnv e; int NG=mc::thorough()?40000:6000; double H=HH[mc::choose(3,"h")]; double te=t0+H,h=te-t0; int edge=mc::choose(2,"spectral radius"); double z=edge? ztop(m)*(1-5e-5): zmid(m); if(z==0) z=0.353*16-3; e.eig=z/h; if(m==5&&!edge) e.eig=0;
    int half=NG/2; for(int i=0;i<=half;i++) e.lam.push_back(-z*i/half/h); for(int i=0;i<=half;i++) e.lam.push_back(-z*0.5*(1-cos(M_PI*i/half))/h); e.n=(int)e.lam.size();
    mc::describe(mc::fmt("%d stages, stability up to z=%g, h=%g",m,z,H)); Out o=drive(e,vector<double>(e.n,1),t0,te,h,1e60,0); MC_REQUIRE(!o.threw&&o.steps==1,"one-step","%d steps, %s",o.steps,o.threw?"exception":"no exception");
    double worst=0; for(int i=0;i<e.n;i++){ double v=fabs(o.y[i]); if(!(v<=1.01)) mc::fail("unstable",mc::fmt("amplification %.12g at z=-%.9g with %d stages",v,-e.lam[i]*h,o.stages)); if(i>e.n/50&&v>worst) worst=v; // and the exponential near the origin
      double zz=e.lam[i]*h; if(fabs(zz)<0.05) MC_REQUIRE(fabs(o.y[i]-exp(zz))<1e-2*pow(fabs(zz),4)*fabs(zz)+1e-12,"not-exponential","z=%g: %.15g instead of %.15g",zz,o.y[i],exp(zz)); }
    mc::eval(e.n); mc::countmax("max amplification away from the origin, x1e6",1e6*worst); uint64_t q=o.stages; for(int i=0;i<e.n;i+=97) q=mc::hr(q,o.y[i]); mc::gstate(q); mc::outcome(1000+o.stages);
  } else if(part==2){ // the estimate vanishes on everything a third order method integrates, and not beyond
    TEnv e; int ord=3+mc::choose(2,"order"); e.T=trees(ord); e.n=(int)e.T.size(); e.pm.resize(e.n); for(int k=0;k<e.n;k++) e.pm[k]=k; double te=t0+1,h=1; e.eig=zmid(m)/h;
    mc::describe(mc::fmt("%d stages, error estimate on trees of order up to %d",m,ord)); Out o=drive(e,vector<double>(e.n,0),t0,te,h,ord==3?1e-9:1e-7,0);
    if(ord==3) MC_REQUIRE(!o.threw&&o.steps==1&&o.rej==0,"estimate-order","a step that a method of order 3 makes exactly is not accepted (%d steps, %d rejected)",o.steps,o.rej);
    else MC_REQUIRE(!o.threw&&o.rej>0,"estimate-blind","a step whose order-4 terms are not integrated by the embedded method is accepted at once");
    mc::gstate(mc::mix(o.stages*10+ord,o.rej)); mc::outcome(2000+o.rej);
  } else { // too stiff for any number of stages: the step is cut
    if(m>5+17) mc::skip(); static const double FA[18]={1.0001,1.01,1.05,1.1,1.2,1.24,1.25,1.26,1.3,1.5,2,3,5,7,10,15,20,30}; double fa=FA[m-5]; double h=HH[mc::choose(3,"h")],te=t0+h; LEnv e; double z=fa*ztop(152); e.eig=z/h; int NG=400; for(int i=0;i<=NG;i++) e.lam.push_back(-z*0.5*(1-cos(M_PI*i/NG))/h); e.n=NG+1;
    mc::describe(mc::fmt("step %g times too long, h=%g",fa,h)); Out o=drive(e,vector<double>(e.n,1),t0,te,h,1e60,0); MC_REQUIRE(!o.threw&&o.rej==0&&o.steps>=fa*0.99,"cut","%d steps, %d rejected",o.steps,o.rej); MC_REQUIRE(o.stages<=152+4,"cut-stages","%d stages",o.stages);
    for(int i=0;i<e.n;i++) MC_REQUIRE(fabs(o.y[i])<=pow(1.01,o.steps),"unstable-cut","amplification %.12g at eigenvalue %g",fabs(o.y[i]),e.lam[i]);
    mc::gstate(mc::mix(7,o.steps)); mc::outcome(3000+o.steps); }
  mc::validated();
}
int main(int c,char**v){ return mc::run(c,v,body); }
