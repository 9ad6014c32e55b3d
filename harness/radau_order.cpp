// C06: one Radau5 step is the three-stage Radau IIA step.
#define USE_RADAU
#include "envs.hpp"
#include "radau_step.hpp"
using namespace std;
static void tolerances(double&a,double&r,double rt,double at){ r=rt; a=at; }

// one committed step of size h from (x0,y0), driven to the given Newton precision
template<class PR> static bool onestep(double h,double x0,vector<double>&y,bool single,double&xout,double fnewt,double&hacc){
  const int n=PR::n; double at[1]={1.0},rt[1]={1.0};
  odes::Radau5cc<PR> R(true,at,rt);
  R.setFnewt(fnewt); R.setMaxIterationsNewton(60); R.performOnlyOneStep(single);
  double x=x0; double xe= single ? x0+3*h : x0+h;
  mc::step();
  R(fabs(h),x,xe,y.data()); xout=x; hacc= single? h : R.getfirstAcceptedStep();
  if(!single && R.getNaccpt()!=1) return false;   // the step was cut by the error control: not a one-step observation
  return true; (void)n; }

static const double HS[4]={0.25,-0.25,0.0625,-1.0};
static const double X0[3]={0.0,2.0,-1.5};

template<class PR> static void trees(int maxorder,const char*lay,int permkind,bool numj){
  auto T=rooted_trees(maxorder); if((int)T.size()!=PR::n) _exit(95);
  TreeEnv e; e.n=PR::n; e.T=T; e.perm.resize(e.n);
  for(int k=0;k<e.n;k++) e.perm[k]= permkind==0? k : permkind==1 ? e.n-1-k : (k*5+2)%e.n;
  e.mode=mc::choose(2,"explicit-time"); double h=HS[mc::choose(3,"h")]; double x0=X0[mc::choose(3,"x0")]; mc::shard();
  e.t0=x0; World w; W()=&w; w.env=&e; w.record=false;
  vector<double> y(e.n,0.0); double x,ha; 
  if(!onestep<PR>(h,x0,y,false,x,1e-13,ha)){ mc::fail("order:no-single-step","a step with a vast tolerance was not accepted at once"); }
  mc::describe(mc::fmt("%s numJ=%d h=%g x0=%g explicit-t=%d",lay,numj,h,x0,e.mode));
  MC_REQUIRE(x==x0+h||fabs(x-(x0+h))<1e-15*(1+fabs(x0)),"order:time","time after the step is %.17g",x);
  uint64_t hs=3; for(double v:y) hs=mc::hr(hs,v);
  mc::state(hs); mc::outcome(hs); mc::validated();
  for(int k=0;k<e.n;k++){ LD ex=powl((LD)h,T[k].order)/T[k].gamma; LD er=fabsl(y[e.perm[k]]-ex);
    MC_CHECK(er<=2e-10L*powl(fabsl((LD)h),T[k].order)+1e-13L,string("order-condition:order")+to_string(T[k].order),"tree #%d (order %d): got %.12g, exact %.12Lg",k,T[k].order,y[e.perm[k]],ex); }
}
// linear systems: stability function, polynomial sources
static CLD Rz(CLD z){ return (CLD(1)+z*0.4L+z*z/20.0L)/(CLD(1)-z*0.6L+z*z*0.15L-z*z*z/60.0L); }
template<class PR> static void lin(const char*lay,bool numj){
  const int n=PR::n; LinEnv e; e.n=n; e.A.assign(n*n,0); e.g.assign(n,{});
  static const double LA[9]={0,-1,-10,-1e3,-1e6,1,-0.3,-1e9,3};
  static const double OM[5]={0,2,50,-1e4,0.5};
  int li=mc::choose(9,"lambda"),oi=mc::choose(n>=2?5:1,"omega"); double h=HS[mc::choose(3,"h")]; double x0=X0[mc::choose(3,"x0")]; mc::shard();
  double lam=h<0? -LA[li]: LA[li], om=OM[oi];
  // pairs (0,1): complex eigenvalue lam +- i om ; the others: lam*(k+1)/2
  for(int k=0;k<n;k++) e.A[k*n+k]= (k<2&&n>=2)?lam:lam*(k+1)/2;
  if(n>=2){ e.A[1]=-om; e.A[n]=om; }
  World w; W()=&w; w.env=&e; w.record=false;
  vector<double> y0(n),y; for(int k=0;k<n;k++) y0[k]=1-0.75*k; y=y0; double x,ha;
  mc::describe(mc::fmt("%s numJ=%d y'=(%g+-i%g)y h=%g x0=%g",lay,numj,lam,om,h,x0));
  if(!onestep<PR>(h,x0,y,false,x,1e-12,ha)){ mc::count("cut"); return; }
  mc::validated(); uint64_t hs=5; for(double v:y) hs=mc::hr(hs,v); mc::state(hs); mc::outcome(hs);
  CLD z((LD)lam*h,(LD)om*h); 
  for(int k=0;k<n;k++){ LD ex; if(n>=2&&k<2){ CLD v=Rz(z)*CLD(y0[0],y0[1]); ex= k==0? v.real():v.imag(); } else ex=Rz(CLD((LD)e.A[k*n+k]*h)).real()*y0[k];
    MC_CHECK(fabsl(y[k]-ex)<=(numj?2e-7L:1e-9L),"stability-function","component %d: got %.12g, method gives %.12Lg (z=%Lg%+Lgi)",k,y[k],ex,z.real(),z.imag()); }
}
// polynomial right-hand sides are integrated exactly over many adaptive steps
template<class PR> static void poly(const char*lay,bool numj){
  const int n=PR::n; LinEnv e; e.n=n; e.A.assign(n*n,0); e.g.assign(n,{});
  int deg=mc::choose(5,"degree"); int dir=mc::choose(2,"direction"); double x0=X0[mc::choose(3,"x0")]; int tolk=mc::choose(3,"tol"); mc::shard();
  for(int i=0;i<n;i++){ e.g[i].assign(deg+1,0.0); e.g[i][deg]=(i+1); if(i%2) e.g[i][deg>0?deg-1:0]-=0.5; }
  e.t0=x0; World w; W()=&w; w.env=&e; w.record=false;
  static const double TOL[3]={1e-3,1e-6,1e-9}; double at[1]={TOL[tolk]},rt[1]={TOL[tolk]};
  odes::Radau5cc<PR> R(true,at,rt); R.setFnewt(1e-9/TOL[tolk]*1e-5<0.03?max(1e-9/TOL[tolk]*1e-5,1e-5):0.03);
  double xe=x0+(dir?-2.0:2.0),x=x0; vector<double> y(n,0.5); mc::step();
  R(0.01,x,xe,y.data());
  mc::describe(mc::fmt("%s numJ=%d y'=t^%d dir=%d x0=%g tol=%g",lay,numj,deg,dir,x0,TOL[tolk]));
  mc::validated(); uint64_t hs=7; for(double v:y) hs=mc::hr(hs,v); mc::state(mc::mix(hs,tolk)); mc::outcome(mc::mix(hs,R.getNaccpt()));
  for(int i=0;i<n;i++){ LD s=(LD)xe-x0,ex=0.5L; for(size_t k=0;k<e.g[i].size();k++) ex+=e.g[i][k]*powl(s,k+1)/(k+1);
    MC_CHECK(fabsl(y[i]-ex)<=1e-10L*(1+fabsl(ex)),"quadrature","component %d after %d steps: %.14g instead of %.14Lg",i,R.getNaccpt(),y[i],ex); }
}
template<class PR> static void nonlin(const char*lay,bool numj){
  const int n=PR::n; NonEnv e; e.n=n; e.full=PR::nsub==n-1&&PR::nsup==n-1; e.kind=mc::choose(3,"problem"); double h=HS[mc::choose(4,"h")]; double x0=X0[mc::choose(3,"x0")]; int yk=mc::choose(3,"y0"); mc::shard();
  World w; W()=&w; w.env=&e; w.record=false; vector<double> y(n); vector<LD> r0(n),r1; for(int i=0;i<n;i++){ y[i]= yk==0? 0.5+0.1*i : yk==1 ? -0.3+0.2*i : 1.25; r0[i]=y[i]; }
  double x,ha; mc::describe(mc::fmt("%s numJ=%d problem %d h=%g x0=%g y0#%d",lay,numj,e.kind,h,x0,yk));
  bool one; try{ one=onestep<PR>(h,x0,y,false,x,1e-12,ha); }catch(odes::OdesException&){ one=false; }
  if(!one){ mc::count("cut"); return; }
  if(!refstep(e,x0,h,r0,r1)){ mc::count("ref-singular"); return; }
  mc::validated(); uint64_t hs=11; for(double v:y) hs=mc::hr(hs,v); mc::state(hs); mc::outcome(hs);
  for(int i=0;i<n;i++) MC_CHECK(fabsl(y[i]-r1[i])<=1e-9L*(1+fabsl(r1[i])),"collocation","component %d: got %.14g, Radau IIA step gives %.14Lg",i,y[i],r1[i]);
}
template<int N,int SUB,int SUP,bool H,bool NJ> static void small(const char*lay){
  typedef P<N,SUB,SUP,H,NJ> PR;
  switch(mc::choose(3,"kind")){ case 0: lin<PR>(lay,NJ); break; case 1: poly<PR>(lay,NJ); break; default: if(SUB<1&&N>1||SUP<1&&N>1) mc::skip(); nonlin<PR>(lay,NJ); }
}
int main(int c,char**v){ return mc::run(c,v,[]{
#if PART==1
  switch(mc::choose(8,"layout")){
    case 0: trees<P<17,16,16,false,false>>(5,"full",mc::choose(3,"perm"),false); break;
    case 1: trees<P<17,16,16,false,true>>(5,"full",mc::choose(3,"perm"),true); break;
    case 2: trees<P<17,16,16,true,false>>(5,"hessenberg",mc::choose(3,"perm"),false); break;
    case 3: trees<P<17,16,16,true,true>>(5,"hessenberg",mc::choose(3,"perm"),true); break;
    case 4: trees<P<17,16,0,false,false>>(5,"band(16,0)",0,false); break;
    case 5: trees<P<17,0,16,false,true>>(5,"band(0,16)",1,true); break;
    case 6: trees<P<17,16,2,false,true>>(5,"band(16,2)",0,true); break;
    case 7: trees<P<17,3,16,false,false>>(5,"band(3,16)",1,false); break;
  }
#elif PART==2
  switch(mc::choose(8,"layout")){
    case 0: small<1,0,0,false,false>("full1"); break;
    case 1: small<1,0,0,true,true>("hess1"); break;
    case 2: small<2,1,1,false,false>("full2"); break;
    case 3: small<2,1,1,true,true>("hess2"); break;
    case 4: small<3,2,2,false,true>("full3"); break;
    case 5: small<3,2,2,true,false>("hess3"); break;
    case 6: small<3,1,1,false,false>("band3(1,1)"); break;
    case 7: small<4,2,1,false,true>("band4(2,1)"); break;
  }
#else
  switch(mc::choose(6,"layout")){
    case 0: small<4,1,2,false,false>("band4(1,2)"); break;
    case 1: small<5,4,4,true,true>("hess5"); break;
    case 2: small<5,1,1,false,true>("band5(1,1)"); break;
    case 3: small<5,4,4,false,false>("full5"); break;
    case 4: small<6,2,3,false,false>("band6(2,3)"); break;
    case 5: small<6,5,5,true,false>("hess6"); break;
  }
#endif
}); }
