// C10: order conditions of the Rodas methods (result: order 4, embedded: order 3) and their stability function.
#define USE_RODAS
#include "envs.hpp"
using namespace std;
static const double HS[4]={0.25,-0.25,0.0625,-1.0};
static const double X0[3]={0.0,2.0,-1.5};
// one committed step; emb: argument of the sixth stage (the embedded solution)
template<class PR> static bool onestep(double h,double x0,vector<double>&y,vector<double>&emb,double&x,World&w){
  double at[1]={1e6},rt[1]={1e-3}; odes::Rodascc<PR> R(true,at,rt); x=x0; w.reset(); w.record=true; mc::step();
  R(fabs(h),x,x0+h,y.data());
  // the last right-hand-side evaluation of the step is made at the embedded solution
  for(int k=(int)w.tr.size()-1;k>=0;k--) if(w.tr[k].k=='F'){ emb=w.tr[k].y; break; }
  return R.getNaccpt()==1&&R.getNstep()==1; }
template<class PR> static void trees(const char*lay,int perm){
  auto T=rooted_trees(4); if((int)T.size()!=PR::n) _exit(95);
  TreeEnv e; e.n=PR::n; e.T=T; e.perm.resize(e.n); for(int k=0;k<e.n;k++) e.perm[k]= perm==0?k: perm==1? e.n-1-k : (k*3+1)%e.n;
  e.mode= PR::autonomous? 0: mc::choose(2,"explicit-time"); double h=HS[mc::choose(3,"h")],x0=X0[mc::choose(3,"x0")]; mc::shard(); e.t0=x0;
  World w; W()=&w; w.env=&e; vector<double> y(e.n,0.0),emb; double x;
  mc::describe(mc::fmt("method %d %s numJ=%d aut=%d dft=%d h=%g x0=%g explicit-t=%d perm=%d",PR::method,lay,PR::ComputeJacobianNumerically,PR::autonomous,PR::use_DF_t,h,x0,e.mode,perm));
  MC_REQUIRE(onestep<PR>(h,x0,y,emb,x,w),"order:no-single-step","a step with a vast tolerance was not accepted at once");
  MC_REQUIRE(fabs(x-(x0+h))<1e-15*(1+fabs(x0)),"order:time","time after the step is %.17g",x);
  uint64_t hs=3; for(double v:y) hs=mc::hr(hs,v); for(double v:emb) hs=mc::hr(hs,v); mc::state(hs); mc::outcome(hs); mc::validated();
  bool approx=PR::ComputeJacobianNumerically||(!PR::autonomous&&!PR::use_DF_t);
  for(int k=0;k<e.n;k++){ LD hp=powl(fabsl((LD)h),T[k].order),ex=powl((LD)h,T[k].order)/T[k].gamma; LD tol=(approx?3e-6L:2e-12L)*hp+1e-13L;
    MC_CHECK(fabsl(y[e.perm[k]]-ex)<=tol,string("order-condition:order")+to_string(T[k].order),"tree #%d (order %d): got %.12g, exact %.12Lg",k,T[k].order,y[e.perm[k]],ex);
    if(T[k].order<=3) MC_CHECK(fabsl(emb[e.perm[k]]-ex)<=tol,string("embedded-order-condition:order")+to_string(T[k].order),"tree #%d (order %d): embedded %.12g, exact %.12Lg",k,T[k].order,emb[e.perm[k]],ex); }
}
template<class PR> static void lin(const char*lay){
  const int n=PR::n; LinEnv e; e.n=n; e.A.assign(n*n,0); e.g.assign(n,{});
  static const double LA[12]={0,-0.1,-1,-10,-1e3,-1e6,-1e9,-0.01,-4,-40,-0.001,-100}; static const double OM[6]={0,0.1,1,30,-1e4,0.01};
  int li=mc::choose(12,"lambda"),oi=mc::choose(n>=2?6:1,"omega"); double h=HS[mc::choose(4,"h")]; mc::shard();
  double lam=h<0?-LA[li]:LA[li],om=OM[oi];
  for(int k=0;k<n;k++) e.A[k*n+k]=(k<2&&n>=2)?lam:lam*(k+1)/2; if(n>=2){ e.A[1]=-om; e.A[n]=om; }
  World w; W()=&w; w.env=&e; vector<double> y0(n),y,emb; for(int k=0;k<n;k++) y0[k]=1-0.75*k; y=y0; double x;
  mc::describe(mc::fmt("method %d %s numJ=%d aut=%d y'=(%g+-i%g)y h=%g",PR::method,lay,PR::ComputeJacobianNumerically,PR::autonomous,lam,om,h));
  MC_REQUIRE(onestep<PR>(h,0,y,emb,x,w),"order:no-single-step","a step with a vast tolerance was not accepted at once");
  mc::validated(); uint64_t hs=5; for(double v:y) hs=mc::hr(hs,v); mc::state(hs); mc::outcome(hs);
  LD noise=PR::ComputeJacobianNumerically?1e-6L:1e-11L;
  auto judge=[&](CLD z,CLD R,CLD Re,LD sc,const char*which){ LD az=abs(z); CLD ez=exp(z);
    if(az<=0.5L){ MC_CHECK(abs(R-ez*sc)<=(0.02L*powl(az,5)+noise)*fabsl(sc),"stability-order","%s: R(%Lg%+Lgi) off exp by %Lg",which,z.real(),z.imag(),abs(R-ez*sc)); MC_CHECK(abs(Re-ez*sc)<=(0.1L*powl(az,4)+noise)*fabsl(sc),"embedded-stability-order","%s: embedded R(%Lg%+Lgi) off exp by %Lg",which,z.real(),z.imag(),abs(Re-ez*sc)); }
    MC_CHECK(abs(R)<=(1+noise)*fabsl(sc),"not-A-stable","%s: |R(%Lg%+Lgi)|=%.12Lg",which,z.real(),z.imag(),abs(R/sc));
    if(az>=1e5L){ MC_CHECK(abs(R)<=(100/az+noise)*fabsl(sc),"not-damped","%s: |R|=%Lg at z=%Lg%+Lgi",which,abs(R),z.real(),z.imag()); MC_CHECK(abs(Re)<=(100/az+noise)*fabsl(sc),"embedded-not-damped","%s: embedded |R|=%Lg at |z|=%Lg",which,abs(Re),az); } };
  if(n>=2){ LD m=sqrtl((LD)y0[0]*y0[0]+(LD)y0[1]*y0[1]); CLD u(y0[0],y0[1]); judge(CLD((LD)lam*h,(LD)om*h),CLD(y[0],y[1])/u*m,CLD(emb[0],emb[1])/u*m,m,"pair"); }
  for(int k=n>=2?2:0;k<n;k++) judge(CLD((LD)e.A[k*n+k]*h),CLD(y[k])/(LD)y0[k],CLD(emb[k])/(LD)y0[k],1,"real");
}
// the order-four convergence on nonlinear, time-dependent problems: halving the step divides the local error by about 32
template<class PR> static void nonlin(const char*lay){
  const int n=PR::n; NonEnv e; e.n=n; e.full=PR::nsub==n-1&&PR::nsup==n-1; e.kind=mc::choose(2,"problem")*2; double x0=X0[mc::choose(3,"x0")]; int yk=mc::choose(3,"y0"); int dir=mc::choose(2,"direction"); mc::shard();
  World w; W()=&w; w.env=&e; w.record=false; 
  auto start=[&](int i){ return yk==0?0.5+0.1*i: yk==1?-0.3+0.2*i:1.25; };
  struct E2: NonEnv{} ex; (void)ex;
  // reference: long double Taylor-free: classical RK4 with 2000 substeps is exact to 1e-16 here
  double errs[4];
  mc::describe(mc::fmt("method %d %s numJ=%d aut=%d dft=%d problem %d x0=%g y0#%d dir %d",PR::method,lay,PR::ComputeJacobianNumerically,PR::autonomous,PR::use_DF_t,e.kind,x0,yk,dir));
  for(int q=0;q<4;q++){ double h=(dir?-1:1)*0.1/(1<<q); vector<double> y(n),emb; for(int i=0;i<n;i++) y[i]=start(i); double x;
    vector<LD> r(n); for(int i=0;i<n;i++) r[i]=start(i); int M=60; LD hh=(LD)h/M,t=x0;
    auto F=[&](LD t,const vector<LD>&v){ vector<double> a(n),b(n); for(int i=0;i<n;i++)a[i]=(double)v[i]; e.f((double)t,a.data(),b.data()); return vector<LD>(b.begin(),b.end()); };
    for(int s=0;s<M;s++){ auto k1=F(t,r); vector<LD> v(n); for(int i=0;i<n;i++)v[i]=r[i]+hh/2*k1[i]; auto k2=F(t+hh/2,v); for(int i=0;i<n;i++)v[i]=r[i]+hh/2*k2[i]; auto k3=F(t+hh/2,v); for(int i=0;i<n;i++)v[i]=r[i]+hh*k3[i]; auto k4=F(t+hh,v); for(int i=0;i<n;i++)r[i]+=hh/6*(k1[i]+2*k2[i]+2*k3[i]+k4[i]); t+=hh; }
    MC_REQUIRE(onestep<PR>(h,x0,y,emb,x,w),"order:no-single-step","a step with a vast tolerance was not accepted at once");
    errs[q]=0; for(int i=0;i<n;i++) errs[q]=max(errs[q],(double)fabsl(y[i]-r[i])); }
  mc::validated(); uint64_t hs=mc::hr(mc::hr(9,errs[0]),errs[1]); mc::state(hs); mc::outcome(hs);
  double noise=(PR::ComputeJacobianNumerically||(!PR::autonomous&&!PR::use_DF_t))?3e-8:1e-10;
  double K=max(errs[0],errs[1]*32); MC_CHECK(errs[0]<=1e-2&&errs[2]<=2.5*K/1024+noise&&errs[3]<=2.5*K/32768+noise,"local-error-order","one-step errors %.3g %.3g %.3g %.3g for h=0.1, 0.05, 0.025, 0.0125",errs[0],errs[1],errs[2],errs[3]);
}
template<int N,int SUB,int SUP,bool H,bool NJ,int M> static void modes(const char*lay){
  int what=mc::choose(3,"kind"); int mode=mc::choose(3,"time-mode");
  auto go=[&](auto pr){ typedef decltype(pr) PR; if(what==0){ if constexpr(N==8) trees<PR>(lay,(SUB==7&&SUP==7)?mc::choose(3,"perm"):SUP==7?1:0); else mc::skip(); } else if(what==1) { if(N==8) mc::skip(); lin<PR>(lay); } else { if(N==8||(N>1&&(SUB<1||SUP<1))||PR::autonomous) mc::skip(); nonlin<PR>(lay); } };
  if(mode==0) go(P<N,SUB,SUP,H,NJ,true,false,M>()); else if(mode==1) go(P<N,SUB,SUP,H,NJ,false,true,M>()); else go(P<N,SUB,SUP,H,NJ,false,false,M>());
}
int main(int c,char**v){ W()=nullptr; return mc::run(c,v,[]{
  switch(mc::choose(12,"layout")){
    case 0: modes<8,7,7,false,false,METHOD>("full"); break;
    case 1: modes<8,7,7,false,true,METHOD>("full"); break;
    case 2: modes<8,7,7,true,false,METHOD>("hessenberg"); break;
    case 3: modes<8,7,7,true,true,METHOD>("hessenberg"); break;
    case 4: modes<8,7,0,false,true,METHOD>("band(7,0)"); break;
    case 5: modes<8,0,7,false,false,METHOD>("band(0,7)"); break;
    case 6: modes<1,0,0,false,false,METHOD>("full1"); break;
    case 7: modes<2,1,1,false,false,METHOD>("full2"); break;
    case 8: modes<2,1,1,true,true,METHOD>("hess2"); break;
    case 9: modes<3,1,1,false,false,METHOD>("band3(1,1)"); break;
    case 10: modes<4,2,1,false,true,METHOD>("band4(2,1)"); break;
    case 11: modes<5,4,4,true,false,METHOD>("hess5"); break;
  } }); }
