// C20: every method of the diagonally implicit solver against its Butcher tableau, evaluated in long double.
#include <cmath>
#include <string>
#include <iostream>
#include <complex>
#include <vector>
#include "mc.hpp"
#include "Sdirkl.hpp"
#include "RKMethod1.hpp"
#include "RKMethod2.hpp"
#include "RKRS.hpp"
#include "EulerImp.hpp"
#include "CrN.hpp"
typedef long double LD; typedef std::complex<LD> CLD;
struct Prob { int n; vector<double> A; LD absA; }; static Prob PR; static long applied=0; static double initAlpha=0; static int initN=0;
template<class T> static bool lsolve(vector<T> A,vector<T>&b,int n){ for(int k=0;k<n;k++){ int p=k; for(int i=k+1;i<n;i++) if(std::abs(A[i*n+k])>std::abs(A[p*n+k])) p=i; if(std::abs(A[p*n+k])==0) return false; if(p!=k){ for(int j=0;j<n;j++) std::swap(A[p*n+j],A[k*n+j]); std::swap(b[p],b[k]); } for(int i=k+1;i<n;i++){ T f=A[i*n+k]/A[k*n+k]; for(int j=k;j<n;j++) A[i*n+j]-=f*A[k*n+j]; b[i]-=f*b[k]; } } for(int i=n-1;i>=0;i--){ for(int j=i+1;j<n;j++) b[i]-=A[i*n+j]*b[j]; b[i]/=A[i*n+i]; } return true; }
struct Op { int n; double alpha; void init(int _n,double a){ n=_n; alpha=a; initAlpha=a; initN=_n; } void apply(double*rhs,double*x){ ++applied; vector<LD> M(n*n),b(rhs,rhs+n); for(int i=0;i<n*n;i++) M[i]=-(LD)alpha*PR.A[i]; for(int i=0;i<n;i++) M[i*n+i]+=1; lsolve(M,b,n); for(int i=0;i<n;i++) x[i]=(double)b[i]; } };
struct Tab { int s; vector<vector<LD>> A; vector<LD> b; int order; bool astable,lstable; };
static Tab tab(int k){ Tab t; LD s2=sqrtl(2.0L); switch(k){
  case 0: t={1,{{1}},{1},1,true,true}; break; case 1: t={1,{{0.5L}},{1},2,true,false}; break;
  case 2: { LD g=1+s2/2; t={2,{{g,0},{-1-s2,g}},{0.5L,0.5L},2,true,true}; t.lstable=false; break; } // checked below
  case 3: { LD g=cosl(acosl(-1.0L)/18)/sqrtl(3.0L)+0.5L, d=1/(6*(2*g-1)*(2*g-1)); t={3,{{g,0,0},{0.5L-g,g,0},{2*g,1-4*g,g}},{d,1-2*d,d},4,true,false}; break; }
  default: t={5,{{.25L,0,0,0,0},{.5L,.25L,0,0,0},{17.0L/50,-1.0L/25,.25L,0,0},{371.0L/1360,-137.0L/2720,15.0L/544,.25L,0},{25.0L/24,-49.0L/48,125.0L/16,-85.0L/12,.25L}},{25.0L/24,-49.0L/48,125.0L/16,-85.0L/12,.25L},4,true,true}; }
  return t; }
// reference step in long double
static vector<LD> ref(const Tab&t,const vector<LD>&y,const vector<LD>&phi,LD h){ int n=PR.n; vector<vector<LD>> K; for(int i=0;i<t.s;i++){ vector<LD> u=y; for(int j=0;j<i;j++) for(int a=0;a<n;a++) u[a]+=h*t.A[i][j]*K[j][a]; vector<LD> M(n*n),r(n); for(int a=0;a<n*n;a++) M[a]=-h*t.A[i][i]*PR.A[a]; for(int a=0;a<n;a++) M[a*n+a]+=1; for(int a=0;a<n;a++){ r[a]=phi[a]; for(int c=0;c<n;c++) r[a]+=(LD)PR.A[a*n+c]*u[c]; } lsolve(M,r,n); K.push_back(r); } vector<LD> o=y; for(int i=0;i<t.s;i++) for(int a=0;a<n;a++) o[a]+=h*t.b[i]*K[i][a]; return o; }
template<class RK> static void doit(int meth){
  Tab t=tab(meth); int kind=mc::choose(6,"operator"); int n= kind==1?2: 1+mc::choose(6,"size"); bool aff=mc::choose(2,"affine"); static const double HS[6]={0.1,1,1e-3,7,1e-6,100}; double h=HS[mc::choose(6,"dt")]; int steps=1+mc::choose(4,"steps"); mc::shard();
  PR.n=n; PR.A.assign(n*n,0); string what; LD ztop=0;
  if(kind==0){ static const double Z[14]={-0.01,-0.3,-1,-2,-5,-20,-100,-1e3,-1e4,-1e6,-1e8,0,0.05,0.2}; int k=mc::choose(14,"eigenvalue"); for(int i=0;i<n;i++) PR.A[i*n+i]=Z[k]/h*(1+0.3*i*(Z[k]<0)); what=mc::fmt("diagonal z=%g",Z[k]); }
  else if(kind==1){ static const double RE[9]={0,-1e-3,-0.1,-1,-3,-10,-100,-1e3,-1e5},IM[14]={1e-3,0.1,0.5,1,2,3,5,8,13,30,100,1e3,1e5,1e8}; double a=RE[mc::choose(9,"re")],b=IM[mc::choose(14,"im")]; PR.A={a/h,-b/h,b/h,a/h}; what=mc::fmt("rotation z=%g+%gi",a,b); }
  else if(kind==2){ for(int i=1;i<n;i++) PR.A[i*n+i-1]=(1+0.5*i)/h; what="nilpotent"; }
  else if(kind==3){ double s=mc::choose(3,"stiffness"); s=s==0?1:s==1?50:1e4; for(int i=0;i<n;i++){ PR.A[i*n+i]=-2*s/h; if(i) PR.A[i*n+i-1]=s/h; if(i+1<n) PR.A[i*n+i+1]=s/h; } what=mc::fmt("diffusion %g",s); }
  else if(kind==4){ double s=mc::choose(3,"stiffness"); s=s==0?1:s==1?20:300; for(int i=0;i<n;i++)for(int j=0;j<n;j++) PR.A[i*n+j]= (i==j?-1.5*n: sin(1.0+3*i+7*j))*s/h; what=mc::fmt("dense nonsymmetric %g",s); }
  else { what="zero"; }
  mc::describe(mc::fmt("method %d %s n=%d dt=%g %s, %d steps",meth,what.c_str(),n,h,aff?"affine":"linear",steps));
  applied=0; typedef odes::Sdirkl<RK,Op> SD; SD S=aff?SD(n,h,true):n&1?SD(n,h):SD(n,h,false); vector<double> y(n),phi(n,0),y0; for(int i=0;i<n;i++) y[i]=kind==1?(i==0): cos(1.0+2*i)+0.4; if(aff) for(int i=0;i<n;i++) phi[i]=(0.7-0.31*i)/h; y0=y; vector<double> phi0=phi;
  double*in=new double[n]; // exactly n doubles
  copy(y.begin(),y.end(),in); bool threw=false; try{ if(aff) S.step(in); else S.step(in,phi.data()); }catch(...){ threw=true; } MC_REQUIRE(threw,"wrong-mode","the call for the other kind of problem is not refused"); for(int i=0;i<n;i++) MC_REQUIRE(in[i]==y[i],"wrong-mode","the refused call changed the data");
  vector<LD> Y(y.begin(),y.end()),P(phi.begin(),phi.end()); LD sc=0; for(LD v:Y) sc=max(sc,fabsl(v)); for(LD v:P) sc=max(sc,fabsl(v)*h);
  LD an=0; for(int i=0;i<n;i++){ LD r=0; for(int j=0;j<n;j++) r+=fabsl(PR.A[i*n+j]); an=max(an,r*h); }
  for(int s=0;s<steps;s++){ if(aff) S.step(in,phi.data()); else S.step(in); Y=ref(t,Y,P,h); for(LD v:Y) sc=max(sc,fabsl(v)); mc::step();
    for(int i=0;i<n;i++){ double d=(double)(fabsl(in[i]-Y[i])/sc); double lim=3e-13*(s+1)*(n+1)*(meth==4?20:1); mc::countmax("max difference, in thousandths of its limit",1e3*d/lim); MC_REQUIRE(d<=lim,"not-the-method","step %d, component %d: %.15g, method %.15Lg",s+1,i,in[i],Y[i]); } 
    uint64_t q=mc::mix(meth,kind); for(int i=0;i<n;i++) q=mc::hr(q,in[i]); mc::gstate(q); }
  vector<double> out(in,in+n); delete[] in; for(int i=0;i<n;i++) MC_REQUIRE(phi[i]==phi0[i],"source-changed","the source term was changed");
  MC_REQUIRE(initN==n&&fabs(initAlpha-(double)t.A[0][0]*h)<=1e-13*fabs(h)*2,"operator","the operator was set up with %d, %.17g",initN,initAlpha); MC_REQUIRE(applied==(long)steps*t.s,"applications","%ld solves for %d steps of %d stages",applied,steps,t.s);
  // from first principles: order for nilpotent operators, boundedness in the left half plane
  if(kind==2&&steps==1){ vector<LD> ex(y0.begin(),y0.end()),d(ex); LD fac=1; for(int k=1;k<=t.order;k++){ vector<LD> r(n,0); for(int i=0;i<n;i++) for(int j=0;j<n;j++) r[i]+=(LD)PR.A[i*n+j]*d[j]; if(k==1) for(int i=0;i<n;i++) r[i]+=P[i]; d=r; fac*=(LD)h/k; for(int i=0;i<n;i++) ex[i]+=fac*d[i]; }
    for(int i=0;i<min(n,aff?t.order:t.order+1);i++) MC_REQUIRE(fabsl(out[i]-ex[i])<=2e-11L*sc,"order","component %d: %.15g, Taylor %.15Lg",i,out[i],ex[i]); mc::eval(); }
  if(kind==5) for(int i=0;i<n;i++) MC_REQUIRE(fabs(out[i]-(y0[i]+steps*h*phi[i]))<=1e-12*(1+steps),"source","component %d: %.15g instead of %.15g",i,out[i],y0[i]+steps*h*phi[i]);
  if(kind==1&&!aff){ double m=hypot(out[0],out[1]); MC_REQUIRE(m<=1+1e-11*steps,"not-a-stable","amplification %.12g after %d steps",m,steps); if(t.lstable&&(fabs(PR.A[0])*h>=1e5)) MC_REQUIRE(m<1e-2,"not-l-stable","amplification %.6g",m); }
  if(kind==0&&!aff&&PR.A[0]<=0) for(int i=0;i<n;i++) MC_REQUIRE(fabs(out[i])<=fabs(y0[i])*(1+1e-11*steps)+1e-14,"not-a-stable","amplification");
  mc::outcome(mc::mix(mc::mix(meth,kind),aff)); mc::validated(); if(steps==3&&aff) mc::sample(mc::G().desc);
}
static void body(){ switch(mc::choose(5,"method")){ case 0: doit<odes::EulerImp>(0); break; case 1: doit<odes::CrN>(1); break; case 2: doit<odes::RKRS>(2); break; case 3: doit<odes::RKMethod2>(3); break; default: doit<odes::RKMethod1>(4); } }
int main(int c,char**v){ return mc::run(c,v,body); }
