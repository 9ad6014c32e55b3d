// C07: the stiff solvers reach the end time with the requested accuracy. METHOD 0: Radau5, 1..3: Rodas.
// Oracle: a long double solution of the same problem by an extrapolated explicit method with step halving.
#if METHOD
#define USE_RODAS
#else
#define USE_RADAU
#endif
#include "dev.hpp"
#include "envs.hpp"
using namespace std;
#if METHOD
template<class PR> using Solver=odes::Rodascc<PR>;
#else
template<class PR> using Solver=odes::Radau5cc<PR>;
#endif
// problems 0..2: NonEnv (n=1..4), 3..7: Base kinds 0..4, 8: Robertson (n=3), 9: linear with complex eigenvalues and forcing (n=4), 10: polynomial quadrature (n=2), 11: logistic blow-down backwards (n=1)
struct Rob: Env { void f(double,const double*y,double*r)override{ r[0]=-0.04*y[0]+1e4*y[1]*y[2]; r[2]=3e7*y[1]*y[1]; r[1]=-r[0]-r[2]; } void jac(double,const double*y,double*J)override{ J[0]=-0.04;J[1]=1e4*y[2];J[2]=1e4*y[1]; J[6]=0;J[7]=6e7*y[1];J[8]=0; J[3]=0.04;J[4]=-1e4*y[2]-6e7*y[1];J[5]=-1e4*y[1]; } };
struct Lin4: Env { void f(double t,const double*y,double*r)override{ r[0]=-y[0]+5*y[1]; r[1]=-5*y[0]-y[1]+y[2]; r[2]=-30*y[2]+y[3]+cos(3*t); r[3]=0.5*y[2]-0.1*y[3]; } void jac(double,const double*,double*J)override{ static const double A[16]={-1,5,0,0,-5,-1,1,0,0,0,-30,1,0,0,0.5,-0.1}; memcpy(J,A,sizeof A); } void dft(double t,const double*,double*r)override{ r[0]=r[1]=r[3]=0; r[2]=-3*sin(3*t); } };
struct Quad: Env { void f(double t,const double*,double*r)override{ r[0]=5*t*t*t*t-2*t; r[1]=cos(4*t); } void jac(double,const double*,double*J)override{ for(int i=0;i<4;i++) J[i]=0; } void dft(double t,const double*,double*r)override{ r[0]=20*t*t*t-2; r[1]=-4*sin(4*t); } };
#ifndef LIMIT
#if METHOD
#define LIMIT 5.0
#else
#define LIMIT 80.0
#endif
#endif
// long double right-hand sides for the reference
static void lf(int prob,int n,LD t,const LD*y,LD*r){ switch(prob){
  case 0: for(int i=0;i<n;i++) r[i]=y[i]*(1-y[i])+(LD)0.3*(i?y[i-1]:0)-(LD)0.2*(i+1<n?y[i+1]:0)+(LD)0.1*sinl(t); break; case 1: for(int i=0;i<n;i++) r[i]=-50*(y[i]-cosl(t))+(i?y[i-1]*y[i]:0)-(i+1<n?y[i+1]*y[i+1]:0); break; case 2: for(int i=0;i<n;i++) r[i]=-y[i]*y[i]*y[i]+(i?(LD)0.5*y[i-1]:1.0L)+(i+1<n?expl(-y[i+1]):0); break;
  case 3: r[0]=-y[0]; break; case 4: r[0]=3*y[0]*(1-y[0]); break; case 5: r[0]=-200*(y[0]-cosl(t))-sinl(t); break; case 6: r[0]=y[1]; r[1]=((1-y[0]*y[0])*y[1]-y[0])*5; break; case 7: r[0]=y[1]; r[1]=-9*y[0]-(LD)0.2*y[1]+sinl(2*t); break;
  case 8: r[0]=-0.04L*y[0]+1e4L*y[1]*y[2]; r[2]=3e7L*y[1]*y[1]; r[1]=-r[0]-r[2]; break; case 9: r[0]=-y[0]+5*y[1]; r[1]=-5*y[0]-y[1]+y[2]; r[2]=-30*y[2]+y[3]+cosl(3*t); r[3]=0.5L*y[2]-0.1L*y[3]; break; default: r[0]=5*t*t*t*t-2*t; r[1]=cosl(4*t); } }
static vector<LD> ref(int prob,int n,double x0,double xe,const vector<double>&y0){ static map<vector<double>,vector<LD>> memo; vector<double> key={(double)prob,(double)n,x0,xe}; key.insert(key.end(),y0.begin(),y0.end()); auto it=memo.find(key); if(it!=memo.end()) return it->second;
  // classical RK4 with halving and one extrapolation
  auto run=[&](int m){ vector<LD> y(y0.begin(),y0.end()),k1(n),k2(n),k3(n),k4(n),u(n); LD h=((LD)xe-x0)/m; for(int s=0;s<m;s++){ LD t=x0+s*h; lf(prob,n,t,y.data(),k1.data()); for(int i=0;i<n;i++) u[i]=y[i]+h/2*k1[i]; lf(prob,n,t+h/2,u.data(),k2.data()); for(int i=0;i<n;i++) u[i]=y[i]+h/2*k2[i]; lf(prob,n,t+h/2,u.data(),k3.data()); for(int i=0;i<n;i++) u[i]=y[i]+h*k3[i]; lf(prob,n,t+h,u.data(),k4.data()); for(int i=0;i<n;i++) y[i]+=h/6*(k1[i]+2*k2[i]+2*k3[i]+k4[i]); } return y; };
  int m=prob==8? 6000:prob==5?2500:800; vector<LD> a=run(m),b; for(int q=0;q<8;q++){ m*=2; b=run(m); LD d=0; for(int i=0;i<n;i++) d=fmaxl(d,fabsl(b[i]-a[i])/(1e-3L+fabsl(b[i]))); for(int i=0;i<n;i++) a[i]=b[i]+(b[i]-a[i])/15; if(d<1e-11L) break; a=b; } memo[key]=a; return a; }
struct Tol { bool same; double a,r; };
static const double TV[6]={1e-3,1e-5,1e-7,1e-2,1e-9,1e-10};
template<int N,int SUB,int SUP,bool HS,bool NJ,bool AUT,bool DFT> static void doit(int prob,Env&e,const vector<double>&y0,double x0,double xe,double amp,const char*lay){
  typedef P<N,SUB,SUP,HS,NJ,AUT,DFT,METHOD> PR; int ti=mc::choose(6,"tolerance"); int tk=mc::choose(4,"kind of tolerance"); static const double HH[14]={0.01,1e-4,1,1e-9,37,0.1,0.5,2.0/3,1e-6,0.99995,1.5,1e6,0.3,0.03}; double h0=HH[mc::choose(mc::thorough()?14:5,"h0")]*fabs(xe-x0); int ok=mc::choose(METHOD?3:5,"options");  if(METHOD&&ti==5) mc::skip(); if(prob==8&&TV[ti]*(tk==1?1e-2:1)>1e-6) mc::skip(); /* Robertson leaves the stable region when the absolute tolerance is as large as the middle component */ mc::shard();
  double tol=TV[ti]; bool same=tk!=2; vector<double> at(N),rt(N); for(int i=0;i<N;i++){ at[i]=tk==1?tol*1e-2:tol; rt[i]=tk==3?tol*0.01:tol; if(tk==2&&i%2){ at[i]*=0.1; rt[i]*=0.1; } }
  World w; W()=&w; w.env=&e; w.record=false; w.horizon=4000000; string what=mc::fmt("%s%d problem %d n=%d %s [%g,%g] h0=%g tolerances %g/%g%s options %d",METHOD?"rodas":"radau",METHOD,prob,N,lay,x0,xe,h0,at[0],rt[0],same?"":" (vector)",ok); mc::describe(what);
  Solver<PR> R(same,at.data(),rt.data());
#if METHOD
  if(ok==1) R.setGustafssonTest(false); if(ok==2) R.setSafe(0.6);
#else
  if(ok==1) R.setGustafssonTest(false); if(ok==2) R.setSafe(0.6); if(ok==3){ R.setRecomputeJacobianTreshold(-1); R.setMaxIterationsNewton(10); } if(ok==4){ R.setRecomputeJacobianTreshold(0.1); R.setMaxIterationsNewton(4); }
#endif
  R.setNmax(200000); vector<double> y=y0; double x=x0; bool threw=false; try{ R(h0,x,xe,y.data()); }catch(odes::OdesException&){ threw=true; }catch(Horizon&){ mc::fail("never-stops","4000000 calls and no end"); } mc::step(w.calls);
  MC_REQUIRE(!threw,"fails","the integration ends with an exception at %.17g",x); MC_REQUIRE(x==xe,"end-time","the integration ends at %.17g",x);
  /* the solver's documented internal scaling of tolerances (rtol'=0.1 rtol^(2/3), atol'=atol rtol'/rtol) makes atol larger than given when rtol is much smaller */
  if(!METHOD&&tk==3) amp*=fmax(1.0,0.002*pow(rt[0],-1.0/3)); vector<LD> Z=ref(prob,N,x0,xe,y0); LD worst=0; LD scale=0; for(int i=0;i<N;i++){ scale=fmaxl(scale,at[i]+rt[i]*fmaxl(fabsl(Z[i]),fabsl((LD)y0[i]))); }
  for(int i=0;i<N;i++){ LD er=fabsl(y[i]-Z[i])/(scale*amp); if(!(er<1e300L)) er=1e300L; worst=fmaxl(worst,er); } mc::countmax("largest error, in thousandths of the limit",1000*(double)worst/LIMIT); if(getenv("DBG")&&worst>LIMIT*0.3) fprintf(stderr,"%.3Lg %s\n",worst,what.c_str());
  MC_REQUIRE(worst<=LIMIT,"inaccurate","the error is %.3Lg times the tolerance (times the problem's amplification %g)",worst,amp);
  // nothing to do: nothing happens
  { vector<double> z=y; double t=x; w.calls=0; try{ R(h0,t,xe,z.data()); }catch(odes::OdesException&){ mc::fail("empty","an empty interval ends with an exception"); } MC_REQUIRE(t==xe&&z==y,"empty","an empty interval changes time or solution"); }
  mc::gstate([&]{ uint64_t h=mc::mix(prob,N); for(double v:y) h=mc::hd(h,v); return h; }()); mc::outcome(mc::mix(R.getNstep(),mc::mix(R.getNaccpt(),prob))); mc::validated(); if(R.getNrejct()>0) mc::sample(what+mc::fmt(": error %.3Lg tolerances, %d steps, %d rejected",worst,R.getNstep(),R.getNrejct()));
}
#define LAY(N,SUB,SUP,HS,NJ,AUT,DFT,NAME) doit<N,SUB,SUP,HS,NJ,AUT,DFT>(prob,e,y0,x0,xe,amp,NAME)
template<int N,bool AUT> static void lay(int prob,Env&e,const vector<double>&y0,double x0,double xe,double amp,bool tri){ switch(mc::choose(6,"layout")){
  case 0: LAY(N,(N-1),(N-1),false,false,AUT,true,"full"); break; case 1: LAY(N,(N-1),(N-1),false,true,AUT,false,"full, differences"); break; case 2: if(N==1||N>=4&&!tri) mc::skip(); LAY(N,(N-1),(N-1),true,false,AUT,false,"hessenberg"); break;
  case 3: if(!tri||N<3) mc::skip(); LAY(N,(N<2?0:1),(N<2?0:1),false,false,AUT,false,"banded"); break; case 4: if(!tri||N<3) mc::skip(); LAY(N,(N<2?0:1),(N<2?0:1),false,true,AUT,true,"banded, differences"); break; default: if(N==1) mc::skip(); LAY(N,(N-1),(N-1),true,true,AUT,true,"hessenberg, differences"); } }
static void body(){ int prob=mc::choose(11,"problem"); static const double Y0[4]={0.4,1.3,0.7,0.2}; vector<double> y0; double x0=0,xe=1,amp=1; int dir=mc::choose(5,"interval"); if(dir>2&&!(prob==3||prob==10||prob==0)) mc::skip();
  if(prob<3){ NonEnv e; e.kind=prob; int n=1+mc::choose(4,"n"); e.n=n; for(int i=0;i<n;i++) y0.push_back(Y0[i]); if(prob==1){ xe=dir==0?2:dir==1?0.05:-0.02; amp=dir==2?5:1.5; } else if(prob==0){ x0=dir==1?2:dir==3?1:dir==4?0.2:0; xe=dir==0?3:dir==1?1.2:dir==3?0.9:dir==4?0.3:0.01; amp=dir==1?4:1.5; } else { x0=dir==1?1:-3; xe=dir==0?-0.5:dir==1?0.95:-2.9; amp=dir==1?2:1; }
    if(prob==2) switch(n){ case 1: lay<1,true>(prob,e,y0,x0,xe,amp,true); break; case 2: lay<2,true>(prob,e,y0,x0,xe,amp,true); break; case 3: lay<3,true>(prob,e,y0,x0,xe,amp,true); break; default: lay<4,true>(prob,e,y0,x0,xe,amp,true); }
    else switch(n){ case 1: lay<1,false>(prob,e,y0,x0,xe,amp,true); break; case 2: lay<2,false>(prob,e,y0,x0,xe,amp,true); break; case 3: lay<3,false>(prob,e,y0,x0,xe,amp,true); break; default: lay<4,false>(prob,e,y0,x0,xe,amp,true); } }
  else if(prob<8){ Base e; e.kind=prob-3; e.n=Base::dim(e.kind); y0.resize(e.n); e.start(y0.data()); switch(e.kind){ case 0: x0=dir==1||dir==3?1:dir==4?0.2:0; xe=dir==0?4:dir==1?-1.5:dir==2?0.3:dir==3?0.2:0.9; amp=dir==1?15:dir==3?3:1; break; case 1: x0=dir==1?1:-2; xe=dir==0?3:dir==1?0.2:-1.9; amp=dir==1?15:3; break; case 2: x0=0; xe=dir==0?1.5:dir==1?-0.01:0.03; amp=dir==1?10:1; break; case 3: x0=dir==1?1:0; xe=dir==0?0.8:dir==1?0.95:3.0; amp=dir==0?3:dir==2?60:2; break; default: x0=dir==1?2:0; xe=dir==0?3:dir==1?-1:0.2; amp=dir==1?6:4; }
    if(e.kind==2) lay<1,false>(prob,e,y0,x0,xe,amp,true); else if(e.kind<2) lay<1,true>(prob,e,y0,x0,xe,amp,true); else if(e.kind==3) lay<2,true>(prob,e,y0,x0,xe,amp,true); else lay<2,false>(prob,e,y0,x0,xe,amp,true); }
  else if(prob==8){ Rob e; e.n=3; y0={1,0,0}; xe=dir==0?0.3:dir==1?5:1e-4; if(dir==1&&!mc::thorough()) xe=1; lay<3,true>(prob,e,y0,x0,xe,1,false); }
  else if(prob==9){ Lin4 e; e.n=4; y0={1,0.5,0.2,-1}; x0=dir==1?0.1:0; xe=dir==0?2:dir==1?0:10; amp=dir==1?20:3; lay<4,false>(prob,e,y0,x0,xe,amp,true); }
  else { Quad e; e.n=2; y0={0,1}; x0=dir==1?1:dir==3?0.2:dir==4?-3:-1; xe=dir==0?2:dir==1?-2:dir==3?0.05:dir==4?-0.9:-0.9; amp=3; lay<2,false>(prob,e,y0,x0,xe,amp,true); } }
int main(int c,char**v){ return mc::run(c,v,body); }
