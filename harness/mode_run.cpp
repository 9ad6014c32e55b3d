// The runner of one build mode: compiled once per mode with -Dodes=odes_<mode>, -DMODE=<mode> and -DFAM=<family>.
// Everything of its own lives in an anonymous namespace, so that every mode has its own instantiations.
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <string>
#include <iostream>
#include <fstream>
#include <sstream>
#include <vector>
#include <algorithm>
#include <complex>
#include <list>
#include <map>
#include <limits>
#include <mm_malloc.h>
#ifdef ROCK4_OMP
#include <omp.h>
#endif
#include "mode.hpp"
#if FAM==0
#include "protos_lapack.hpp"
#include "MatrixType.hpp"
#include "fortranVector.hpp"
#include "Radau5cc.hpp"
#elif FAM==1
#include "protos_lapack.hpp"
#include "MatrixType.hpp"
#include "fortranVector.hpp"
#include "Rodascc.hpp"
#elif FAM==2
#include "AllocateDestroyVector.hpp"
#include "Rock4.hpp"
#elif FAM==3
#include "AllocateDestroyVector.hpp"
#include "Rock4L.hpp"
#elif FAM==4
#include "Sdirkl.hpp"
#include "RKMethod1.hpp"
#include "RKMethod2.hpp"
#include "RKRS.hpp"
#include "EulerImp.hpp"
#include "CrN.hpp"
#else
#include "SymplecticRK.hpp"
#endif
#ifdef CONC
extern "C" void conc_cb(double t,const double*y,int n); // every call of a user function
#define CB(t,y,n) conc_cb(t,y,n)
#define PERTHREAD thread_local
#else
#define CB(t,y,n)
#define PERTHREAD
#endif
#ifdef MEMRUN
#define CBR() conc_cb(0,nullptr,0)
#else
#define CBR()
#endif
namespace {
#if FAM>=2 && FAM<=4
struct Own { double*&p; Own(double*&q):p(q){} ~Own(); }; // a caller's array, released also when an exception passes
#endif
static const double Y0[8]={0.4,1.3,0.7,0.2,0.9,-0.3,0.5,1.1};
struct Buf { double*raw,*p; int n; Buf(int k,int mis):n(k){ raw=(double*)_mm_malloc(8*(k+16)+64,64); p=raw+mis; for(int i=0;i<k+8;i++) p[i]=-77.25; } ~Buf(){ _mm_free(raw); } };
#if FAM<=1
static PERTHREAD int prob; static PERTHREAD unsigned noise;
static double wiggle(){ noise=noise*1664525u+1013904223u; return (int)((noise>>16)%5)-2; }
static void rhs(double t,const double*y,double*r,int n){ for(int i=0;i<n;i++) switch(prob){ case 0: r[i]=y[i]*(1-y[i])+0.3*(i?y[i-1]:0)-0.2*(i+1<n?y[i+1]:0)+0.1*std::sin(t); break; case 1: r[i]=-50*(y[i]-std::cos(t))+(i?y[i-1]*y[i]:0)-(i+1<n?y[i+1]*y[i+1]:0); break; default: r[i]=-y[i]*y[i]*y[i]+(i?0.5*y[i-1]:1.0)+(i+1<n?std::exp(-y[i+1]):0); }
  if(noise) for(int i=0;i<n;i++) r[i]+=1.1e-16*wiggle()*(prob==1?50:1)*(1+std::fabs(y[i])); }
template<int N,int L,int U,bool HS,bool NJ,int METH> struct Pr { static const int n=N,nsub=L,nsup=U; static const bool Hessenberg=HS,ComputeJacobianNumerically=NJ,autonomous=false,use_DF_t=false; static const int method=METH;
  typedef typename odes::Matrixtype<N,L,U>::Matrix Matrix; void operator()(double t,double*y,double*r){ CB(t,y,N); rhs(t,y,r,N); }
  void Jacobian(double t,const odes::fortranVector y,const odes::fortranVector,Matrix&J){ CB(-t,&y,N); double R[N*N]; for(int i=0;i<N*N;i++) R[i]=0; for(int i=0;i<N;i++){ double*q=R+i*N; double v=y(i+1),m=i?y(i):0,p=i+1<N?y(i+2):0; if(prob==0){ q[i]=1-2*v; if(i)q[i-1]=0.3; if(i+1<N)q[i+1]=-0.2; } else if(prob==1){ q[i]=-50+(i?m:0); if(i)q[i-1]=v; if(i+1<N)q[i+1]=-2*p; } else { q[i]=-3*v*v; if(i)q[i-1]=0.5; if(i+1<N)q[i+1]=-std::exp(-p); } }
    for(int i=0;i<N;i++)for(int j=0;j<N;j++) if(j-i<=U&&i-j<=L) J(i+1,j+1)=R[i*N+j]; }
  void DF_t(double,const odes::fortranVector,odes::fortranVector&r){ for(int i=1;i<=N;i++) r(i)=0; } };
template<int N,int L,int U,bool HS,bool NJ,int METH=1> static void go(const ModeIn&I,ModeOut&O){ typedef Pr<N,L,U,HS,NJ,METH> PR; double at[N],rt[N]; for(int i=0;i<N;i++){ at[i]=I.tol*(i+1); rt[i]=I.tol; } Buf b(N,I.mis); double*y=b.p; for(int i=0;i<N;i++) y[i]=Y0[i]*(1+I.py); O.n=N; O.x=I.x0;
#if FAM==0
  odes::Radau5cc<PR> R(I.opt==2,at,rt); if(I.opt==1){ R.setRecomputeJacobianTreshold(-1); R.setMaxIterationsNewton(5); }
#else
  odes::Rodascc<PR> R(I.opt==2,at,rt); if(I.opt==1) R.setGustafssonTest(false);
#endif
  try{ R(I.h0,O.x,I.xe,y); if(I.opt==2){ R(I.h0,O.x,I.x0,y); } O.status=0; O.h=R.getLastTimeStep(); long c[5]={R.getNstep(),R.getNaccpt(),R.getNrejct(),R.getNJac(),R.getNdec()}; O.nc=5; for(int i=0;i<5;i++) O.c[i]=c[i]; 
#ifdef LOGRADAU5
    std::stringstream s; (void)R.Log();
#endif
  }catch(odes::OdesException&){ O.status=1; }
  for(int i=0;i<N;i++) O.y[i]=y[i]; for(int i=N;i<N+8;i++) if(y[i]!=-77.25) O.status=7; }
template<int METH> static void lays(const ModeIn&I,ModeOut&O){ prob=I.prob; noise=I.noise; switch(I.lay){ case 0: go<3,2,2,false,false,METH>(I,O); break; case 1: go<4,3,3,false,true,METH>(I,O); break; case 2: go<5,1,1,false,false,METH>(I,O); break; case 3: go<3,2,2,true,false,METH>(I,O); break; default: go<7,1,1,false,true,METH>(I,O); } }
#elif FAM==2
struct F { int n,prob; int size()const{ return n; } double rho(){ CBR(); return prob==0?1.5+0.1*n:prob==1?420:3; }
  void operator()(double*in,double*out){ CB(0,in,n); for(int i=0;i<n;i++){ double a=i?in[i-1]:in[i],c=i+1<n?in[i+1]:in[i]; out[i]= prob==0? -in[i]*in[i]+0.1*(a-c): prob==1? 100*(a-2*in[i]+c)+2*in[i]*(1-in[i]): 0.4*a-in[i]-0.3*c; } } };
static void rock(const ModeIn&I,ModeOut&O){ static const int NN[5]={1,2,7,8,33}; F f; f.n=NN[I.lay]; f.prob=I.prob; O.n=f.n; double*y=odes::allocDoubleArray(f.n); Own oy(y); for(int i=0;i<f.n;i++) y[i]=(Y0[i%8]+0.01*i)*(1+I.py); odes::Rock4<F> R(f); R.setTolerances(I.tol,I.tol*(I.opt+1)); 
  try{ R(y,I.x0,I.xe,I.h0); O.status=0; O.nc=4; O.c[0]=R.NbSteps(); O.c[1]=R.NbAccepted(); O.c[2]=R.NbRejected(); O.c[3]=R.NbRhsComputed(); O.h=R.LastAcceptedTimeStep(); O.x=I.xe; }catch(odes::OdesException&){ O.status=1; } for(int i=0;i<f.n;i++) O.y[i]=y[i]; }
#elif FAM==3
struct Op { int n,prob; double s; int size()const{ return n; } double rho(){ CBR(); return 4.4*s; }
  void go(const double*in,const double*sv,double a,double b,double bin,const double*g,double*out){ CB(a+b,in,n); double t[80]; for(int i=0;i<n;i++) t[i]=s*((i?1.1*in[i-1]:0)-2*in[i]+(i+1<n?0.8*in[i+1]:0)); for(int i=0;i<n;i++) out[i]=a*(t[i]+(g?g[i]:0))+bin*in[i]+b*sv[i]; }
  void operator()(double*in,double*s,double a,double b,double*out){ go(in,s,a,b,0,nullptr,out); } void operator()(double*in,double*s,double a,double b,double*g,double*out){ go(in,s,a,b,0,g,out); }
  void operator()(double*in,double*s,double a,double b,double c,double*out){ go(in,s,a,c,b,nullptr,out); } void operator()(double*in,double*s,double a,double b,double c,double*g,double*out){ go(in,s,a,c,b,g,out); } };
static void rockl(const ModeIn&I,ModeOut&O){ static const int NN[5]={1,2,7,8,33}; Op f; f.n=NN[I.lay]; f.prob=I.prob; f.s=I.prob==0?0.5:I.prob==1?40:900; O.n=f.n; double*y=odes::allocDoubleArray(f.n),*b=odes::allocDoubleArray(f.n); Own oy(y),ob(b); for(int i=0;i<f.n;i++){ y[i]=(Y0[i%8]+0.01*i)*(1+I.py); b[i]=0.3-0.1*i; } 
  try{ if(I.opt){ odes::Rock4L<Op,true> R(f); R(y,b,I.x0,I.xe,I.h0); } else { odes::Rock4L<Op,false> R(f); R(y,I.x0,I.xe,I.h0); } O.status=0; O.x=I.xe; }catch(odes::OdesException&){ O.status=1; } for(int i=0;i<f.n;i++) O.y[i]=y[i]; }
#elif FAM==4
struct Op { int n; double al; void init(int k,double a){ CBR(); n=k; al=a; } void apply(double*rhs,double*x){ CB(al,rhs,n); // (I - al A) x = rhs, A = s tridiag(1.1,-2,0.8)
   double c[80],d[80]; double s=30; double lo=-al*s*1.1,di=1+2*al*s,up=-al*s*0.8; c[0]=up/di; d[0]=rhs[0]/di; for(int i=1;i<n;i++){ double m=di-lo*c[i-1]; c[i]=up/m; d[i]=(rhs[i]-lo*d[i-1])/m; } x[n-1]=d[n-1]; for(int i=n-2;i>=0;i--) x[i]=d[i]-c[i]*x[i+1]; } };
template<class RK> static void sd(const ModeIn&I,ModeOut&O){ static const int NN[5]={1,2,7,8,33}; int n=NN[I.lay]; O.n=n; odes::Sdirkl<RK,Op> S(n,I.h0,I.opt==1); double*y=odes::allocDoubleArray(n),*b=odes::allocDoubleArray(n); Own oy(y),ob(b); for(int i=0;i<n;i++){ y[i]=(Y0[i%8]+0.01*i)*(1+I.py); b[i]=0.3-0.1*i; } for(int k=0;k<3;k++) if(I.opt==1) S.step(y,b); else S.step(y); O.status=0; for(int i=0;i<n;i++) O.y[i]=y[i]; }
#else
template<class T> struct F { static const int n=5; int prob; void operator()(T*y,T*r){ { double q[n]; for(int i=0;i<n;i++) q[i]=(double)y[i]; CB(0,q,n); } switch(prob){ case 0: for(int i=0;i<n;i++) r[i]=(i?y[i-1]*T(0.5):0)-(i+1<n?y[i+1]*T(0.5):0); break; case 1: { T q=y[0]*y[0]+y[1]*y[1]; T d=q*std::sqrt(q); r[0]=y[2]; r[1]=y[3]; r[2]=-y[0]/d; r[3]=-y[1]/d; r[4]=1; break; } default: for(int i=0;i<n;i++) r[i]=-std::sin(y[i])+T(0.1)*y[(i+1)%n]; } } };
template<int S,class T> static void sy(const ModeIn&I,ModeOut&O){ odes::SymplecticRK<F<T>,S,T> R(200); R.rhs().prob=I.prob; T y[5]; for(int i=0;i<5;i++) y[i]=Y0[i]*(1+I.py); bool first=true; O.n=5; O.status=0; for(int k=0;k<4;k++){ if(!R.step(I.h0,y,first)){ O.status=2; O.h=(double)R.lastdiff(); break; } if(I.opt==0) first=false; else first=true; } for(int i=0;i<5;i++) O.y[i]=(double)y[i]; }
#endif
#if FAM>=2 && FAM<=4
inline Own::~Own(){ odes::destroyDoubleArray(p); }
#endif
}
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
extern "C" void CAT(mode_run_,MODE)(const ModeIn*I,ModeOut*O){ memset(O,0,sizeof *O);
#if FAM==0
  lays<1>(*I,*O);
#elif FAM==1
  switch(I->solver){ case 0: lays<1>(*I,*O); break; case 1: lays<2>(*I,*O); break; default: lays<3>(*I,*O); }
#elif FAM==2
#ifdef ROCK4_OMP
  omp_set_num_threads(3);
#endif
  rock(*I,*O);
#elif FAM==3
  rockl(*I,*O);
#elif FAM==4
  switch(I->solver){ case 0: sd<odes::EulerImp>(*I,*O); break; case 1: sd<odes::CrN>(*I,*O); break; case 2: sd<odes::RKMethod1>(*I,*O); break; case 3: sd<odes::RKMethod2>(*I,*O); break; default: sd<odes::RKRS>(*I,*O); }
#else
  switch(I->solver){ case 0: sy<2,double>(*I,*O); break; case 1: sy<5,double>(*I,*O); break; case 2: sy<8,long double>(*I,*O); break; default: sy<16,double>(*I,*O); }
#endif
}
