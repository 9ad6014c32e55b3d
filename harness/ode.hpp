// Common machinery for the Radau5 / Rodas harnesses: a user problem whose answers come from a
// harness-controlled environment, a trace of every callback, and long double helpers.
#pragma once
#include "mc.hpp"
#include "protos_lapack.hpp"
#include "MatrixType.hpp"
#include "AllocateDestroyVector.hpp"
#include "fortranVector.hpp"
#include <vector>
#include <complex>
#include <memory>
#ifdef USE_RADAU
#include "Radau5cc.hpp"
#endif
#ifdef USE_RODAS
#include "Rodascc.hpp"
#endif
typedef long double LD;
typedef std::complex<LD> CLD;
using std::vector; using std::string;

struct Fault { int tag; };
struct Horizon {};

struct Rec { char k; double t; vector<double> y; };

// what the environment (the user's program) answers
struct Env {
  int n=1;
  virtual ~Env(){}
  virtual void f(double t,const double*y,double*r)=0;
  virtual void jac(double t,const double*y,double*J){ (void)t;(void)y; for(int i=0;i<n*n;i++) J[i]=0; } // row major
  virtual void dft(double t,const double*y,double*r){ (void)t;(void)y; for(int i=0;i<n;i++) r[i]=0; }
};
struct World {
  Env* env=nullptr;
  vector<Rec> tr; bool record=true;
  long nF=0,nJ=0,nT=0,calls=0;
  long faultAt=-1; int faultTag=0;       // throw at this call index (all kinds counted)
  long horizon=2000000;
  std::function<void(char,double,const double*)> hook;
  std::function<void(char,double,const double*,const double*)> args; // 'F': y, where the answer goes; 'R': y, the answer; 'J': y, Fy; 'T': y, null
  void reset(){ tr.clear(); nF=nJ=nT=calls=0; }
  void enter(char k,double t,const double*y,int n){
    if(k=='F') ++nF; else if(k=='J') ++nJ; else ++nT;
    long c=calls++;
    if(record) tr.push_back({k,t,vector<double>(y,y+n)});
    if(c==faultAt) throw Fault{faultTag};
    if(calls>horizon) throw Horizon();
    if(hook) hook(k,t,y);
  }
};
inline World*& W(){ static World* w=new World; return w; }

template<int N,int SUB,int SUP,bool HESS,bool NUMJ,bool AUT=true,bool DFT=false,int METH=1> struct P {
  static const int n=N, nsub=SUB, nsup=SUP;
  static const bool Hessenberg=HESS, ComputeJacobianNumerically=NUMJ, autonomous=AUT, use_DF_t=DFT;
  static const int method=METH;
  typedef typename odes::Matrixtype<n,nsub,nsup>::Matrix Matrix;
  World* w;
  P(){ w=W(); }
  void operator()(double t,double*y,double*r){ World*q=w?w:W(); q->enter('F',t,y,n); if(q->args) q->args('F',t,y,r); q->env->f(t,y,r); if(q->args) q->args('R',t,y,r); }
  void Jacobian(double t,const odes::fortranVector y,const odes::fortranVector Fy,Matrix& Jac){
    World*q=w?w:W(); double yy[N]; for(int i=0;i<n;i++) yy[i]=y(i+1);
    q->enter('J',t,yy,n); if(q->args){ double ff[N]; for(int i=0;i<n;i++) ff[i]=Fy(i+1); q->args('J',t,yy,ff); } double J[N*N]; q->env->jac(t,yy,J);
    for(int i=0;i<n;i++)for(int j=0;j<n;j++) if(j-i<=SUP&&i-j<=SUB) Jac(i+1,j+1)=J[i*n+j]; }
  void DF_t(double t,const odes::fortranVector y,odes::fortranVector& r){
    World*q=w?w:W(); double yy[N],rr[N]; for(int i=0;i<n;i++) yy[i]=y(i+1);
    q->enter('T',t,yy,n); if(q->args) q->args('T',t,yy,nullptr); q->env->dft(t,yy,rr); for(int i=0;i<n;i++) r(i+1)=rr[i]; }
};

// dense long double solver (partial pivoting); returns false if singular
inline LD& pivratio(){ static LD r=1; return r; } // smallest/largest pivot of the last solve
template<class T> inline bool lsolve(vector<T> A,vector<T>&b,int n){ LD pmin=1e300L,pmax=0;
  for(int k=0;k<n;k++){ int p=k; for(int i=k+1;i<n;i++) if(std::abs(A[i*n+k])>std::abs(A[p*n+k])) p=i;
    LD pv=std::abs(A[p*n+k]); if(pv<pmin)pmin=pv; if(pv>pmax)pmax=pv; pivratio()=pmin/pmax; if(pv==0) return false;
    if(p!=k){ for(int j=0;j<n;j++) std::swap(A[p*n+j],A[k*n+j]); std::swap(b[p],b[k]); }
    for(int i=k+1;i<n;i++){ T f=A[i*n+k]/A[k*n+k]; if(f==T(0)) continue; for(int j=k;j<n;j++) A[i*n+j]-=f*A[k*n+j]; b[i]-=f*b[k]; } }
  for(int i=n-1;i>=0;i--){ for(int j=i+1;j<n;j++) b[i]-=A[i*n+j]*b[j]; b[i]/=A[i*n+i]; }
  return true; }

// ---- rooted trees: trees[k].kids; component k obeys y_k' = prod over kids y_kid, y(0)=0, so y_k(t)=t^order/gamma
struct Tree { vector<int> kids; int order; LD gamma; };
inline vector<Tree> rooted_trees(int maxorder){
  vector<Tree> T; vector<int> first(maxorder+2,0);
  T.push_back({{},1,1}); 
  for(int o=2;o<=maxorder;o++){
    // multisets of earlier trees with total order o-1
    int have=(int)T.size(); vector<vector<int>> out; vector<int> cur;
    std::function<void(int,int)> rec=[&](int start,int left){ if(left==0){ out.push_back(cur); return; }
      for(int k=start;k<have;k++) if(T[k].order<=left){ cur.push_back(k); rec(k,left-T[k].order); cur.pop_back(); } };
    rec(0,o-1);
    for(auto&m:out){ Tree t; t.kids=m; t.order=o; t.gamma=o; for(int k:m) t.gamma*=T[k].gamma; T.push_back(t); }
  }
  return T; }
