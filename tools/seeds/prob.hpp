// a user problem with replaceable functions, for the demonstrations
#pragma once
#include <vector>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <string>
#include "protos_lapack.hpp"
#include "MatrixType.hpp"
#include "AllocateDestroyVector.hpp"
#include "fortranVector.hpp"
#ifdef RADAU
#include "Radau5cc.hpp"
#endif
#ifdef RODAS
#include "Rodascc.hpp"
#endif
using std::vector; using std::function;
typedef function<void(double,const double*,double*)> Fun;
struct Prob { Fun f, jac, dft; long nf=0, nj=0; vector<double> ft; };
inline Prob& PB(){ static Prob p; return p; }
template<int N,int SUB,int SUP,bool HESS,bool NUMJ,bool AUT=true,bool DFT=false,int METH=1> struct P {
  static const int n=N, nsub=SUB, nsup=SUP;
  static const bool Hessenberg=HESS, ComputeJacobianNumerically=NUMJ, autonomous=AUT, use_DF_t=DFT;
  static const int method=METH;
  typedef typename odes::Matrixtype<n,nsub,nsup>::Matrix Matrix;
  void operator()(double t,double y[],double r[]){ ++PB().nf; PB().ft.push_back(t); PB().f(t,y,r); }
  void Jacobian(double t,const odes::fortranVector y,const odes::fortranVector,Matrix& J){ ++PB().nj; double a[N*N],yy[N]; for(int i=0;i<N;i++) yy[i]=y(i+1); PB().jac(t,yy,a); for(int i=1;i<=N;i++) for(int j=1;j<=N;j++) if(i-j<=SUB&&j-i<=SUP) J(i,j)=a[(i-1)*N+j-1]; }
  void DF_t(double t,const odes::fortranVector y,odes::fortranVector& r){ double yy[N],rr[N]; for(int i=0;i<N;i++) yy[i]=y(i+1); PB().dft(t,yy,rr); for(int i=0;i<N;i++) r(i+1)=rr[i]; }
};
