// User problems for the Rock4 harnesses: answers come from an environment, every call is traced.
#pragma once
#include "mc.hpp"
#include <vector>
#include <memory>
#include "AllocateDestroyVector.hpp"
typedef long double LD;
using std::vector; using std::string;
struct Fault { int tag; };
struct Horizon {};
struct REnv { int n=1; virtual ~REnv(){} virtual void f(const double*y,double*r)=0; virtual double rho()=0; };
struct RRec { char k; vector<double> y; };
struct RWorld { REnv*env=nullptr; vector<RRec> tr; bool record=true; long nF=0,nR=0,calls=0,faultAt=-1,horizon=2000000; int faultTag=0; std::function<void(char,const double*)> hook;
  void enter(char k,const double*y){ if(k=='F') ++nF; else ++nR; long c=calls++; if(record) tr.push_back({k,y?vector<double>(y,y+env->n):vector<double>()}); if(c==faultAt) throw Fault{faultTag}; if(calls>horizon) throw Horizon(); if(hook) hook(k,y); }
};
struct RProb { RWorld*w; RProb(RWorld*q):w(q){}
  int size() const { return w->env->n; }
  double rho(){ w->enter('R',nullptr); return w->env->rho(); }
  void operator()(double*in,double*out){ w->enter('F',in); w->env->f(in,out); } };
// base problems 0: y'=-y  1: logistic  2: reaction-diffusion (n=4)  3: stiff linear (n=2)  4: damped rotation (n=2)  5: quadratic decay (n=3)
struct RBase: REnv { int kind=0; double scale=1;
  static int dim(int k){ static const int D[6]={1,1,4,2,2,3}; return D[k]; }
  void start(double*y){ static const double S[6][4]={{1},{0.2},{1,0.9,0.1,0},{1,-2},{1,0.5},{1,2,0.3}}; for(int i=0;i<n;i++) y[i]=S[kind][i]; }
  void f(const double*y,double*r)override{ switch(kind){ case 0: r[0]=-y[0]; break; case 1: r[0]=3*y[0]*(1-y[0]); break;
    case 2: for(int i=0;i<n;i++) r[i]=30*((i?y[i-1]:y[0])-2*y[i]+(i+1<n?y[i+1]:y[n-1]))+2*y[i]*(1-y[i]); break;
    case 3: r[0]=-60*y[0]+y[1]; r[1]=-y[1]; break; case 4: r[0]=-2*y[0]+0.4*y[1]; r[1]=-0.4*y[0]-2*y[1]; break;
    default: for(int i=0;i<n;i++) r[i]=-y[i]*y[i]+(i?0.5*y[i-1]:0)-0.2*y[i]; } for(int i=0;i<n;i++) r[i]*=scale; }
  double rho()override{ static const double R[6]={1,3,125,60,2.1,5}; return R[kind]*scale; } };
