// one exact Radau IIA step (full Newton, long double)
#pragma once
#include "ode.hpp"
using std::max;
static const LD S6=sqrtl(6.0L);
static const LD CC[3]={(4-S6)/10,(4+S6)/10,1};
static const LD AA[3][3]={{(88-7*S6)/360,(296-169*S6)/1800,(-2+3*S6)/225},{(296+169*S6)/1800,(88+7*S6)/360,(-2-3*S6)/225},{(16-S6)/36,(16+S6)/36,1.0L/9}};

// reference: full Newton in long double on the collocation equations
static bool refstep(Env&e,LD x,LD h,const vector<LD>&y0,vector<LD>&y1,vector<LD>*Zout=nullptr,bool*conv=nullptr){
  int n=e.n; vector<LD> Z(3*n,0);
  for(int it=0;it<60;it++){
    vector<LD> R(3*n); vector<LD> M(9*n*n,0); vector<double> y(n),r(n),J(n*n);
    vector<vector<LD>> Fs(3,vector<LD>(n)); vector<vector<double>> Js;
    for(int s=0;s<3;s++){ for(int i=0;i<n;i++) y[i]=(double)(y0[i]+Z[s*n+i]); e.f((double)(x+CC[s]*h),y.data(),r.data()); e.jac((double)(x+CC[s]*h),y.data(),J.data());
      for(int i=0;i<n;i++) Fs[s][i]=r[i]; Js.push_back(J); }
    for(int s=0;s<3;s++)for(int i=0;i<n;i++){ LD v=Z[s*n+i]; for(int q=0;q<3;q++) v-=h*AA[s][q]*Fs[q][i]; R[s*n+i]=-v;
      for(int q=0;q<3;q++)for(int j=0;j<n;j++) M[(s*n+i)*3*n+q*n+j]=(s==q&&i==j?1:0)-h*AA[s][q]*Js[q][i*n+j]; }
    if(!lsolve(M,R,3*n)) return false;
    LD d=0; for(int i=0;i<3*n;i++){ Z[i]+=R[i]; d=max(d,fabsl(R[i])); }
    if(d<1e-15L){ if(conv) *conv=true; break; }
  }
  if(Zout) *Zout=Z; y1=y0; for(int i=0;i<n;i++) y1[i]+=Z[2*n+i]; return true; }

