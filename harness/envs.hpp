#pragma once
#include "ode.hpp"
using std::cos; using std::sin; using std::exp;
// rooted tree system: component perm[k] is tree k; optional: leaves replaced by explicit time
struct TreeEnv: Env { vector<Tree> T; vector<int> perm; double t0=0; int mode=0; // mode 1: single-node kids are (t-t0)
  void f(double t,const double*y,double*r)override{ for(size_t k=0;k<T.size();k++){ double p=1; for(int c:T[k].kids) p*= (mode==1&&c==0)? (t-t0): y[perm[c]]; r[perm[k]]=p; } }
  void jac(double t,const double*y,double*J)override{ for(int i=0;i<n*n;i++)J[i]=0;
    for(size_t k=0;k<T.size();k++) for(size_t a=0;a<T[k].kids.size();a++){ if(mode==1&&T[k].kids[a]==0) continue; double p=1; for(size_t b=0;b<T[k].kids.size();b++) if(b!=a) p*=(mode==1&&T[k].kids[b]==0)?(t-t0):y[perm[T[k].kids[b]]]; J[perm[k]*n+perm[T[k].kids[a]]]+=p; } }
  void dft(double t,const double*y,double*r)override{ for(int i=0;i<n;i++) r[i]=0; if(mode!=1) return;
    for(size_t k=0;k<T.size();k++) for(size_t a=0;a<T[k].kids.size();a++) if(T[k].kids[a]==0){ double p=1; for(size_t b=0;b<T[k].kids.size();b++) if(b!=a) p*=(T[k].kids[b]==0)?(t-t0):y[perm[T[k].kids[b]]]; r[perm[k]]+=p; } }
};
// linear y' = A y + g(t), g polynomial coefficients per component
struct LinEnv: Env { vector<double> A; vector<vector<double>> g; double t0=0;
  void f(double t,const double*y,double*r)override{ double s=t-t0; for(int i=0;i<n;i++){ double v=0; for(int j=0;j<n;j++) v+=A[i*n+j]*y[j]; double p=0; for(int k=(int)g[i].size()-1;k>=0;k--) p=p*s+g[i][k]; r[i]=v+p; } }
  void jac(double,const double*,double*J)override{ for(int i=0;i<n*n;i++)J[i]=A[i]; }
  void dft(double t,const double*,double*r)override{ double s=t-t0; for(int i=0;i<n;i++){ double p=0; for(int k=(int)g[i].size()-1;k>=1;k--) p=p*s+k*g[i][k]; r[i]=p; } }
};
struct NonEnv: Env { int kind=0; bool full=false; // full: the last equation depends on the first component too, and the other way round
  bool wide()const{ return full&&n>2; }
  void dft(double t,const double*,double*r)override{ for(int i=0;i<n;i++) r[i]= kind==0? 0.1*cos(t): kind==1? -50*sin(t): 0; }
  void f(double t,const double*y,double*r)override{
    if(kind==0){ for(int i=0;i<n;i++) r[i]=y[i]*(1-y[i])+0.3*(i?y[i-1]:0)-0.2*(i+1<n?y[i+1]:0)+0.1*sin(t); }
    else if(kind==1){ for(int i=0;i<n;i++) r[i]=-50*(y[i]-cos(t))+(i?y[i-1]*y[i]:0)-(i+1<n?y[i+1]*y[i+1]:0); }
    else { for(int i=0;i<n;i++) r[i]=-y[i]*y[i]*y[i]+ (i?0.5*y[i-1]:1.0)+(i+1<n?exp(-y[i+1]):0); }
    if(wide()){ r[n-1]+=0.3*y[0]*y[0]; r[0]+=0.2*sin(y[n-1]); } }
  void jac(double t,const double*y,double*J)override{ for(int i=0;i<n*n;i++)J[i]=0;
    for(int i=0;i<n;i++){ double*R=J+i*n;
      if(kind==0){ R[i]=1-2*y[i]; if(i)R[i-1]=0.3; if(i+1<n)R[i+1]=-0.2; }
      else if(kind==1){ R[i]=-50+(i?y[i-1]:0); if(i)R[i-1]=y[i]; if(i+1<n)R[i+1]=-2*y[i+1]; }
      else { R[i]=-3*y[i]*y[i]; if(i)R[i-1]=0.5; if(i+1<n)R[i+1]=-exp(-y[i+1]); } }
    if(wide()){ J[(n-1)*n]+=0.6*y[0]; J[n-1]+=0.2*cos(y[n-1]); } }
};

