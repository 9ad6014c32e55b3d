// Gauss collocation in quadruple precision: nodes from the Legendre polynomial, coefficients by exact quadrature.
#pragma once
#include <vector>
#include <cmath>
typedef __float128 Q; typedef long double LD;
inline Q qabs(Q x){ return x<0?-x:x; }
inline Q qsqrt(Q x){ if(x<=0) return 0; Q r=sqrtl((LD)x); for(int i=0;i<3;i++) r=(r+x/r)/2; return r; }
inline Q qsin(Q x){ Q t=x,s=x; for(int k=1;k<60;k++){ t*=-x*x/((2*k)*(2*k+1)); s+=t; } return s; }
struct GaussRef { int s; std::vector<Q> c,b,a; // a[i*s+j]
  explicit GaussRef(int n):s(n),c(n),b(n),a(n*n){
    for(int i=0;i<n;i++){ Q x=cosl(acosl(-1.0L)*(n-i-0.25L)/(n+0.5L)),d=0; for(int it=0;it<8;it++){ Q p0=1,p1=x; for(int k=2;k<=n;k++){ Q p=((2*k-1)*x*p1-(k-1)*p0)/k; p0=p1; p1=p; } d=n*(x*p1-p0)/(x*x-1); x-=p1/d; } c[i]=(1+x)/2; b[i]=1/((1-x*x)*d*d); }
    for(int i=0;i<n;i++) for(int j=0;j<n;j++) a[i*n+j]=integral(j,c[i]); }
  Q lag(int j,Q x) const { Q r=1; for(int m=0;m<s;m++) if(m!=j) r*=(x-c[m])/(c[j]-c[m]); return r; }
  Q integral(int j,Q x) const { Q r=0; for(int k=0;k<s;k++) r+=b[k]*lag(j,x*c[k]); return r*x; } };
inline const GaussRef& gaussref(int n){ static std::vector<GaussRef*> t(40,nullptr); if(!t[n]) t[n]=new GaussRef(n); return *t[n]; }
