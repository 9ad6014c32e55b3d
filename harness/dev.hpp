// Base problems and the deviation-bounded environment: the explorer chooses at which calls the user's functions
// answer something else than the base problem does.
#pragma once
#include "ode.hpp"
struct Base: Env { int kind=0;
  // 0: y'=-y  1: logistic  2: stiff Prothero-Robinson  3: van der Pol (n=2)  4: linear oscillator with forcing (n=2)
  static int dim(int k){ return k>=3?2:1; }
  void start(double*y){ static const double S[5][2]={{1,0},{0.2,0},{0.5,0},{2,-0.6},{1,0.5}}; for(int i=0;i<n;i++) y[i]=S[kind][i]; }
  void f(double t,const double*y,double*r)override{ switch(kind){ case 0: r[0]=-y[0]; break; case 1: r[0]=3*y[0]*(1-y[0]); break; case 2: r[0]=-200*(y[0]-cos(t))-sin(t); break;
    case 3: r[0]=y[1]; r[1]=((1-y[0]*y[0])*y[1]-y[0])*5; break; default: r[0]=y[1]; r[1]=-9*y[0]-0.2*y[1]+sin(2*t); } }
  void jac(double,const double*y,double*J)override{ switch(kind){ case 0: J[0]=-1; break; case 1: J[0]=3-6*y[0]; break; case 2: J[0]=-200; break;
    case 3: J[0]=0;J[1]=1;J[2]=(-2*y[0]*y[1]-1)*5;J[3]=(1-y[0]*y[0])*5; break; default: J[0]=0;J[1]=1;J[2]=-9;J[3]=-0.2; } }
  void dft(double t,const double*,double*r)override{ switch(kind){ case 0: case 1: r[0]=0; break; case 2: r[0]=-200*sin(t)-cos(t); break; case 3: r[0]=r[1]=0; break; default: r[0]=0; r[1]=2*cos(2*t); } }
};
struct Dev { long at; int kind; };          // at: index of the F call (kinds <100) or of the J call (kinds >=100)
struct DevEnv: Env { Base b; vector<Dev> d; long nf=0,nj=0;
  DevEnv(int kind){ b.kind=kind; b.n=n=Base::dim(kind); }
  void restart(){ nf=nj=0; }
  void f(double t,const double*y,double*r)override{ b.f(t,y,r); long c=nf++;
    for(auto&e:d) if(e.kind<100){ bool hit= e.kind>=10? c>=e.at : c==e.at; if(hit) for(int i=0;i<n;i++) switch(e.kind%10){ case 0: r[i]*=3; break; case 1: r[i]=-r[i]; break; case 2: r[i]+=1; break; case 3: r[i]*=200; break; case 4: r[i]=0; break; case 5: r[i]*=1.02; break; case 6: r[i]=NAN; break; case 7: r[i]=INFINITY; break; case 8: if(i==n-1) r[i]=NAN; break; } } }
  void jac(double t,const double*y,double*J)override{ b.jac(t,y,J); long c=nj++;
    for(auto&e:d) if(e.kind>=100){ bool hit= e.kind>=110? c>=e.at : c==e.at; if(hit) for(int i=0;i<n*n;i++) switch(e.kind%10){ case 0: J[i]=0; break; case 1: J[i]*=2; break; case 2: J[i]=-J[i]; break; case 3: J[i]*=0.6; break; case 4: J[i]*=1.3; break; } } }
  void dft(double t,const double*y,double*r)override{ b.dft(t,y,r); }
  string str()const{ string s; for(auto&e:d) s+=mc::fmt(" dev(%s#%ld,kind %d)",e.kind>=100?"J":"F",e.at,e.kind); return s; }
};
// up to maxdev deviations: F call index < K with kinds FK, J call index < KJ with kinds JK
inline void choose_devs(DevEnv&e,int maxdev,int K,const vector<int>&FK,int KJ,const vector<int>&JK){
  long lo=0; int slots=K*(int)FK.size(), js=KJ*(int)JK.size();
  for(int k=0;k<maxdev;k++){
    // slot 0: stop ; 1..: F deviations at or after the last one, then J deviations
    int v=mc::choose(1+slots+js-(int)lo,"deviation"); if(k==0) mc::shard();
    if(v==0) break; v=v-1+(int)lo; lo=v+1;
    if(v<slots) e.d.push_back({v/(long)FK.size(),FK[v%FK.size()]}); else { v-=slots; e.d.push_back({v/(long)JK.size(),JK[v%JK.size()]}); }
  } }
