// C19: the linear Rock4 variant against the general method (model step with the general solver's tables), for every number of stages.
#include <cmath>
#include <string>
#include <iostream>
#include "Rock4L.hpp"
#include "rockenv.hpp"
#ifndef PART
#define PART 0
#endif
#if PART==24
#define CONF(ok,...) do{ if(!(ok)) mc::skip(); }while(0)
#else
#define CONF MC_REQUIRE
#endif
using namespace std;
void ng_step(REnv&e,const vector<LD>&y,LD h,int deg,vector<LD>&out,int&used);
struct Lin: REnv { vector<double> A,b; double eig=0; vector<double> dg; // dense A, or diagonal dg
  void mul(const double*x,double*r)const{ if(!dg.empty()){ for(int i=0;i<n;i++) r[i]=dg[i]*x[i]; return; } for(int i=0;i<n;i++){ double s=0; for(int j=0;j<n;j++) s+=A[i*n+j]*x[j]; r[i]=s; } }
  void f(const double*y,double*r)override{ mul(y,r); if(!b.empty()) for(int i=0;i<n;i++) r[i]+=b[i]; } double rho()override{ return eig; } };
struct Op { Lin*e; long calls=0; Op(Lin*q):e(q){} int size()const{ return e->n; } double rho(){ return e->eig; }
  void go(double*in,double*s,double a,double b,double bin,const double*g,double*out){ ++calls; int n=e->n; vector<double> t(n); e->mul(in,t.data()); for(int i=0;i<n;i++) out[i]=a*(t[i]+(g?g[i]:0))+bin*in[i]+b*s[i]; }
  void operator()(double*in,double*s,double a,double b,double*out){ go(in,s,a,b,0,nullptr,out); }
  void operator()(double*in,double*s,double a,double b,double*g,double*out){ go(in,s,a,b,0,g,out); }
  void operator()(double*in,double*s,double a,double b,double c,double*out){ go(in,s,a,c,b,nullptr,out); }
  void operator()(double*in,double*s,double a,double b,double c,double*g,double*out){ go(in,s,a,c,b,g,out); } };
static double zmid(int m){ return m==5? 0.0: 0.353*(m-0.5)*(m-0.5)-3; }
static void start(Lin&e,int kind,int n,double H,double z,vector<double>&y0){ e.n=n; e.A.assign(n*n,0); y0.resize(n); double eig=z/H; e.eig=eig;
  for(int i=0;i<n;i++) y0[i]=cos(1.0+2*i)+ (i%3)*0.3;
  if(kind==0){ double s=min(eig,100/H)/4; for(int i=0;i<n;i++){ e.A[i*n+i]=-2*s; if(i) e.A[i*n+i-1]=s; if(i+1<n) e.A[i*n+i+1]=s; } }
  else if(kind==1){ for(int i=1;i<n;i++) e.A[i*n+i-1]=1/H*(1+0.5*i); } // nilpotent
  else if(kind==2){ e.A.clear(); for(int i=0;i<n;i++) e.dg.push_back(n>1?-eig*i/(n-1):-eig); for(auto&v:y0) v=1; }
  else { double s=min(eig,60/H)/4; for(int i=0;i<n;i++){ e.A[i*n+i]=-2*s; if(i) e.A[i*n+i-1]=1.3*s; if(i+1<n) e.A[i*n+i+1]=0.7*s; } if(n>2) e.A[n-1]=0.05/H; } }
template<bool AFF> struct Call { static void run(odes::Rock4L<Op,AFF>&R,double*y,double*,double t0,double te,double h){ R(y,t0,te,h); } };
template<> struct Call<true>{ static void run(odes::Rock4L<Op,true>&R,double*y,double*b,double t0,double te,double h){ R(y,b,t0,te,h); } };
static bool throwWrong(odes::Rock4L<Op,false>&R,double*y,double*b,double t0,double te,double h){ try{ R(y,b,t0,te,h); }catch(odes::OdesException&){ return true; } return false; }
static bool throwWrong(odes::Rock4L<Op,true>&R,double*y,double*,double t0,double te,double h){ try{ R(y,t0,te,h); }catch(odes::OdesException&){ return true; } return false; }
template<bool AFF> static void doit(){
  static const int NN[8]={5,1,2,3,8,9,17,33}; int kind=mc::choose(4,"operator"); int m=5+mc::choose(148+6,"stages"); mc::shard(); int n=NN[mc::chooseq(m%7==3?8:4,8,"size")];
  static const double HS[4]={1,0.05,1e-3,20}; double H=HS[mc::chooseq(3,4,"h")]; static const double T0[3]={0,5,-2.3}; double t0=T0[mc::chooseq(kind==1?3:1,3,"start")];
  static const double NS[6]={1,3,2.5,1.005,10,0.7}; bool many=kind==1&&m==6&&n==2; int pat=many? mc::choose(206,"interval over h"): mc::chooseq(m<=20||m%9==0?6:3,6,"interval over h"); if(many&&t0<0) t0=-0.513*H; double te=t0+H*(pat<6?NS[pat]:pat<106?0.0371+0.00971*(pat-6):1+0.0437*(pat-106)); if(m>152&&NS[pat]<1) mc::skip();
  double z= m<=152? zmid(m): 0.353*152*152-3+ (m-152)*(m-152)*40; double zz=z; 
  Lin e; vector<double> y0; start(e,kind,n,H,z,y0); if(AFF){ e.b.resize(n); for(int i=0;i<n;i++) e.b[i]=(0.7-0.31*(i%4))/H; }
  mc::describe(mc::fmt("%s operator %d n=%d %d stages h=%g [%g,%.17g]",AFF?"affine":"linear",kind,n,m,H,t0,te));
  Op P(&e); odes::Rock4L<Op,AFF> R(P); double*y=odes::allocDoubleArray(n),*b=odes::allocDoubleArray(n); copy(y0.begin(),y0.end(),y); if(AFF) copy(e.b.begin(),e.b.end(),b);
  CONF(throwWrong(R,y,b,t0,te,H),"wrong-mode","the call for the other kind of problem is not refused");
  { bool same=true; for(int i=0;i<n;i++) if(y[i]!=y0[i]) same=false; CONF(same&&P.calls==0,"wrong-mode","the refused call changed the data"); }
  int times=mc::chooseq(1,2,"calls on the same object")+1; bool threw=false; long before=0; for(int k=0;k<times;k++){ copy(y0.begin(),y0.end(),y); before=P.calls; threw=false; try{ Call<AFF>::run(R,y,b,t0,te,H); }catch(odes::OdesException&){ threw=true; } }
  vector<double> yo(y,y+n); bool bsame=true; if(AFF) for(int i=0;i<n;i++) if(b[i]!=e.b[i]) bsame=false; odes::destroyDoubleArray(y); odes::destroyDoubleArray(b); mc::step(P.calls);
  CONF(bsame,"source-changed","the source term was changed");
  double rem=te-t0; if(m>152){ if(1.01*H>=rem){ } CONF(threw,"too-stiff","a step that needs more than 152 stages is not refused"); bool same=true; for(int i=0;i<n;i++) if(yo[i]!=y0[i]) same=false; CONF(same,"too-stiff","the refused step changed the solution"); mc::outcome(5); mc::validated(); return; }
  CONF(!threw,"fails","an exception"); CONF(R.Time()==te,"end-time","ends at %.17g instead of %.17g",R.Time(),te);
  vector<LD> Y(y0.begin(),y0.end()),Yn; LD t=t0; int steps=0,maxst=0; long calls=0; LD h=H; while((LD)te-t>1e-13L*(fabsl(te)+H)){ LD hh=h; if(1.01L*hh>=te-t) hh=te-t; double st=sqrt((3+(double)hh*e.eig)/0.353)+1; int want=max((int)st,5)-4; if(fabs(st-round(st))<1e-6) { mc::count("ambiguous"); mc::skip(); } int used; ng_step(e,Y,hh,want,Yn,used); Y=Yn; t+=hh; ++steps; maxst=max(maxst,used+4); calls+=used+4; }
  if(PART!=24) MC_REQUIRE(R.NbSteps()==steps,"steps","%d steps reported, the model makes %d",R.NbSteps(),steps);
  double sc=0; for(double v:y0) sc=max(sc,fabs(v)); if(AFF) sc+=rem*fabs(0.7/H); for(LD v:Y) sc=max(sc,(double)fabsl(v));
  double tolr= kind==2&&AFF? 1e-10+3e-17*pow(z,3.4): kind==2? 1e-11: kind==1? 2e-10: 3e-9; tolr+=4e-16*(fabs(t0)+rem)/H*(z+30); // both forms of the method amplify rounding by the size of the second polynomial
  for(int i=0;i<n;i++){ double d=fabs((double)(yo[i]-Y[i]))/sc; mc::countmax("max difference, in thousandths of its limit",1e3*d/tolr); CONF(d<=tolr,"not-the-general-step","component %d: %.15g, general method %.15Lg (%d steps)",i,yo[i],Y[i],steps); }
  MC_REQUIRE(R.NbSteps()==steps,"steps","%d steps reported, the model makes %d",R.NbSteps(),steps); MC_REQUIRE(R.NbStages()==maxst,"stages","%d reported, %d used",R.NbStages(),maxst); MC_REQUIRE(R.NbRhsComputed()==P.calls-before&&P.calls-before==calls,"fcount","%d reported, %ld observed, model %ld",R.NbRhsComputed(),P.calls-before,calls);
  if(kind==1&&pat==0){ // order conditions from first principles: Taylor through order four is exact
    vector<LD> ex(y0.begin(),y0.end()),d(y0.begin(),y0.end()); LD fac=1; for(int k=1;k<=4;k++){ vector<LD> r(n,0); for(int i=0;i<n;i++) for(int j=0;j<n;j++) r[i]+=(LD)e.A[i*n+j]*d[j]; if(AFF&&k==1) for(int i=0;i<n;i++) r[i]+=e.b[i]; d=r; fac*=(LD)rem/k; for(int i=0;i<n;i++) ex[i]+=fac*d[i]; }
    for(int i=0;i<min(n,AFF?4:5);i++) CONF(fabsl(yo[i]-ex[i])<=1e-10L*sc,"order","component %d: %.15g, exact %.15Lg",i,yo[i],ex[i]); mc::eval(n); }
  if(kind==2&&!AFF) for(int i=0;i<n;i++) CONF(fabs(yo[i])<=pow(1.01,steps),"unstable","amplification %.6g",yo[i]);
  uint64_t q=mc::mix(kind,AFF); for(double v:yo) q=mc::hr(q,v); mc::gstate(q); mc::outcome(mc::mix(steps,maxst)); mc::validated(); (void)zz;
}
static void body(){ if(mc::choose(2,"affine")) doit<true>(); else doit<false>(); }
int main(int c,char**v){ return mc::run(c,v,body); }
