// C33: Rock4 and its linear variant against hostile answers (not finite, huge, negative) of the right-hand side and the spectral radius.
// PART 0: Rock4; 1: the linear variant (spectral radii only: it has no error control).
#define LOGROCK4
#include "rockenv.hpp"
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
using namespace std;
static const int NF=11; static const char*FN[NF]={"NaN","infinite","NaN in the last component","1e300","alternating infinite and NaN","negated 1e300","-infinite in the first component","root of a negative beyond a wall","1e-310","pole at the start","pole ahead"};
static const int NR=11; static const double RV[NR]={NAN,INFINITY,-INFINITY,-5,-1e300,0,1e300,1e19,3e18,1e-300,1e10};
static bool finite(const double*y,int n){ for(int i=0;i<n;i++) if(!std::isfinite(y[i])) return false; return true; }
#if PART==0
#include "Rock4.hpp"
struct Dev{ long at; int kind; bool on; };
struct Host: REnv { RBase b; vector<Dev> d; long nf=0,nr=0; double wall=INFINITY,st[8];
  void f(const double*y,double*r)override{ b.f(y,r); long c=nf++; for(auto&e:d) if(e.kind<100&&(e.on?c>=e.at:c==e.at)) for(int i=0;i<n;i++) switch(e.kind){ case 0: r[i]=NAN; break; case 1: r[i]=INFINITY; break; case 2: if(i==n-1) r[i]=NAN; break; case 3: r[i]=1e300; break; case 4: r[i]=c%2?NAN:INFINITY; break; case 5: r[i]*=-1e300; break; case 6: if(!i) r[i]=-INFINITY; break; case 7: if(y[0]<wall) r[i]+=0*sqrt(y[0]-wall); break; case 8: r[i]=1e-310; break; case 9: r[i]=1/(y[i]-st[i]); break; default: r[i]=1/(y[i]-0.9*st[i]); } }
  double rho()override{ double v=b.rho(); long c=nr++; for(auto&e:d) if(e.kind>=100&&(e.on?c>=e.at:c==e.at)) v=RV[e.kind-100]; return v; } };
static void body(){
  int prob=mc::choose(6,"problem"); const bool TH=mc::thorough(); double tol=mc::choose(2,"tolerance")?1e-3:1e-6; static const double H0[9]={0.05,1e-5,1.0,20,0,-0.1,NAN,1e300,1e-16}; double h0=H0[mc::choose(9,"h0")]; if(!mc::thorough()&&!(h0>=1e-5)) tol=1e-3; int iv=mc::choose(3,"interval"); static const double T0[3]={0,-1.25,1000}; double t0=T0[iv],te=t0+(iv?0.4:2);
  Host e; e.b.kind=prob; e.b.n=e.n=RBase::dim(prob); const int K=TH?40:24,KR=TH?5:3; int maxd= TH&&iv==0? 2: 1; string ds; long lo=0; int slots=K*NF*2,js=KR*NR*2;
  for(int k=0;k<maxd;k++){ int v=mc::choose(1+slots+js-(int)lo,"deviation"); if(k==0) mc::shard(); if(v==0) break; v=v-1+(int)lo; lo=v+1; Dev D; if(v<slots){ D.on=v%2; D.kind=(v/2)%NF; D.at=v/2/NF; ds+=mc::fmt(" F#%ld%s: %s;",D.at,D.on?" on":"",FN[D.kind]); } else { v-=slots; D.on=v%2; D.kind=100+(v/2)%NR; D.at=v/2/NR; ds+=mc::fmt(" rho#%ld%s: %g;",D.at,D.on?" on":"",RV[D.kind-100]); } e.d.push_back(D); if(k==0&&maxd==2&&(v/2)%3) break; }
  double*y=odes::allocDoubleArray(e.n); e.b.start(y); e.wall=y[0]*0.7; for(int i=0;i<e.n;i++) e.st[i]=y[i]; vector<double> y0(y,y+e.n);
  RWorld w; w.env=&e; w.record=false; w.horizon=20000; map<vector<double>,bool> good; good[y0]=true; // points where the right-hand side was evaluated: was the answer finite?
  const double*lastin=nullptr; struct Wr: REnv { Host*h; map<vector<double>,bool>*g; void f(const double*y,double*r)override{ h->f(y,r); bool ok=finite(r,n)&&finite(y,n); vector<double> k(y,y+n); if(ok) (*g)[k]=true; } double rho()override{ return h->rho(); } } wr; wr.n=e.n; wr.h=&e; wr.g=&good; w.env=&wr; (void)lastin;
  mc::describe(mc::fmt("problem %d tolerance %g h0=%g [%g,%g]:%s",prob,tol,h0,t0,te,ds.c_str()));
  RProb P(&w); odes::Rock4<RProb> R(P); R.setTolerances(tol,tol); bool threw=false,inf=false; try{ R(y,t0,te,h0); }catch(odes::OdesException&){ threw=true; }catch(Horizon&){ inf=true; }
  vector<double> yo(y,y+e.n); mc::step(w.calls); mc::gstate(mc::mix(w.calls,threw)); 
  MC_REQUIRE(finite(yo.data(),e.n),"not-finite","the solution is not finite (%g), %s",yo[0],threw?"after an exception":inf?"in an integration that goes on":"after a normal return");
  MC_REQUIRE(good.count(yo),"not-accepted","the solution returned is not a point where the right-hand side answered a finite value");
  double ts=t0; int na=0; { istringstream is(R.Log().tostring()); string ln; while(getline(is,ln)) if(ln.find("success")!=string::npos){ ++na; double tn=atof(strstr(ln.c_str(),"Time:")+5); MC_REQUIRE(std::isfinite(tn)&&tn>=ts-1e-5*(1+fabs(ts)),"no-advance","an accepted step goes from %.17g to %.17g",ts,tn); MC_REQUIRE(tn<=te+1e-5*(1+fabs(te)),"outside","an accepted step goes to %.17g",tn); ts=tn; } }
  if(!inf){ MC_REQUIRE(na==R.NbAccepted(),"log","%d accepted steps, %d in the log",R.NbAccepted(),na); if(!threw) MC_REQUIRE(fabs(ts-te)<=1e-5*(1+fabs(te)),"returns-early","returns normally, the last accepted step ends at %.17g",ts); if(!threw) MC_REQUIRE(R.NbStages()<=152&&R.NbStages()>=5,"stages","%d stages",R.NbStages()); }
  if(e.d.size()==1) for(auto&D:e.d) if(D.kind>=100&&D.at==0&&RV[D.kind-100]>=1e10) MC_REQUIRE((threw&&na==0)||inf||R.NbStages()==152,"too-few-stages","a spectral radius of %g and %d stages",RV[D.kind-100],R.NbStages());
  bool persist=false,harm=false; for(auto&D:e.d){ if(D.on) persist=true; if(D.kind<100&&D.kind!=8) harm=true; }
  if(inf){ mc::count("runs cut at the horizon"); MC_REQUIRE(persist||e.d.empty(),"never-stops","%ld calls and no end although a single answer was wrong",w.calls); }
  else if(!threw&&!e.d.empty()&&!persist&&w.calls<15000){ // a single unusable answer costs accuracy at most in proportion to the tolerance
    bool nonfin=true; for(auto&D:e.d) if(D.kind>=100||D.kind>=7) nonfin=false; if(nonfin){ Host e2; e2.b.kind=prob; e2.b.n=e2.n=e.n; RWorld w2; w2.env=&e2; w2.record=false; RProb P2(&w2); odes::Rock4<RProb> R2(P2); R2.setTolerances(1e-10,1e-10); double*z=odes::allocDoubleArray(e.n); e2.b.start(z); R2(z,t0,te,1e-3); double wst=0; for(int i=0;i<e.n;i++) wst=max(wst,fabs(z[i]-yo[i])); odes::destroyDoubleArray(z); mc::countmax("worst error over tolerance",(long)(wst/tol)); MC_REQUIRE(wst<=200*tol,"inaccurate","error %g at the end",wst); mc::count("accuracies judged"); } }
  odes::destroyDoubleArray(y);
  (void)harm; mc::count(threw?"ends with an exception":inf?"cut":"returns"); mc::outcome(mc::mix(w.calls,threw*2+inf)); mc::validated(); if(threw&&!e.d.empty()) mc::sample(mc::G().desc); }
#else
#include "Rock4L.hpp"
struct Op { int n; double s; double r; int asked=0; long calls=0; int size()const{ return n; } double rho(){ ++asked; return r; }
  void go(const double*in,const double*sv,double a,double b,double bin,const double*g,double*out){ ++calls; double t[40]; for(int i=0;i<n;i++) t[i]=s*((i?in[i-1]:0)-2*in[i]+(i+1<n?in[i+1]:0)); for(int i=0;i<n;i++) out[i]=a*(t[i]+(g?g[i]:0))+bin*in[i]+b*sv[i]; }
  void operator()(double*in,double*s,double a,double b,double*out){ go(in,s,a,b,0,nullptr,out); } void operator()(double*in,double*s,double a,double b,double*g,double*out){ go(in,s,a,b,0,g,out); }
  void operator()(double*in,double*s,double a,double b,double c,double*out){ go(in,s,a,c,b,nullptr,out); } void operator()(double*in,double*s,double a,double b,double c,double*g,double*out){ go(in,s,a,c,b,g,out); } };
static void body(){ static const double SV[6]={1,100,8156,8161,1e6,1e-3}; static const double HV[7]={1,0.5,0.1,1e-3,1e-20,-1,NAN}; static const int NN[4]={1,2,8,33};
  Op f; f.n=NN[mc::choose(4,"size")]; f.s=SV[mc::choose(6,"operator")]; int rk=mc::choose(NR+1,"spectral radius"); f.r=rk<NR?RV[rk]:4*f.s; double h=HV[mc::choose(7,"h")]; int aff=mc::choose(2,"affine"); double te=mc::choose(2,"interval")?3:1; mc::shard();
  mc::describe(mc::fmt("%s n=%d s=%g rho=%g h=%g [0,%g]",aff?"affine":"linear",f.n,f.s,f.r,h,te));
  double*y=odes::allocDoubleArray(f.n),*b=odes::allocDoubleArray(f.n); vector<double> y0(f.n); for(int i=0;i<f.n;i++){ y[i]=y0[i]=1-0.1*i; b[i]=0.3; } bool threw=false;
  if(!(h!=h)&&te/h>4e3){ odes::destroyDoubleArray(y); odes::destroyDoubleArray(b); mc::skip(); }
  try{ if(aff){ odes::Rock4L<Op,true> R(f); R(y,b,0,te,h); } else { odes::Rock4L<Op,false> R(f); R(y,0,te,h); } }catch(odes::OdesException&){ threw=true; }
  // a step that needs more stages than there are, or a step or a radius that means nothing, is an exception before anything is computed
  double hh=1.01*h>=te?te:h; bool bad=!(hh>=1e-15)||!(f.r>=0)||!(sqrt((3+hh*f.r)/0.353)+1<153); double q=sqrt((3+hh*f.r)/0.353)+1; bool close=fabs(q-153)<1e-9; bool neg=f.r<0&&hh*f.r>=-3; // small negative products: either
  if(!close&&!neg&&f.r>=0){ MC_REQUIRE(!bad||threw,"not-reported","a step of %g with spectral radius %g is made",hh,f.r); MC_REQUIRE(bad||!threw,"refused","a step of %g with spectral radius %g is refused",hh,f.r); }
  else if(!(f.r>=0)&&!neg) MC_REQUIRE(threw,"not-reported","a step of %g with spectral radius %g is made",hh,f.r);
  if(threw){ MC_REQUIRE(memcmp(y,y0.data(),8*f.n)==0&&f.calls==0,"state","an exception, but the operator was applied %ld times",f.calls); }
  else if(f.r>=4*f.s) MC_REQUIRE(finite(y,f.n),"not-finite","the result is %g",y[0]);
  mc::state(mc::mix(rk,mc::hd(3,hh))); mc::outcome(mc::mix(threw,f.calls)); mc::step(f.calls+1); mc::validated(); mc::count(threw?"reported":"computed"); if(rk==7) mc::sample(mc::G().desc); odes::destroyDoubleArray(y); odes::destroyDoubleArray(b); }
#endif
int main(int c,char**v){ return mc::run(c,v,body); }
