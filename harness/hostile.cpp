// C09: every integration stops, within the step limit, whatever the user's functions answer. METHOD 0: Radau5, 1..3: Rodas.
#if METHOD
#define USE_RODAS
#else
#define USE_RADAU
#endif
#include "ode.hpp"
#include "envs.hpp"
using namespace std;
#if METHOD
template<class PR> using Solver=odes::Rodascc<PR>;
#else
template<class PR> using Solver=odes::Radau5cc<PR>;
#endif
static const int NA=14; static const char*AN[NA]={"NaN","infinite","1e300","sign flipped","alternating 1e3","times 1e6","step in time","zero","blow-up","hash of the arguments","NaN in the last component","1e-300","square root of a negative","tends to the floating-point limit"};
static const int NJK=8; static const char*JN[NJK]={"zero","NaN","negated","times 1e300","all ones","infinite","identity times 1e8","times 1e-9"};
struct Dev2 { int what,at,dur; }; // what <100: right-hand side; >=100: Jacobian; dur 0 one call, 1 three calls, 2 from then on
struct Host: Env { NonEnv b; vector<Dev2> d; long nf=0,nj=0;
  static bool hit(long c,const Dev2&e){ return c>=e.at&&(e.dur==2||c<e.at+(e.dur==1?3:1)); }
  void f(double t,const double*y,double*r)override{ b.n=n; b.f(t,y,r); long c=nf++;
    for(auto&e:d) if(e.what<100&&hit(c,e)) for(int i=0;i<n;i++) switch(e.what){ case 0: r[i]=NAN; break; case 1: r[i]=c%2?INFINITY:-INFINITY; break; case 2: r[i]=1e300; break; case 3: r[i]=-r[i]; break; case 4: r[i]=(c+i)%2?1e3:-1e3; break; case 5: r[i]*=1e6; break; case 6: r[i]+=t>0.31?1e4:-1e4; break; case 7: r[i]=0; break; case 8: r[i]=1e3*y[i]*y[i]*y[i]+1; break;
      case 9: { uint64_t h=mc::hd(5,t); for(int k=0;k<n;k++) h=mc::hd(h,y[k]); r[i]=((double)(mc::mix(h,i)%2000001)/1e6-1)*50; break; } case 10: if(i==n-1) r[i]=NAN; break; case 11: r[i]=1e-300; break; case 12: r[i]=sqrt(y[i]-0.5); break; case 13: r[i]=1e154*y[i]; break; } }
  void jac(double t,const double*y,double*J)override{ b.n=n; b.jac(t,y,J); long c=nj++;
    for(auto&e:d) if(e.what>=100&&hit(c,e)) for(int i=0;i<n*n;i++) switch(e.what-100){ case 0: J[i]=0; break; case 1: J[i]=NAN; break; case 2: J[i]=-J[i]; break; case 3: J[i]*=1e300; break; case 4: J[i]=1; break; case 5: J[i]=INFINITY; break; case 6: J[i]=i%(n+1)==0?1e8:0; break; case 7: J[i]*=1e-9; break; } } 
  void dft(double t,const double*y,double*r)override{ b.n=n; b.dft(t,y,r); } };
template<int N,int SUB,int SUP,bool HS,bool NJ,bool AUT> static void doit(const char*lay){
  typedef P<N,SUB,SUP,HS,NJ,AUT,false,METHOD> PR; const bool TH=mc::thorough(); Host e; e.n=N; e.b.full=SUB==N-1&&SUP==N-1; e.b.kind=AUT?2:mc::choose(2,"problem");
  static const int NM[5]={1,2,5,40,300}; int nmax=NM[mc::choose(5,"step limit")]; int ik=mc::choose(4,"interval"); static const double X0[4]={0,1,0,1e10},XE[4]={1,0.2,1e-10,1e10+1}; double x0=X0[ik],xe=XE[ik]; static const double H[7]={0.1,0,1e-8,1e300,-0.1,1e-320,0.9}; double h0=H[mc::choose(TH?7:nmax==40?7:3,"h0")];
  int tol=mc::choose(TH?3:2,"tolerance"); double at[1]={tol==0?1e-4:tol==1?1e-9:1e2},rt[1]={tol==0?1e-4:tol==1?1e-8:1e-3};
  int ok=mc::choose(METHOD?2:3,"options"); if(!TH&&ok&&h0!=0.1) mc::skip(); mc::shard();
  static const int AT[10]={0,1,2,5,9,14,22,33,52,90}; int lo=0; const int per=3,F=10*NA*per,JJ=NJ?0:3*NJK*per; int maxd=(TH?nmax<=40:nmax==5)&&ik<2&&h0==0.1&&tol==0&&ok==0?2:1;
  string ds; for(int k=0;k<maxd;k++){ // the second deviation of a pair: coarser places, lasting or single
    int v; if(k==0) v=mc::choose(1+F+JJ,"deviation"); else { v=mc::choose(1+5*NA*2+(NJ?0:2*NJK),"second deviation"); if(v){ int q=v-1; if(q<5*NA*2) v=1+((q/(NA*2))*2*NA+(q/2)%NA)*per+(q%2?2:0); else { q-=5*NA*2; v=1+F+((q/NJK)*NJK+q%NJK)*per+2; } } }
    if(v==0) break; v--; Dev2 D; if(v<F){ D.dur=v%per; D.what=(v/per)%NA; D.at=AT[v/per/NA]; ds+=mc::fmt(" F#%d%s: %s;",D.at,D.dur==0?"":D.dur==1?"..+2":" on",AN[D.what]); } else { v-=F; D.dur=v%per; D.what=100+(v/per)%NJK; D.at=v/per/NJK; ds+=mc::fmt(" J#%d%s: %s;",D.at,D.dur==0?"":D.dur==1?"..+2":" on",JN[D.what-100]); } e.d.push_back(D); }
  World w; W()=&w; w.env=&e; w.record=false; int nit=7; mc::describe(mc::fmt("%s%d %s problem %d [%.11g,%.11g] h0=%g tolerance %g step limit %d options %d:%s",METHOD?"rodas":"radau",METHOD,lay,e.b.kind,x0,xe,h0,at[0],nmax,ok,ds.c_str()));
  Solver<PR> R(true,at,rt); R.setNmax(nmax); 
#if METHOD
  if(ok==1) R.setGustafssonTest(false); const long per1=5+2+N,extra=2+N;
#else
  if(ok==1){ R.setRecomputeJacobianTreshold(-1); R.setMaxIterationsNewton(nit=3); } if(ok==2){ R.setGustafssonTest(false); R.setMaxIterationsNewton(nit=12); R.setRecomputeJacobianTreshold(0.5); } const long per1=3*nit+3+N,extra=2+N;
#endif
  long bound=nmax*per1+extra; w.horizon=bound+5; vector<double> y(N); for(int i=0;i<N;i++) y[i]=0.4+0.3*i; double x=x0; int out=0; try{ R(h0,x,xe,y.data()); }catch(odes::OdesException&){ out=1; }catch(Horizon&){ out=2; } mc::step(w.calls);
  MC_REQUIRE(out!=2&&w.calls<=bound,"step-limit","more than %ld calls for at most %d steps",bound,nmax); 
#if METHOD
  if(!NJ&&AUT){ long att=(w.nF-w.nJ)/5; MC_REQUIRE(att<=nmax,"step-limit","%ld steps attempted",att); MC_REQUIRE(w.nJ<=nmax+1,"step-limit","%ld Jacobians",w.nJ); }
#else
  MC_REQUIRE(R.getNdec()<=nmax+1&&R.getNaccpt()<=nmax,"step-limit","%d factorizations, %d accepted steps",R.getNdec(),R.getNaccpt());
#endif
  if(out==0) MC_REQUIRE(x==xe,"returns-early","returns at %.17g without an exception",x);
  else { MC_REQUIRE((x-x0)*(xe-x0)>=0&&(xe-x)*(xe-x0)>=0,"outside","the time %.17g is outside of the interval",x); if(x!=x0&&e.d.empty()) for(double v:y) MC_REQUIRE(std::isfinite(v),"outside","not finite"); }
  mc::count(out?"ends with an exception":"returns"); mc::state(mc::mix(out,w.calls)); mc::outcome(mc::mix(w.calls,out)); mc::validated(); if(out==1&&e.d.size()>1) mc::sample(mc::G().desc+mc::fmt(" exception at t=%g after %ld calls",x,w.calls)); }
int main(int c,char**v){ return mc::run(c,v,[]{ switch(mc::choose(5,"layout")){ case 0: doit<1,0,0,false,false,true>("n=1"); break; case 1: doit<2,1,1,false,true,false>("n=2 differences"); break; case 2: doit<3,2,2,true,false,true>("n=3 hessenberg"); break; case 3: doit<3,1,1,false,false,false>("n=3 banded"); break; default: doit<4,1,1,false,true,true>("n=4 banded differences"); } }); }
