// C30: the user's functions are only called inside the interval of integration, and time only moves towards its end.
// METHOD 0: Radau5, 1..3: the Rodas methods.
#if METHOD==0
#define USE_RADAU
#else
#define USE_RODAS
#endif
#include "dev.hpp"
using namespace std;
static double ulp(double a,double b){ double m=max(fabs(a),fabs(b)); return 4*2.3e-16*m+1e-300; }
struct Cfg { double h0,x0,xe,tol; int nmax,opt; bool single,numt; long K; };
struct Mon { double x0,xe,pos,lo,slack; long n=0; double worst=0; };
// a wall: beyond T the right-hand side has no (finite) answer, or jumps
struct Wall: DevEnv { double T=0,pos=1; int wk=-1; long c=0; Wall(int p): DevEnv(p){}
  void f(double t,const double*y,double*r)override{ DevEnv::f(t,y,r); c++; if(wk>=5){ double st[2]; b.start(st); for(int i=0;i<n;i++) r[i]=1/(y[i]-(wk==5?1:0.9)*st[i]); } if(wk<0||wk>=5||!((t-T)*pos>0)) return; for(int i=0;i<n;i++) switch(wk){ case 0: r[i]=NAN; break; case 1: r[i]=c%2?INFINITY:-INFINITY; break; case 2: if(i==n-1) r[i]=NAN; break; case 3: r[i]=1e300; break; default: r[i]=(c+i)%2?1e12:-1e12; } } };
static const char*WN[]={"NaN","infinite","NaN in the last component","1e300","jumps of 1e12","pole at the start","pole ahead"};
template<class S> static void integrate(const Cfg&c,World&w,Wall&e,S&R){
  R.setNmax(c.nmax); R.performOnlyOneStep(c.single);
  if(c.opt==1) R.setGustafssonTest(false); if(c.opt==2) R.setSafe(0.5);
  vector<double> y(e.n); e.b.start(y.data());
  double x=c.x0, pos=c.xe>=c.x0?1:-1, u=ulp(c.x0,c.xe), lo=x;
  w.hook=[&](char k,double t,const double*){
    double over=(t-c.xe)*pos, behind=(lo-t)*pos, s=u; if(c.numt&&k=='F') s+=1.5e-8*sqrt(max(1e-5,fabs(t)));
    MC_REQUIRE(over<=s,"beyond-the-end","call #%ld of %s at t=%.17g: the interval is [%.17g,%.17g]",w.calls-1,k=='F'?"the right-hand side":k=='J'?"the Jacobian":"the time derivative",t,c.x0,c.xe);
    MC_REQUIRE(behind<=s,"behind","call #%ld of %s at t=%.17g: the integration is already at %.17g, towards %.17g",w.calls-1,k=='F'?"the right-hand side":k=='J'?"the Jacobian":"the time derivative",t,lo,c.xe);
    mc::gstate(mc::mix(mc::hr(mc::hr(7,t),lo),k)); };
  int calls= c.single? e.wk>=0? 40: 12: 1; double h=c.h0;
  for(int k=0;k<calls;k++){ bool threw=false; double before=x; long seen=w.calls;
    try{ R(h,x,c.xe,y.data()); }catch(odes::OdesException&){ threw=true; }catch(Horizon&){ mc::count("runs cut at the horizon"); return; }
    MC_REQUIRE((x-before)*pos>=0,"time-goes-back","call %d moved time from %.17g to %.17g, the end is %.17g",k,before,x,c.xe);
    MC_REQUIRE((x-c.xe)*pos<=0,"time-beyond-the-end","call %d moved time from %.17g to %.17g, the end is %.17g",k,before,x,c.xe);
    if(!threw) MC_REQUIRE(x!=before||before==c.xe,"no-advance","single step %d returns without any progress in time, at %.17g, h=%g",k,x,R.getLastTimeStep());
    if(e.wk>=0&&e.wk<3){ MC_REQUIRE((x-e.T)*pos<=u,"through-the-wall","the time is %.17g, the right-hand side cannot be evaluated beyond %.17g",x,e.T); for(int i=0;i<e.n;i++) MC_REQUIRE(std::isfinite(y[i]),"not-finite","the solution at t=%.17g is %g",x,y[i]); MC_REQUIRE(threw||c.single,"no-exception","the integration ends normally although the right-hand side cannot be evaluated beyond %.17g",e.T); if(threw) mc::countmax("-log10 of the distance to the wall, at the exception",(long)-log10(1e-18+fabs(x-e.T))); }
    if(e.wk>=5) for(int i=0;i<e.n;i++) MC_REQUIRE(std::isfinite(y[i]),"not-finite","the solution at t=%.17g is %g",x,y[i]);
    if(!threw&&!c.single) MC_REQUIRE(x==c.xe,"not-at-the-end","the call returned at %.17g instead of %.17g",x,c.xe);
    mc::outcome(mc::mix(mc::hr(3,x),threw)); mc::step(w.calls-seen); lo=x;
    if(threw||x==c.xe) break; h=R.getLastTimeStep(); }
  w.hook=nullptr; }
template<class PR> static void run(const Cfg&c,World&w,Wall&e){
#if METHOD==0
  odes::Radau5cc<PR> R(true,(double*)&c.tol,(double*)&c.tol);
#else
  odes::Rodascc<PR> R(true,(double*)&c.tol,(double*)&c.tol);
#endif
  integrate(c,w,e,R); }
template<int N> static void lay(int l,const Cfg&c,World&w,Wall&e,bool aut){
#if METHOD==0
  (void)aut; if(l==0) run<P<N,N-1,N-1,false,false>>(c,w,e); else run<P<N,N-1,N-1,false,true>>(c,w,e);
#else
  if(aut) switch(l){ case 0: run<P<N,N-1,N-1,false,false,true,false,METHOD>>(c,w,e); break; default: run<P<N,N-1,N-1,false,true,true,false,METHOD>>(c,w,e); }
  else switch(l){ case 0: run<P<N,N-1,N-1,false,false,false,true,METHOD>>(c,w,e); break; default: run<P<N,N-1,N-1,false,true,false,false,METHOD>>(c,w,e); }
#endif
}
static void body(){
  static const double IV[][2]={{0,2},{1,-0.5},{0.1,0.3},{1,0.2},{1e6,1e6+1},{-1,1},{5,5+1e-9},{0.3,-1e5}};
  Cfg c; int p=mc::choose(5,"problem"), iv=mc::choose(8,"interval"), l=mc::choose(2,"jacobian"); c.single=mc::choose(2,"single step"); c.opt=mc::choose(3,"options"); c.tol=mc::choose(2,"tolerance")?1e-3:1e-6;
  c.x0=IV[iv][0]; c.xe=IV[iv][1]; double len=c.xe-c.x0;
  int hk=mc::choose(8,"h0"); const double H[]={0.05,len,len*(1-5e-5),len*(1+1e-9),10*len,-len/3,1e-14,0}; c.h0=H[hk]; c.nmax=mc::thorough()?150:40;
  if(!mc::thorough()){ if(c.opt&&(hk>1||l)) mc::skip(); if(l&&hk%2) mc::skip(); }
  bool aut=p==0||p==1||p==3; c.numt=METHOD>0&&!aut&&l==1;
  Wall e(p); choose_devs(e,mc::thorough()&&hk<2&&!l?2:1,mc::thorough()?30:16,{0,1,2,3,6,7,10,13},3,{100,102,110});
  string wall; if(e.d.empty()&&hk<(mc::thorough()?5:3)&&iv!=6&&mc::choose(2,"wall")){ static const double D[]={0,0,1e-12,0.003,0.03,0.11,0.34}; int q=mc::choose(7,"place of the wall"); e.pos=len>0?1:-1; e.T=q==1?nextafter(c.x0,c.xe):c.x0+e.pos*D[q]*(iv==4||iv==5?1:min(1.0,fabs(len))); e.wk=mc::choose(q?5:7,"beyond the wall"); c.nmax=mc::choose(2,"step limit")?10000:mc::thorough()?150:40; wall=mc::fmt(" beyond %.17g: %s, step limit %d",e.T,WN[e.wk],c.nmax); }
  World w; W()=&w; w.env=&e; w.record=false; w.horizon=e.wk>=0?400000:6000;
  mc::describe(mc::fmt("method %d problem %d [%.17g,%.17g] h0=%.17g jacobian=%d single=%d options %d tolerance %g%s%s",METHOD,p,c.x0,c.xe,c.h0,l,c.single,c.opt,c.tol,e.str().c_str(),wall.c_str()));
  if(e.n==1) lay<1>(l,c,w,e,aut); else lay<2>(l,c,w,e,aut);
  if(mc::G().samples.size()<2&&e.d.size()) mc::sample(mc::G().desc);
}
int main(int c,char**v){ return mc::run(c,v,body); }
