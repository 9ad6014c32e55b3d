// C31: what the user's functions are handed. METHOD 0: Radau5, 1..3: the Rodas methods.
// A Jacobian or a time derivative is asked for at the point reached, and the derivative handed over is, bit for bit, what the
// right-hand side answered there; the answer goes to an array of its own and its old contents do not matter.
#if METHOD==0
#define USE_RADAU
#else
#define USE_RODAS
#endif
#include "dev.hpp"
using namespace std;
struct Cfg { double h0,x0,xe,tol,thet; int nmax,opt; bool single; };
static string vec(const double*y,int n){ string s; for(int i=0;i<n;i++) s+=mc::fmt("%s%.17g",i?",":"",y[i]); return s; }
template<class S> static void integrate(const Cfg&c,World&w,DevEnv&e,S&R){
  R.setNmax(c.nmax); R.performOnlyOneStep(c.single);
#if METHOD==0
  if(c.thet) R.setRecomputeJacobianTreshold(c.thet);
  if(c.opt==2) R.setMaxIterationsNewton(2);
#endif
  if(c.opt==1) R.setSafe(0.5);
  const int n=e.n; vector<double> y(n); e.b.start(y.data()); double x=c.x0; string bad,key;
  struct Call { double t; vector<double> y,r; }; vector<Call> L; // the calls of the right-hand side since the point reached was first seen
  vector<double> base(n); double bt=0; bool have=false; vector<double> pos=y; double pt=x; long nj=0;
  auto same=[&](const double*a,const double*b){ return !memcmp(a,b,8*n); };
  w.args=[&](char k,double t,const double*yy,const double*b){ if(!bad.empty()) return;
    auto fail=[&](const char*kk,string m){ key=kk; bad=m; };
    switch(k){
      case 'F': if(llabs(b-yy)<n) fail("overlap",mc::fmt("call #%ld: the answer overlaps the argument",w.calls-1)); { double*r=const_cast<double*>(b); for(int i=0;i<n;i++) r[i]=1e300; } // what was there does not matter
        if(!bad.empty()) break; for(int i=0;i<n;i++) if(yy[i]==1e300) fail("overlap",mc::fmt("call #%ld: writing the answer changes the argument",w.calls-1)); break;
      case 'R': L.push_back({t,vector<double>(yy,yy+n),vector<double>(b,b+n)}); if(L.size()>400) L.erase(L.begin(),L.begin()+200); break;
      case 'J': case 'T': { ++nj; const Call*f=nullptr; for(size_t i=L.size();i-->0;) if(L[i].t==t&&same(L[i].y.data(),yy)){ f=&L[i]; break; }
        if(!f&&k=='J'){ fail("elsewhere",mc::fmt("call #%ld: %s at t=%.17g y=(%s), where the right-hand side was not evaluated",w.calls-1,k=='J'?"Jacobian":"time derivative",t,vec(yy,n).c_str())); break; }
        if(c.single&&(t!=pt||!same(yy,pos.data()))) fail("not-current",mc::fmt("call #%ld: %s at t=%.17g y=(%s); the point reached is t=%.17g y=(%s)",w.calls-1,k=='J'?"Jacobian":"time derivative",t,vec(yy,n).c_str(),pt,vec(pos.data(),n).c_str()));
        // points only move forward: never back to an earlier one
        if(have&&(t-bt)*(c.xe-c.x0)<0) fail("not-current",mc::fmt("call #%ld: %s at t=%.17g after one at %.17g",w.calls-1,k=='J'?"Jacobian":"time derivative",t,bt));
        if(have&&t==bt&&!same(base.data(),yy)) fail("not-current",mc::fmt("call #%ld: at t=%.17g asked with y=(%s) after y=(%s)",w.calls-1,t,vec(yy,n).c_str(),vec(base.data(),n).c_str()));
        have=true; bt=t; base.assign(yy,yy+n);
        if(k=='J'&&!same(b,f->r.data())) fail("derivative",mc::fmt("call #%ld: Jacobian at t=%.17g y=(%s) is handed Fy=(%s), the right-hand side answered (%s) there",w.calls-1,t,vec(yy,n).c_str(),vec(b,n).c_str(),vec(f->r.data(),n).c_str()));
        mc::gstate(mc::mix(mc::hr(mc::hr(mc::hr(7,t),yy[0]),b?b[0]:0),k)); mc::validated(); } } };
  int calls=c.single?10:1; double h=c.h0;
  for(int k=0;k<calls;k++){ bool threw=false; pt=x; pos=y; have=false; long seen=w.calls;
    try{ R(h,x,c.xe,y.data()); }catch(odes::OdesException&){ threw=true; }catch(Horizon&){ threw=true; mc::count("runs cut at the horizon"); }
    MC_REQUIRE(bad.empty(),key.c_str(),"%s",bad.c_str()); mc::outcome(mc::mix(mc::hr(3,x),nj)); mc::step(w.calls-seen);
    if(threw||x==c.xe) break; h=R.getLastTimeStep(); }
  w.args=nullptr; }
template<class PR> static void run(const Cfg&c,World&w,DevEnv&e){
#if METHOD==0
  odes::Radau5cc<PR> R(true,(double*)&c.tol,(double*)&c.tol);
#else
  odes::Rodascc<PR> R(true,(double*)&c.tol,(double*)&c.tol);
#endif
  integrate(c,w,e,R); }
template<int N> static void lay(int l,const Cfg&c,World&w,DevEnv&e,bool aut){
#if METHOD==0
  (void)aut; switch(l){ case 0: run<P<N,N-1,N-1,false,false>>(c,w,e); break; case 1: run<P<N,N-1,N-1,true,false>>(c,w,e); break; default: run<P<N,N-1,N-1,false,true>>(c,w,e); }
#else
  if(aut) switch(l){ case 0: case 1: run<P<N,N-1,N-1,false,false,true,false,METHOD>>(c,w,e); break; default: run<P<N,N-1,N-1,false,true,true,false,METHOD>>(c,w,e); }
  else switch(l){ case 0: run<P<N,N-1,N-1,false,false,false,true,METHOD>>(c,w,e); break; case 1: run<P<N,N-1,N-1,false,false,false,false,METHOD>>(c,w,e); break; default: run<P<N,N-1,N-1,false,true,false,true,METHOD>>(c,w,e); }
#endif
}
static void body(){
  static const double IV[][2]={{0,2},{1,-0.5},{-1,1},{1e4,1e4+1}};
  Cfg c; int p=mc::choose(5,"problem"), iv=mc::choose(4,"interval"), l=mc::choose(3,"jacobian"); c.single=mc::choose(2,"single step"); c.opt=mc::choose(METHOD?2:3,"options"); c.tol=mc::choose(2,"tolerance")?1e-3:1e-6;
  c.thet=0; if(METHOD==0) c.thet=mc::choose(2,"Jacobian at every step")?-1:0;
  bool aut=p==0||p==1||p==3; if(METHOD&&aut&&l==1) mc::skip();
  c.x0=IV[iv][0]; c.xe=IV[iv][1]; static const double H[]={0.05,1,-0.3}; c.h0=H[mc::choose(3,"h0")]; c.nmax=mc::thorough()?200:60;
  DevEnv e(p); choose_devs(e,mc::thorough()&&iv<2&&!c.opt?2:1,mc::thorough()?40:24,{0,1,2,3,6,10,13},3,{100,102,110,112});
  World w; W()=&w; w.env=&e; w.record=false; w.horizon=6000;
  mc::describe(mc::fmt("method %d problem %d [%g,%g] h0=%g jacobian=%d thet=%g single=%d options %d tolerance %g%s",METHOD,p,c.x0,c.xe,c.h0,l,c.thet,c.single,c.opt,c.tol,e.str().c_str()));
  if(e.n==1) lay<1>(l,c,w,e,aut); else lay<2>(l,c,w,e,aut);
  if(mc::G().samples.size()<2&&e.d.size()) mc::sample(mc::G().desc);
}
int main(int c,char**v){ return mc::run(c,v,body); }
