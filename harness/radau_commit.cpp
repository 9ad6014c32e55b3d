// C08: every committed Radau5 step satisfies its stage equations and passed the error test, whatever the Jacobian,
// iteration limit and reuse policy. No model of the controller: accepted points are read off the callback trace.
#define USE_RADAU
#include "dev.hpp"
#include "radau_step.hpp"
using namespace std;
struct Opt { int nit; double thet,fnewt,tol,h0; };
struct Acc { double x; vector<double> y; size_t at; int iters; size_t stage,start; };
template<class PR> static void drive(const Opt&o,double&x,double xe,vector<double>&y,bool&threw,int&nacc){
  double at[1]={o.tol},rt[1]={o.tol}; odes::Radau5cc<PR> R(true,at,rt); R.setMaxIterationsNewton(o.nit); R.setRecomputeJacobianTreshold(o.thet); if(o.fnewt>0) R.setFnewt(o.fnewt); R.setNmax(400);
  try{ R(o.h0,x,xe,y.data()); }catch(odes::OdesException&){ threw=true; } nacc=R.getNaccpt(); }
static void body(){
  int prob=mc::choose(5,"problem"); bool notfinite=mc::choose(2,"what deviates"); static const int NI[6]={7,1,2,3,4,10}; static const double TH[4]={1e-3,-1,0.1,0.9}; static const double TO[3]={1e-4,1e-2,1e-6}; static const double H0[3]={0.05,1.0,1e-3};
  Opt o; o.nit=mc::pick(NI,"nit"); o.thet=mc::pick(TH,"reuse"); o.fnewt=mc::choose(2,"fnewt")?0.01:0; int tk=mc::choose(mc::thorough()?3:2,"tol"); o.tol=TO[tk]; o.h0=H0[mc::choose(mc::thorough()?3:2,"h0")];
  int hess=mc::choose(2,"layout"); if(hess&&(Base::dim(prob)==1||(o.nit>4&&!mc::thorough()))) mc::skip();
  if(notfinite&&((o.nit!=7&&o.nit!=2)||o.thet==0.1||o.thet==0.9||o.fnewt>0)) mc::skip();
  DevEnv e(prob); if(notfinite) choose_devs(e,mc::thorough()?2:1,mc::thorough()?60:150,{6,7,8},0,{100}); else choose_devs(e,mc::thorough()?3:2,0,{0},4,{100,101,102,103,104,110,111,112,113,114});
  World w; W()=&w; w.env=&e; w.horizon=40000; vector<double> y(e.n); e.b.start(y.data()); vector<double> y0=y; double x=0,xe= prob==2?1.0:2.0; bool threw=false; int nacc=0;
  mc::describe(mc::fmt("problem %d nit=%d thet=%g fnewt=%g tol=%g h0=%g hess=%d%s",prob,o.nit,o.thet,o.fnewt,o.tol,o.h0,hess,e.str().c_str()));
  try{ if(e.n==1) drive<P<1,0,0,false,false>>(o,x,xe,y,threw,nacc); else if(!hess) drive<P<2,1,1,false,false>>(o,x,xe,y,threw,nacc); else drive<P<2,1,1,true,false>>(o,x,xe,y,threw,nacc); }catch(Horizon&){ mc::fail("never-stops","40000 calls with a limit of 400 steps"); }
  mc::step(w.tr.size());
  // accepted points: a right-hand-side call at the time where the last stage triple ended
  vector<Acc> A; A.push_back({0,y0,0,0,0,0}); 
  auto&T=w.tr; 
  double curx=0; size_t i=0; bool first=true; double tend=NAN; size_t triples=0,last=0,astart=0; // triples: iterations of the current attempt
  while(i<T.size()){ if(T[i].k=='J'){ i++; continue; }
    if(first){ first=false; i++; continue; }
    if(T[i].t==tend && T[i].t!=curx){ A.push_back({T[i].t,T[i].y,i,(int)triples,last,astart}); curx=T[i].t; tend=NAN; triples=0; i++; continue; }
    if(T[i].t==curx){ i++; continue; } // second error evaluation
    if(i+2>=T.size()) break; size_t a=i,b=i+1; while(b<T.size()&&T[b].k!='F')b++; size_t c=b+1; while(c<T.size()&&T[c].k!='F')c++; if(c>=T.size()) break;
    if(T[c].t!=tend){ triples=0; astart=i; } tend=T[c].t; triples++; last=c; i=c+1; }
  if(!threw) A.push_back({x,y,T.size(),(int)triples,last,astart});
  MC_REQUIRE((int)A.size()-1==nacc,"accepted-points","%zu points were reached, %d accepted steps are reported",A.size()-1,nacc);
  if(threw) { bool same=true; for(int j=0;j<e.n;j++) if(y[j]!=A.back().y[j]) same=false; MC_REQUIRE(same&&x==A.back().x,"state-after-failure","after giving up, solution and time are not the last accepted ones"); }
  double rr=0.1*pow(o.tol,2.0/3),aa=rr; double fn=o.fnewt>0?o.fnewt:max(10*1e-16/rr,min(0.03,sqrt(rr)));
  uint64_t h=1; 
  if(notfinite){ // no step may rest on an answer that is no number, be it of its stages or of its error estimate
    vector<long> fi(T.size()+1,0); for(size_t q=0;q<T.size();q++) fi[q+1]=fi[q]+(T[q].k=='F');
    for(size_t s=1;s<A.size();s++){ bool fin=true; for(double v:A[s].y) if(!isfinite(v)) fin=false; MC_REQUIRE(fin&&isfinite(A[s].x),"not-finite","step %zu from x=%.12g: the solution committed is not finite",s,A[s-1].x);
      for(auto&d:e.d) for(size_t q=0;q<A[s].at&&q<T.size();q++) if(T[q].k=='F'&&fi[q]==d.at&&(q==A[s-1].at||q>=A[s].start))
        mc::fail("not-finite",mc::fmt("step %zu from x=%.12g to %.12g was accepted although the right-hand side answered %s at call %ld (t=%.12g), which its %s",s,A[s-1].x,A[s].x,d.kind==7?"inf":"nan",d.at,T[q].t,q==A[s-1].at||T[q].t==A[s-1].x?"error estimate uses":"stages use"));
      h=mc::hr(mc::hr(h,A[s].x),A[s].y[0]); mc::gstate(h); mc::validated(); }
    mc::outcome(h); mc::count("accepted steps",A.size()-1); if(threw) mc::count("runs that throw"); return; }
  for(size_t s=1;s<A.size();s++){
    LD hh=(LD)A[s].x-A[s-1].x; vector<LD> yy(A[s-1].y.begin(),A[s-1].y.end()),y1,Z; bool conv=false; DevEnv pure(prob);
    bool ok=refstep(pure,A[s-1].x,hh,yy,y1,&Z,&conv); if(!ok||!conv){ mc::count("steps without a reference"); continue; }
    double d=0; for(int j=0;j<e.n;j++){ double q=(double)(A[s].y[j]-y1[j])/(aa+rr*fabs(A[s-1].y[j])); d+=q*q; } d=sqrt(d/e.n);
    // The Newton test extrapolates from the contraction seen earlier; when a step stops after one iteration and the Jacobian
    // handed over changes its error from call to call, that extrapolation promises nothing: such steps are not judged.
    bool steady=e.d.empty()||(e.d.size()==1&&e.d[0].kind>=110&&e.d[0].at==0);
    double lim= A[s].iters>=3? 30: A[s].iters==2? 250: steady? 250: 1e300;
    if(lim<1e299) mc::countmax(A[s].iters>=3?"max defect/newton tolerance x1000, 3 or more iterations":A[s].iters==2?"max defect/newton tolerance x1000, 2 iterations":"max defect/newton tolerance x1000, 1 iteration",1000*d/fn); else mc::count("one-iteration steps under a varying Jacobian (not judged)");
    MC_REQUIRE(d<=lim*fn+1e-6,"committed-unconverged","step %zu from x=%.12g by %.6Lg after %d iterations: the result misses the Radau IIA step by %.3g tolerance units, Newton tolerance %.3g",s,A[s-1].x,hh,A[s].iters,d,fn);
    if(lim<1e299){ // error test: the documented estimate, with the Jacobian in force, from the reference stages
      int n=e.n;
      // the Jacobian in force when the step was committed: the last one asked for before its last stage call
      long jl=-1; const Rec*jr=nullptr; for(size_t q=0,c=0;q<A[s].at&&q<T.size();q++) if(T[q].k=='J'){ if(q<A[s].stage){ jl=(long)c; jr=&T[q]; } c++; }
      DevEnv dj(prob); dj.d=e.d; dj.nj=jl; vector<double> J(n*n),y0d(A[s-1].y),f0(n),g(n); dj.jac(jr->t,jr->y.data(),J.data()); pure.b.f(A[s-1].x,y0d.data(),f0.data());
      static const LD q6=sqrtl(6.0L),E[3]={-(13+7*q6)/3,(-13+7*q6)/3,-1.0L/3},U1=30/(6+cbrtl(81.0L)-cbrtl(9.0L)); vector<LD> M(n*n),b(n),ez(n);
      auto solve=[&](vector<LD>&v){ for(int a=0;a<n*n;a++) M[a]=-J[a]; for(int a=0;a<n;a++) M[a*n+a]+=U1/hh; return lsolve(M,v,n); };
      auto nrm=[&](vector<LD>&v){ LD q=0; for(int a=0;a<n;a++){ LD r=v[a]/(aa+rr*fabs(A[s-1].y[a])); q+=r*r; } return (double)sqrtl(q/n); };
      for(int a=0;a<n;a++){ ez[a]=(E[0]*Z[a]+E[1]*Z[n+a]+E[2]*Z[2*n+a])/hh; b[a]=f0[a]+ez[a]; }
      if(solve(b)){ double e1=nrm(b),e2=e1; if(e1>=1){ vector<double> yp(n); for(int a=0;a<n;a++) yp[a]=(double)(A[s-1].y[a]+b[a]); pure.b.f(A[s-1].x,yp.data(),g.data()); for(int a=0;a<n;a++) b[a]=g[a]+ez[a]; if(solve(b)) e2=nrm(b); }
        double er=min(e1,e2), slack=0.05+15*d; if(er>1) mc::countmax("max excess of the error estimate over 1, in units of the allowed slack x1000",1000*(er-1)/slack); mc::count("error tests judged");
        MC_REQUIRE(er<1+slack,"committed-error","step %zu from x=%.12g by %.6Lg was accepted with an error estimate of %.4g (%.4g with the second evaluation)",s,A[s-1].x,hh,e1,e2); } }
    h=mc::hr(mc::hr(h,A[s].x),A[s].y[0]); mc::gstate(h); mc::validated();
  }
  if(e.d.size()>1) mc::sample(mc::G().desc+mc::fmt(" -> %zu points",A.size()));
  mc::outcome(h); mc::count("accepted steps",A.size()-1); if(threw) mc::count("runs that throw");
}
int main(int c,char**v){ return mc::run(c,v,body); }
