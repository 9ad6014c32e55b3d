// C28: call-by-call conformance of Rock4 with an independent model of its error control, under deviating user functions.
#define LOGROCK4
#ifndef PART
#define PART 0
#endif
#if PART==24
#define CONF(ok,...) do{ if(!(ok)) mc::skip(); }while(0)
#else
#define CONF MC_REQUIRE
#endif
#include "rock_ref.hpp"
#include "Rock4.hpp"
using namespace std;
struct Dev{ long at; int kind; };
// F kinds: 0..5 single, 10..15 sustained ; rho kinds: 100 x100, 101 x0.02, 102 x1e5, 103 zero (single), 110..113 sustained
struct DevEnv: REnv { RBase b; vector<Dev> d; long nf=0,nr=0; DevEnv(int k){ b.kind=k; b.n=n=RBase::dim(k); }
  void f(const double*y,double*r)override{ b.f(y,r); long c=nf++; for(auto&e:d) if(e.kind<100){ bool hit=e.kind>=10? c>=e.at: c==e.at; if(hit) for(int i=0;i<n;i++) switch(e.kind%10){ case 0: r[i]*=3; break; case 1: r[i]=-r[i]; break; case 2: r[i]+=1; break; case 3: r[i]*=200; break; case 4: r[i]=0; break; case 5: r[i]*=1.02; break; } } }
  double rho()override{ double v=b.rho(); long c=nr++; for(auto&e:d) if(e.kind>=100){ bool hit=e.kind>=110? c>=e.at: c==e.at; if(hit) switch(e.kind%10){ case 0: v*=100; break; case 1: v*=0.02; break; case 2: v*=1e5; break; case 3: v=0; break; } } return v; }
  string str()const{ string s; for(auto&e:d) s+=mc::fmt(" dev(%s#%ld,kind %d)",e.kind>=100?"rho":"F",e.at,e.kind); return s; } };
static void body(){
  int prob=mc::choose(6,"problem"); static const double TO[4]={1e-5,1e-3,1e-8,1e-1}; double tol=TO[mc::choose(4,"tolerance")]; static const double H0[4]={0.05,1e-5,20,1.0}; double h0=H0[mc::choose(4,"h0")];
  static const double T0[3]={0,5,-1.25},TL[3]={2,0.3,2}; int iv=mc::choose(3,"interval"); double t0=T0[iv],te=t0+TL[iv]; bool deftol=tol==1e-5;
  DevEnv e(prob); int K=mc::thorough()?(PART==24?20:40):(PART==24?7:28); vector<int> FK={0,1,2,3,4,5,10,15},RK={100,101,102,103,110,111,112,113}; int KR=4;
  int maxdev= (mc::thorough()&&iv==0&&h0!=20) || (iv==0&&(tol==1e-5||tol==1e-3)&&h0!=20&&prob<4) ? 2:1; long lo=0; int slots=K*(int)FK.size(),js=KR*(int)RK.size();
  for(int k=0;k<maxdev;k++){ int v=mc::choose(1+slots+js-(int)lo,"deviation"); if(k==0) mc::shard(); if(v==0) break; v=v-1+(int)lo; lo=v+1; if(v<slots) e.d.push_back({v/(long)FK.size(),FK[v%FK.size()]}); else { v-=slots; e.d.push_back({v/(long)RK.size(),RK[v%RK.size()]}); } if(k==0&&maxdev==2&&lo<=slots&&(v/(int)FK.size())%3) break; }
  mc::describe(mc::fmt("problem %d tol=%g h0=%g [%g,%g]%s",prob,tol,h0,t0,te,e.str().c_str()));
  RWorld w; w.env=&e; w.horizon=2500; RProb P(&w); odes::Rock4<RProb> R(P); if(!deftol) R.setTolerances(tol,tol);
  double*y=odes::allocDoubleArray(e.n); e.b.start(y); vector<double> yin(y,y+e.n); bool threw=false,inf=false;
#if PART==24
  if(mc::choose(2,"call")){ try{ R(y,t0,te,h0); }catch(odes::OdesException&){ }catch(Horizon&){ } e.b.start(y); e.nf=e.nr=0; w.tr.clear(); w.nF=w.nR=w.calls=0; R.Log().clear(); }
#endif
  try{ R(y,t0,te,h0); }catch(odes::OdesException&){ threw=true; }catch(Horizon&){ inf=true; }
  vector<double> yo(y,y+e.n); odes::destroyDoubleArray(y); mc::step((long)w.tr.size());
  DevEnv e2(prob); e2.d=e.d; RWorld w2; w2.env=&e2; w2.horizon=2500; RockRef M(e.n,&w2); M.atol=M.rtol=tol; M.lam=3*e.b.rho(); bool inf2=false;
  vector<RRec> tf; vector<vector<double>> rb; { long r=0; vector<double> pend; for(auto&q:w.tr) if(q.k=='R'){ DevEnv tmp(prob); tmp.d=e.d; tmp.nr=r++; pend.push_back(tmp.rho()); } else { tf.push_back(q); rb.push_back(pend); pend.clear(); } } // rb[k]: answers received just before the k-th F call
  auto guided=[&rb](RWorld*W){ auto last=std::make_shared<long>(0); return [&rb,W,last]()->LD{ long k=W->nF; LD v=-1; for(long q=*last;q<=k&&q<(long)rb.size();q++) if(!rb[q].empty()) v=rb[q].back(); *last=k+1; return v; }; };
  M.guide=guided(&w2);
  DevEnv e3(prob); e3.d=e.d; RWorld w3; w3.env=&e3; w3.horizon=2500; RockRef M3(e.n,&w3); M3.atol=M3.rtol=tol; M3.lam=M.lam; M3.pert=1e-13L; M3.guide=guided(&w3); // the same run, perturbed: what differs is ill-conditioned and is not compared
  try{ M.run(yin.data(),t0,te,h0); }catch(Horizon&){ inf2=true; }
  bool inf3=false; try{ M3.run(yin.data(),t0,te,h0); }catch(Horizon&){ inf3=true; }
  bool whole=M.ambiguous<0; size_t lim=whole? w2.tr.size(): (size_t)M.ambiguous; if(!whole) mc::count("runs cut at an ambiguous decision"); mc::count("accepted steps",M.nacc); mc::count("rejected steps",M.nrej); if(M.threw) mc::count("runs that throw");
  double sc=0;
  auto wmax=[&](size_t k){ double m=0; for(size_t j=k>60?k-60:0;j<=k;j++) for(double v:w2.tr[j].y) m=max(m,fabs(v)); return m; };
  auto wrange=[&](size_t k){ double m=0; for(int i=0;i<e.n;i++){ double lo=1e300,hi=-1e300; for(size_t j=k>60?k-60:0;j<=k;j++){ double v=w2.tr[j].y[i]; lo=min(lo,v); hi=max(hi,v); } m=max(m,hi-lo); } return m; };
  { size_t k=0; for(;k<lim;k++){ if(k>=w3.tr.size()) break; auto&a=w2.tr[k].y;auto&b=w3.tr[k].y; double tl=1e-7*wrange(k)+1e-12; bool ok=true; for(size_t i=0;i<a.size();i++) if(!(fabs(a[i]-b[i])<=tl)) ok=false; if(!ok) break; }
    if(k<lim){ lim=k; whole=false; mc::count("runs cut at ill-conditioning"); }
    if(whole&&(w3.tr.size()!=w2.tr.size()||inf3!=inf2||M3.threw!=M.threw||M3.nacc!=M.nacc||M3.nrej!=M.nrej||fabsl(M3.hlast-M.hlast)>2e-4L*M.hlast)){ whole=false; mc::count("runs cut at ill-conditioning"); } }
  for(size_t k=0;k<lim&&k<w2.tr.size();k++){ if(inf&&k>=tf.size()){ whole=false; break; } CONF(k<tf.size(),"conformance:stopped-early","the solver made %zu right-hand-side calls, the model goes on",tf.size());
    auto&a=tf[k];auto&b=w2.tr[k]; sc=wmax(k); if(!(sc<1e5)){ whole=false; mc::count("runs cut at overflow"); break; }
    bool same=a.k==b.k; double tl=(1+k/200.0)*2e-6*(1e-2+sc),m=0; for(size_t i=0;same&&i<b.y.size();i++){ double d=fabs(a.y[i]-b.y[i])/tl; if(!(d<=1)) same=false; m=max(m,d); } if(m>0.1) mc::count("comparisons above a tenth of the tolerance"); if(m>0.5) mc::count("comparisons above half of the tolerance");
    if(!a.y.empty()){ uint64_t h=prob; for(double v:a.y) h=mc::mix(h,(uint64_t)llround(v*1e5)); mc::gstate(h); }
    if(getenv("DBG")) fprintf(stderr,"%zu: %.12g solver-model %.3g perturbed-model %.3g | tl %g amb %ld lim %zu\n",k,a.y[0],a.y[0]-b.y[0],k<w3.tr.size()?w3.tr[k].y[0]-b.y[0]:0,tl,M.ambiguous,lim);
    CONF(same,"conformance:call","call #%zu: solver %c(%.12g), model %c(%.12g)",k,a.k,a.y.size()?a.y[0]:0.0,b.k,b.y.size()?b.y[0]:0.0); }
  mc::validated();
  if(whole){
    if(tf.size()>2000||w2.tr.size()>2000){ mc::count("runs stopped at the horizon"); return; }
    CONF(!M.late,"conformance:spectral-radius","the spectral radius was not asked for before the first step, or not for ten accepted steps");
    CONF(inf==inf2,"conformance:never-stops","solver %s, model %s",inf?"goes on":"stops",inf2?"goes on":"stops"); if(inf) return;
    CONF(threw==M.threw,"conformance:exception","solver %s, model %s",threw?"throws":"returns",M.threw?"throws":"returns");
    if(!threw){ CONF(tf.size()==w2.tr.size(),"conformance:extra-calls","solver made %zu calls, model %zu",tf.size(),w2.tr.size());
      for(int i=0;i<e.n;i++) CONF(fabs(yo[i]-(double)M.Y[i])<=(1+w.tr.size()/200.0)*2e-6*(1e-2+sc),"conformance:result","component %d: %.12g, model %.12Lg",i,yo[i],M.Y[i]);
      CONF(fabs(R.LastAcceptedTimeStep()-(double)M.hlast)<=2e-3*(double)M.hlast,"conformance:last-step","%.12g, model %.12Lg",R.LastAcceptedTimeStep(),M.hlast);
      MC_REQUIRE(R.NbStages()==M.maxst,"conformance:stages","%d stages reported, %d used at most",R.NbStages(),M.maxst);
      MC_REQUIRE(R.NbRhsComputed()==w.nF,"conformance:fcount","%d evaluations reported, %ld observed",R.NbRhsComputed(),w.nF); }
    MC_REQUIRE(R.NbSteps()==M.nsteps&&R.NbAccepted()==M.nacc&&R.NbRejected()==M.nrej,"conformance:counters","steps/accepted/rejected %d/%d/%d, model %d/%d/%d",R.NbSteps(),R.NbAccepted(),R.NbRejected(),M.nsteps,M.nacc,M.nrej);
    if(PART!=24&&e.d.size()<2){ // the log
      istringstream is(R.Log().tostring()); string ln; size_t q=0; while(getline(is,ln)){ if(ln.empty()) continue; CONF(q<M.ev.size(),"conformance:log","more events than the %zu of the model",M.ev.size()); double t=0; sscanf(strstr(ln.c_str(),"Time:")+5,"%lf",&t); bool ok=ln.find("success")!=string::npos; CONF(ok==M.ev[q].ok&&fabs(t-(double)M.ev[q].t)<2e-4*(1+fabs(t)),"conformance:log","event %zu: %s, model %s at %.9Lg",q,ln.c_str(),M.ev[q].ok?"success":"rejected",M.ev[q].t); q++; }
      CONF(q==M.ev.size(),"conformance:log","%zu events logged, model %zu",q,M.ev.size()); } }
  uint64_t h=3; h=mc::mix(h,M.nsteps);h=mc::mix(h,M.nacc);h=mc::mix(h,M.nrej);h=mc::mix(h,M.maxst); h=mc::mix(h,threw); mc::outcome(h);
  if(e.d.size()&&M.nrej) mc::sample(mc::G().desc+mc::fmt(" -> %d steps, %d rejected, up to %d stages",M.nsteps,M.nrej,M.maxst));
}
int main(int c,char**v){ return mc::run(c,v,body); }
