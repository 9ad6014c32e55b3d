// C22/C23: the symplectic solver. Every call of the user's function is traced; stages, result, convergence report,
// invariants and reversibility are judged against Gauss collocation in quadruple precision.
#include <cmath>
#include <string>
#include <iostream>
#include <vector>
#include <limits>
#include <algorithm>
#include "mc.hpp"
#include "gauss_ref.hpp"
#include "SymplecticRK.hpp"
#undef MAX
#undef ABS
using std::vector; using std::string;
template<class T> struct Mth; template<> struct Mth<double>{ static double s(double x){ return std::sqrt(x);} static double sn(double x){return std::sin(x);} };
template<> struct Mth<LD>{ static LD s(LD x){ return sqrtl(x);} static LD sn(LD x){return sinl(x);} }; template<> struct Mth<Q>{ static Q s(Q x){ return qsqrt(x);} static Q sn(Q x){return qsin(x);} };
// component 0 is a clock (y0'=1), so that the stage a call belongs to can be told from its argument
enum { ROT, RIGID, KEPLER, QUAD, PENDULUM, SKEW, ZERO, HENON, DECAY, NK };
static const int DIM[NK]={3,4,5,3,3,5,2,5,2};
static int kind=0, quadk=1; static double freq=1;
template<class T> static void rhs(const T*y,T*r){ r[0]=1; switch(kind){
  case ROT: r[1]=freq*y[2]; r[2]=-freq*y[1]; break;
  case RIGID: r[1]=T(0.25)*y[2]*y[3]; r[2]=T(-0.75)*y[3]*y[1]; r[3]=T(0.5)*y[1]*y[2]; break;
  case KEPLER: { T q=y[1]*y[1]+y[2]*y[2],d=q*Mth<T>::s(q); r[1]=y[3]; r[2]=y[4]; r[3]=-y[1]/d; r[4]=-y[2]/d; break; }
  case QUAD: { T p=1; for(int i=1;i<quadk;i++) p*=y[0]; r[1]=quadk*p; r[2]=(quadk+1)*p*y[0]; break; }
  case PENDULUM: r[1]=y[2]; r[2]=-Mth<T>::sn(y[1]); break;
  case SKEW: r[1]=y[2]+T(0.5)*y[3]-T(0.25)*y[4]; r[2]=-y[1]+T(0.75)*y[4]; r[3]=T(-0.5)*y[1]+T(1.5)*y[4]; r[4]=T(0.25)*y[1]-T(0.75)*y[2]-T(1.5)*y[3]; break;
  case ZERO: r[0]=0; r[1]=0; break;
  case HENON: r[1]=y[3]; r[2]=y[4]; r[3]=-y[1]-2*y[1]*y[2]; r[4]=-y[2]-y[1]*y[1]+y[2]*y[2]; break;
  default: r[1]=-y[1]*y[1]*freq; } }
static const double U0[NK][5]={{0,1,0.3},{0,1,0.9,1.1},{0,1,0,0,1.1},{0,0,0},{0,0.9,0.2},{0,0.7,-0.3,0.2,1},{0.5,0.25},{0,0.2,0.1,0.3,0.25},{0,1}};
template<class D> struct Tr { static vector<vector<D>> in,out; static int fault; static long calls; }; template<class D> vector<vector<D>> Tr<D>::in; template<class D> vector<vector<D>> Tr<D>::out; template<class D> int Tr<D>::fault=0; template<class D> long Tr<D>::calls=0;
template<int N,class D> struct F { static const int n=N; void operator()(D*v,D*r){ ++Tr<D>::calls; if(Tr<D>::in.size()>20000) mc::fail("endless","a step goes on beyond its iteration limit"); if(Tr<D>::fault==1) for(int i=0;i<N;i++) r[i]=std::numeric_limits<D>::quiet_NaN(); else if(Tr<D>::fault==2) for(int i=0;i<N;i++) r[i]=std::numeric_limits<D>::infinity()*(v[0]<0?-1:1); else if(Tr<D>::fault==3){ for(int i=0;i<N;i++) r[i]=i?1000*v[i]:(D)1; } else rhs<D>(v,r); Tr<D>::in.emplace_back(v,v+N); Tr<D>::out.emplace_back(r,r+N); } };
static bool refstep(int s,vector<Q>&u,Q h){ const GaussRef&R=gaussref(s); int n=u.size(); vector<Q> Y(n*s),K(n*s); for(int i=0;i<s;i++) for(int l=0;l<n;l++) Y[i*n+l]=u[l]; Q sc=0; for(Q x:u) sc=std::max(sc,qabs(x)); bool ok=false; for(int it=0;it<160;it++){ for(int i=0;i<s;i++) rhs<Q>(&Y[i*n],&K[i*n]); Q d=0; for(int i=0;i<s;i++) for(int l=0;l<n;l++){ Q v=u[l]; for(int j=0;j<s;j++) v+=h*R.a[i*s+j]*K[j*n+l]; d=std::max(d,qabs(v-Y[i*n+l])); Y[i*n+l]=v; } if(!(d<1e6)) return false; if(d<=Q(1e-28)*(sc+1)){ ok=true; break; } } if(!ok) return false; for(int i=0;i<s;i++) for(int l=0;l<n;l++) u[l]+=h*R.b[i]*K[i*n+l]; return true; }
static Q pw(Q x,int k){ Q r=1; while(k--) r*=x; return r; }
static Q inv(int which,const Q*y,bool&has){ has=true; switch(kind){ case ROT: if(which) break; return y[1]*y[1]+y[2]*y[2]; case RIGID: return which?y[1]*y[1]*3+y[2]*y[2]:y[2]*y[2]*2+y[3]*y[3]*3; case KEPLER: if(which) break; return y[1]*y[4]-y[2]*y[3]; case SKEW: if(which) break; return y[1]*y[1]+y[2]*y[2]+y[3]*y[3]+y[4]*y[4]; default: break; } has=false; return 0; }
// judge one call: the trace of the user's function and the state before and after
template<int N,int s,class D> static void judge(bool clock,bool ok,D h,int itmax,const vector<D>&u0,const vector<D>&u1,int iters,const vector<Q>&carry,const vector<Q>&slack,Q*resid,Q*bigs){ typedef typename std::conditional<(sizeof(D)>8),Q,LD>::type W;
  const GaussRef&R=gaussref(s); const Q eps=std::numeric_limits<D>::epsilon(); auto&in=Tr<D>::in; auto&out=Tr<D>::out; int nb=in.size()/s;
  MC_REQUIRE((int)in.size()==nb*s&&nb>=1&&nb<=itmax,"evaluations","%d evaluations for %d stages and at most %d iterations",(int)in.size(),s,itmax);
  MC_REQUIRE(ok?iters==nb-1:iters==itmax,"iterations","%d iterations reported, %d seen, %s",iters,nb,ok?"converged":"failed");
  auto same=[&](int a,int b){ for(int i=0;i<s;i++) for(int l=0;l<N;l++) if(!(in[a*s+i][l]==in[b*s+i][l])) return false; return true; };
  for(int b=1;b<nb-1;b++) MC_REQUIRE(!same(b,b-1),"missed-convergence","iteration %d did not change anything, and the iteration goes on",b+1);
  if(!ok){ MC_REQUIRE(nb==itmax,"gave-up","failure reported after %d of %d iterations",nb,itmax); MC_REQUIRE(nb==1||!same(nb-1,nb-2),"missed-convergence","the last iteration changed nothing, and failure is reported"); for(int l=0;l<N;l++) MC_REQUIRE(memcmp(&u0[l],&u1[l],sizeof(D)>8?10:8)==0,"changed-on-failure","component %d changed although failure was reported",l); mc::count("failed steps"); return; }
  if(nb>1) MC_REQUIRE(same(nb-1,nb-2),"not-converged","success reported although the last iteration changed the stages");
  mc::count("converged steps"); mc::countmax("max iterations",nb);
  // which stage is which
  vector<int> perm(s); vector<char> used(s,0); for(int i=0;i<s;i++){ int best=0; if(!clock) best=i; else { Q c=((Q)in[(nb-1)*s+i][0]-u0[0])/h; for(int k=0;k<s;k++) if(qabs(R.c[k]-c)<qabs(R.c[best]-c)) best=k; MC_REQUIRE(!used[best],"stages","two stages at the same time"); } perm[i]=best; used[best]=1; }
  Q worst=0; W aa[s*s]; for(int i=0;i<s;i++) for(int j=0;j<s;j++) aa[i*s+j]=(W)((Q)h*R.a[perm[i]*s+perm[j]]); for(int i=0;i<s;i++) for(int l=0;l<N;l++){ W r=u0[l],big=r<0?-r:r; for(int j=0;j<s;j++){ W t=aa[i*s+j]*(W)out[(nb-1)*s+j][l]; r+=t; big+=t<0?-t:t; } Q y=in[(nb-1)*s+i][l]; Q d=qabs(y-(Q)r)/(eps*(Q)big+Q(1e-300)); if(d>worst) worst=d; MC_REQUIRE(d<=2+s*0.75,"stage-equation","stage %d component %d: residual of %.1Lf epsilon",i,l,(LD)d); }
  mc::countmax("max stage residual, in hundredths of epsilon",(double)(100*worst)); 
  // update
  for(int l=0;l<N;l++){ Q r=(Q)u0[l],big=0; for(int j=0;j<s;j++){ Q t=(Q)h*R.b[perm[j]]*out[(nb-1)*s+j][l]; r+=t; big+=qabs(t); } Q d=qabs((Q)u1[l]-r-carry[l]); resid[l]=r-(Q)u0[l]; bigs[l]=eps*big*(2+s); Q lim=eps*qabs((Q)u1[l])*Q(0.75)+bigs[l]+slack[l]; MC_REQUIRE(d<=lim+Q(1e-300),"update","component %d: new state off by %.3Lg (allowed %.3Lg)",l,(LD)d,(LD)lim); }
}
#if PART==22
template<int N,int s,class D> static void doit(){
  const Q eps=std::numeric_limits<D>::epsilon(); bool lin=kind==ROT||kind==SKEW;
  static const double HS[8]={0.1,-0.1,0.5,-0.5,0.01,1,-1.25,0.0009765625}; int ih=mc::choose(8,"step size"); D h=(D)HS[ih]/(ih==0||ih==4?(D)1.7L:(D)1); int ns=mc::thorough()?mc::choose(3,"steps"):mc::choose(2,"steps"); ns=ns==0?1:ns==1?6:60; int mode=mc::choose(2,"starting values"); if(kind==ROT){ int f=mc::choose(3,"frequency"); freq=f==0?1:f==1?0.3:2; } else if(kind==QUAD){ static const int off[3]={0,1,2}; int q=mc::choose(3,"degree"); quadk=q==0?2*s-1:q==1?s:2*s+1; (void)off; } else freq=1; mc::shard();
  mc::describe(mc::fmt("problem %d, %d stages, %s, h=%Lg, %d steps, %s starting values",kind,s,sizeof(D)>8?"long double":"double",(LD)h,ns,mode?"extrapolated":"constant"));
  odes::SymplecticRK<F<N,D>,s,D> S(200); vector<D> u(U0[kind],U0[kind]+N),v,ustart=u; Tr<D>::fault=0; vector<Q> ref(u.begin(),u.end()),exact; bool refok=true; Q amp=1; int done=0;
  vector<Q> I0; for(int w=0;w<2;w++){ bool has; Q x=inv(w,&ref[0],has); if(has) I0.push_back(x); }
  for(int k=0;k<ns;k++){ bool first=mode==0||k==0; Tr<D>::in.clear(); Tr<D>::out.clear(); v=u; bool ok=S.step(h,u.data(),first); mc::step(); if(!ok){ for(int l=0;l<N;l++) MC_REQUIRE(v[l]==u[l],"changed-on-failure","changed"); mc::count("unconverged"); break; } ++done; mc::validated();
    Q sc=0; for(Q x:ref) sc=std::max(sc,qabs(x)); Q fm=0; for(auto&o:Tr<D>::out) for(D x:o) fm=std::max(fm,qabs((Q)x));
    if(refok) refok=refstep(s,ref,h); amp*=(1+qabs((Q)h)*((kind==ROT?freq:kind==SKEW?1.7:kind==KEPLER||kind==DECAY?3:1.3)));
    if(refok&&amp<1e4) for(int l=0;l<N;l++){ Q d=qabs((Q)u[l]-ref[l]),lim=eps*(k+1+6)*amp*(sc+qabs((Q)h)*fm)*(3+(kind==QUAD?s:s*0.25))*Q(0.1); mc::countmax("max error against the exact method, in hundredths of its limit",(double)(100*d/lim)); MC_REQUIRE(d<=lim,"not-the-method","step %d component %d: %.20Lg, Gauss method %.20Lg",k+1,l,(LD)u[l],(LD)ref[l]); }
    vector<Q> q(u.begin(),u.end()); for(size_t w=0;w<I0.size();w++){ bool has; Q x=inv(w,&q[0],has); Q d=qabs(x-I0[w]),lim=eps*(8+2*(k+1))*(1+qabs((Q)h)*fm)*(kind==RIGID?8:4)*(1+s*0.1)*Q(0.15); mc::countmax("max drift of an invariant, in hundredths of its limit",(double)(100*d/lim)); MC_REQUIRE(d<=lim,"invariant","step %d: invariant %d drifts by %.3Lg",k+1,(int)w,(LD)(x-I0[w])); mc::eval(); }
    uint64_t st=mc::mix(mc::mix(kind,s),sizeof(D)); for(D x:u) st=mc::hr(st,(double)x); mc::gstate(st); }
  if(done==ns){ // exact flow
    if(lin){ int n=N-1; (void)n; Q T=(Q)h*ns; // matrix exponential by Taylor series on the vector, long enough for |z|<=75
      vector<Q> y(ustart.begin(),ustart.end()); int sub=ns*2; Q dt=T/sub; for(int m=0;m<sub;m++){ vector<Q> t=y,r(N),o=y; for(int k=1;k<40;k++){ rhs<Q>(&t[0],&r[0]); if(k>1) r[0]=0; for(int l=0;l<N;l++) t[l]=r[l]*dt/k; for(int l=0;l<N;l++) o[l]+=t[l]; } y=o; }
      Q w=kind==ROT?freq:2.0,z=qabs((Q)h)*w; Q cst=1; for(int k=1;k<=s;k++) cst*=Q(k)/(s+k); for(int k=1;k<=2*s+1;k++) cst*=z/k; // s!^2/((2s)!(2s+1)!) z^(2s+1), up to the first factors
      for(int k=0;k<0;k++) ; for(int l=0;l<N;l++){ Q d=qabs((Q)u[l]-y[l]); MC_REQUIRE(d<=ns*(cst*Q(2.2)*4+eps*40*(1+z)),"order","component %d: %.20Lg, exact flow %.20Lg, allowed error %.3Lg",l,(LD)u[l],(LD)y[l],(LD)(ns*cst*4)); } mc::eval(); }
    if(kind==QUAD&&quadk<2*s&&ih<6){ Q T=(Q)h*ns; for(int c=0;c<2;c++){ Q ex=pw(T,quadk+c),d=qabs((Q)u[1+c]-ex),big=std::max(qabs(ex),pw(qabs((Q)h),quadk+c)); MC_REQUIRE(d<=eps*(20+8*s)*(quadk+2)*big+Q(1e-300),"order","integral of t^%d over %Lg: %.20Lg",quadk+c-1,(LD)T,(LD)u[1+c]); mc::eval(); } }
    // reversibility
    vector<D> w=u; bool back=true; for(int k=0;k<ns&&back;k++){ bool first=mode==0||k==0; Tr<D>::in.clear(); Tr<D>::out.clear(); back=S.step(-h,w.data(),first); mc::step(); }
    if(back&&amp<1e4){ for(int l=0;l<N;l++){ Q sc=1; for(D x:u) sc=std::max(sc,qabs((Q)x)); Q d=qabs((Q)w[l]-(Q)ustart[l]),lim=Q(0.1)*eps*(10+3*ns)*amp*sc*(3+(kind==QUAD?s*2*(1+pw(qabs((Q)h*ns),quadk+1)):s*0.25)); mc::countmax("max irreversibility, in hundredths of its limit",(double)(100*d/lim)); MC_REQUIRE(d<=lim,"not-reversible","component %d returns to %.20Lg instead of %.20Lg",l,(LD)w[l],(LD)ustart[l]); } mc::count("reversed"); mc::eval(); } }
  mc::outcome(mc::mix(mc::mix(kind,s*2+(sizeof(D)>8)),mc::mix(ih,done))); if(done==6) mc::sample(mc::G().desc);
}
static const int kinds[]={ROT,RIGID,KEPLER,QUAD,PENDULUM,SKEW,ZERO,HENON,DECAY};
#else
template<int N,int s,class D> static void doit(){
  const Q eps=std::numeric_limits<D>::epsilon(); freq=1; quadk=3; Tr<D>::fault=0;
  static const int ITS[8]={60,1,2,5,9,14,3,200}; int itmax=ITS[mc::chooseq(6,8,"iteration limit")]; int scen=mc::choose(2,"scenario"); if(scen&&itmax!=60) mc::skip();
  if(scen==0){ // every sequence of up to 4 steps
    static const double HS[6]={0.05,-0.3,1,1e-7,4,0.3}; int L=3; struct St { int h,first,fault; }; vector<St> seq; for(int k=0;k<L;k++){ St t; t.h=mc::chooseq(k==1?5:3,6,"h"); t.first=k==0?1:mc::choose(2,"first"); t.fault=k==1?mc::choose(4,"fault"):0; if((t.fault==1||t.fault==2)&&t.h!=0&&!mc::thorough()) mc::skip(); seq.push_back(t); if(k==1) mc::shard(); }
    mc::describe(mc::fmt("problem %d, %d stages, %s, at most %d iterations, sequence of %d steps",kind,s,sizeof(D)>8?"long double":"double",itmax,L));
    odes::SymplecticRK<F<N,D>,s,D>*Sp=(odes::SymplecticRK<F<N,D>,s,D>*)malloc(sizeof(odes::SymplecticRK<F<N,D>,s,D>)); memset((void*)Sp,0xff,sizeof *Sp); new(Sp) odes::SymplecticRK<F<N,D>,s,D>(itmax); auto&S=*Sp; vector<D> u(U0[kind],U0[kind]+N),v; vector<Q> carry(N,0),slack(N,0); uint64_t oc=mc::mix(kind,s); vector<Q> res(N),bigs(N); bool clean=true;
    for(int k=0;k<L;k++){ D h=(D)HS[seq[k].h]; bool first=seq[k].first!=0; Tr<D>::fault=seq[k].fault; Tr<D>::in.clear(); Tr<D>::out.clear(); v=u; bool usable= first || clean; bool ok=S.step(h,u.data(),first); mc::step(); (void)usable; int save=Tr<D>::fault; Tr<D>::fault=0;
      // constant starting values when asked for
      if(first) for(int i=0;i<s;i++) for(int l=0;l<N;l++) MC_REQUIRE(Tr<D>::in[i][l]==v[l],"start","step %d starts from other values than the state",k+1);
      if(save==1||save==2) MC_REQUIRE(!ok,"success-on-nonsense","success reported for a right-hand side that is not finite");
      if(k>0&&!first&&clean&&seq[k].h!=seq[k-1].h) for(int i=0;i<s;i++) for(int l=0;l<N;l++) MC_REQUIRE(Tr<D>::in[i][l]==v[l],"start","step %d of another size starts from extrapolated values",k+1);
      judge<N,s,D>(kind!=ZERO||save==3,ok,h,itmax,v,u,S.maxIter(),carry,slack,&res[0],&bigs[0]);
      if(ok) for(int l=0;l<N;l++){ carry[l]+=(Q)v[l]+res[l]-(Q)u[l]; slack[l]+=bigs[l]; } // what rounding left over
      if(ok){ Q ld=S.lastdiff(); MC_REQUIRE(qabs(ld)<=Q(1e-300),"lastdiff","last difference %Lg after success",(LD)ld); }
      oc=mc::mix(oc,ok*64+std::min(63,S.maxIter())); uint64_t st=mc::mix(kind,s); for(D x:u) st=mc::hr(st,(double)x); mc::state(st); mc::validated();
      if(!ok) clean=false; else clean=true; }
    free(Sp); mc::outcome(oc); if(L==3&&itmax==9) mc::sample(mc::G().desc);
  } else { // long histories: compensated summation
    int ih=mc::choose(4,"h"); static const double HS[4]={0.001,0.0137,-0.0037,1e-5}; int mode=mc::choose(2,"starting values"); mc::shard(); int steps=mc::thorough()?3000:400; D h=(D)HS[ih];
    mc::describe(mc::fmt("problem %d, %d stages, %s, %d steps of %Lg",kind,s,sizeof(D)>8?"long double":"double",steps,(LD)h));
    odes::SymplecticRK<F<N,D>,s,D> S(itmax); vector<D> u(U0[kind],U0[kind]+N),v; if(kind!=ZERO) for(int l=1;l<N;l++) u[l]+=(D)0.1L; u[0]=1000; if(kind==QUAD) u[0]=0.3; const GaussRef&R=gaussref(s); vector<Q> sum(u.begin(),u.end()),sumbig(N,0); int fails=0;
    for(int k=0;k<steps;k++){ Tr<D>::in.clear(); Tr<D>::out.clear(); bool first=mode==0||k==0; v=u; bool ok=S.step(h,u.data(),first); if(!ok){ ++fails; break; } int nb=Tr<D>::in.size()/s; for(int l=0;l<N;l++){ Q d=0,big=0; for(int i=0;i<s;i++){ int b=0; if(kind!=ZERO){ Q c=((Q)Tr<D>::in[(nb-1)*s+i][0]-v[0])/h; for(int m=0;m<s;m++) if(qabs(R.c[m]-c)<qabs(R.c[b]-c)) b=m; } else b=i; Q t=R.b[b]*Tr<D>::out[(nb-1)*s+i][l]*(Q)h; d+=t; big+=qabs(t); } sum[l]+=d; sumbig[l]+=big; Q err=qabs((Q)u[l]-sum[l]),lim=eps*(qabs((Q)u[l])*0.75+sumbig[l]*(2+0.5*s)); if(kind!=ZERO&&fabsl(h)<1e-3L&&mode==0){ mc::countmax("max accumulated rounding, in hundredths of its limit",(double)(100*err/lim)); } MC_REQUIRE(err<=lim+Q(1e-300),"accumulated-rounding","after %d steps component %d is off the sum of its increments by %.3Lg (allowed %.3Lg)",k+1,l,(LD)err,(LD)lim); } mc::step(); }
    if(fails) mc::count("long histories cut"); else mc::count("long histories complete"); mc::outcome(mc::mix(mc::mix(kind,s),mc::mix(ih,fails))); mc::validated(); }
}
static const int kinds[]={RIGID,KEPLER,PENDULUM,ZERO,DECAY,QUAD};
#endif
template<class D,int s> static void kindof(){ switch(DIM[kind]){ case 2: doit<2,s,D>(); break; case 3: doit<3,s,D>(); break; case 4: doit<4,s,D>(); break; default: doit<5,s,D>(); } }
typedef PREC DD;
static void body(){ static const int nsk[5]={6,10,12,14,15}; kind=kinds[mc::choose((int)(sizeof kinds/sizeof*kinds),"problem")]; int st=SMIN+mc::choose(SMAX-SMIN+1,"stages"); if(PART==23&&sizeof(DD)>8&&!mc::thorough()) for(int q:nsk) if(st==q) mc::skip(); switch(st){
#define K(n) case n: if constexpr(n>=SMIN&&n<=SMAX) kindof<DD,n>(); break;
  K(2)K(3)K(4)K(5)K(6)K(7)K(8)K(9)K(10)K(11)K(12)K(13)K(14)K(15)K(16) } }
int main(int c,char**v){ return mc::run(c,v,body); }
