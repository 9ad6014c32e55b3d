// C13: Jacobians by difference quotients. METHOD 0: Radau5, 1: Rodas. Sizes NMIN..NMAX, all bandwidths, full and Hessenberg.
#if METHOD
#define USE_RODAS
#else
#define USE_RADAU
#endif
#include "ode.hpp"
using namespace std;
#ifndef NMIN
#define NMIN 1
#define NMAX 3
#endif
#if METHOD
template<class PR> using Solver=odes::Rodascc<PR>;
#else
template<class PR> using Solver=odes::Radau5cc<PR>;
#endif
static const double EPS=2.3e-16;
// f_i = sum over the band of a_ij y_j + q b_ij y_j^2 + y_i (c t + p y_k), k the first column of the band
struct Band: Env { int l,u,fill; double q,c,p,g; 
  bool in(int i,int j)const{ return i-j<=l&&j-i<=u; } double a(int i,int j)const{ return g*(((7*i+5*j+3*fill)%11)-5+0.25*(j+1)-0.125*i*fill); } double b(int i,int j)const{ return g*(((3*i+4*j+fill)%5)-2); } int k(int i)const{ return i-l<0?0:i-l; }
  void f(double t,const double*y,double*r)override{ for(int i=0;i<n;i++){ double s=0; for(int j=0;j<n;j++) if(in(i,j)) s+=a(i,j)*y[j]+q*b(i,j)*y[j]*y[j]; r[i]=s+y[i]*(c*t+p*y[k(i)]); } }
  // true partial derivative, second derivative in that direction, and magnitude of the terms
  void part(double t,const double*y,int i,int j,LD&d,LD&d2,LD&mag,LD&dm)const{ d=0;d2=0;mag=0;dm=0; auto add=[&](LD v){ d+=v; dm+=fabsl(v); }; if(in(i,j)){ add(a(i,j)); add(2*(LD)q*b(i,j)*y[j]); d2=2*fabsl(q*b(i,j)); } if(i==j){ add((LD)c*t); add((LD)p*y[k(i)]); } if(k(i)==j){ add((LD)p*y[i]); if(i==j) d2+=2*fabsl(p); } for(int m=0;m<n;m++) if(in(i,m)) mag+=fabsl((LD)a(i,m)*y[m])+fabsl((LD)q*b(i,m)*y[m]*y[m]); mag+=fabsl(y[i]*((LD)c*t))+fabsl((LD)p*y[i]*y[k(i)]); } };
static const double VAL[10]={0,1e-8,-1,1e3,-1e-8,1,-1e6,-1e-3,1e6,3.7e-6};
static double delta(double v){ return sqrt(1e-16*max(1e-5,fabs(v))); }
// coefficients of the characteristic polynomial
static vector<LD> charpoly(vector<LD> A,int n){ vector<LD> M(n*n,0),c(n+1,0); c[n]=1; for(int k=1;k<=n;k++){ vector<LD> N(n*n,0); for(int i=0;i<n;i++)for(int j=0;j<n;j++){ for(int m=0;m<n;m++) N[i*n+j]+=A[i*n+m]*M[m*n+j]; if(i==j) N[i*n+j]+=c[n-k+1]; } M=N; LD tr=0; for(int i=0;i<n;i++)for(int m=0;m<n;m++) tr+=A[i*n+m]*M[m*n+i]; c[n-k]=-tr/k; } return c; }
template<int N,int SUB,int SUP,bool HS,bool AUT> static void doit(){
  typedef P<N,SUB,SUP,HS,true,AUT,false,METHOD> PR; Band e; e.n=N; e.l=SUB; e.u=SUP; const bool TH=mc::thorough(); e.fill=mc::choose(TH?4:N<=3?2:1,"filling"); int kind=mc::choose(N==5&&!TH?2:4,"kind"); if(N==5&&!TH) kind=kind?3:1; e.q=kind==1?0.5:kind==3?-0.3:0; e.p=kind==2?0.7:kind==3?0.4:0; e.c=AUT?0:1; e.g=mc::choose(2,"scale")?1e-3:1; static const double T[4]={0,1,-3,50}; double x=T[AUT?1:N<=3||TH?mc::choose(4,"t"):2+mc::choose(2,"t")];
  // states: all for up to two components; otherwise one component runs through the values, with two backgrounds
  vector<double> y(N); int v10=0; if(N<=2){ for(int i=0;i<N;i++) y[i]=VAL[mc::choose(10,"value")]; } else { int who=mc::choose(N,"component"),v=mc::choose(10,"value"),bg=mc::choose(3,"background"); v10=v; for(int i=0;i<N;i++) y[i]=bg==0?1.5-0.5*i:bg==1?0:VAL[(i*3+v+1)%10]; y[who]=VAL[v]; }
  if(HS) for(double v:y) if(fabs(v)>1e3) mc::skip(); int dir=TH||N<=3?(mc::choose(2,"direction")?-1:1):(v10+kind)%2?1:-1; int fault=mc::choose(3,"fault"); int fj=fault?mc::choose(N,"faulty evaluation"):0; if(fault==2&&fj) mc::skip(); mc::shard();
  World w; W()=&w; w.env=&e; string what=mc::fmt("%s n=%d l=%d u=%d%s%s kind %d t=%g",METHOD?"rodas":"radau",N,SUB,SUP,HS?" hessenberg":"",AUT?"":" time-dependent",kind,x); for(double v:y) what+=mc::fmt(" %g",v); mc::describe(what);
  double at[1]={1e10},rt[1]={1e10*1e-6}; // everything is accepted
  Solver<PR> R(true,at,rt); R.performOnlyOneStep(true); double h=1e-7*dir*max(1.0,fabs(x)); double xe=x+dir*1e-3*max(1.0,fabs(x));
  for(int st=0;st<(fault==1?1:3);st++){ vector<double> y0=y; double x0=x; w.reset(); if(fault==1){ w.faultAt=1+fj; w.faultTag=5; } else w.faultAt=-1;
    bool threw=false; try{ R(h,x,xe,y.data()); }catch(Fault&){ threw=true; } catch(odes::OdesException&ex){ for(auto&q:w.tr) for(double v:q.y) if(!(fabs(v)<1e20)){ mc::count("cut: the problem blows up"); return; } mc::fail("fails",mc::fmt("an exception at t=%g after %ld calls, h=%g",x,w.calls,h)); }
    if(fault!=1) MC_REQUIRE((int)w.tr.size()>N,"calls","only %d evaluations",(int)w.tr.size());
    for(int j=0;j<=N;j++){ auto&r=w.tr[j]; if(fault==1&&j>fj+1) break; MC_REQUIRE(r.t==x0,"time","evaluation %d of the difference quotients at time %.17g",j,r.t); for(int m=0;m<N;m++){ double want=y0[m]; if(j==m+1){ double d=r.y[m]-want,dd=delta(want); MC_REQUIRE(fabs(d-dd)<=2e-10*dd+2*EPS*fabs(want),"increment","increment %g of component %d (value %g) is not the documented %g",d,m+1,want,dd); } else MC_REQUIRE(r.y[m]==want,"perturbed","evaluation %d of the difference quotients has component %d=%.17g instead of %.17g",j,m+1,r.y[m],want); } }
    if(fault==1){ MC_REQUIRE(threw,"no-fault","the exception did not reach the caller"); for(int m=0;m<N;m++) MC_REQUIRE(y[m]==y0[m],"fault-state","after an exception in the difference quotients component %d is %.17g, not %.17g",m+1,y[m],y0[m]); mc::outcome(mc::mix(fj,N)); break; }
    if(!METHOD){ for(int k=1;k<=3;k++){ auto&r=w.tr[N+k]; for(int m=0;m<N;m++) MC_REQUIRE(r.y[m]==y0[m],"restored","the first Newton sweep sees component %d=%.17g, not %.17g",m+1,r.y[m],y0[m]); } }
    else if(!AUT){ auto&r=w.tr[N+1]; for(int m=0;m<N;m++) MC_REQUIRE(r.y[m]==y0[m],"restored","the time derivative sees component %d=%.17g, not %.17g",m+1,r.y[m],y0[m]); }
    auto&J=R.Jacobian(); vector<LD> TJ(N*N,0),LIM(N*N,0);
    for(int i=0;i<N;i++) for(int j=0;j<N;j++) if(e.in(i,j)||HS){ LD d,d2,mag,dm; e.part(x0,y0.data(),i,j,d,d2,mag,dm); LD dl=delta(y0[j]); LD lim=1.5L*(d2*dl/2)+8*EPS*(mag+dm*dl)/dl+4*EPS*(fabsl(y0[j])+dl)/dl*dm+1e-300L; TJ[i*N+j]=d; LIM[i*N+j]=lim;
      if(!HS){ LD er=fabsl((LD)J(i+1,j+1)-d); mc::step(); MC_REQUIRE(er<=lim,"entry","entry (%d,%d) is %.12g instead of %.12Lg, limit %.3Lg",i+1,j+1,(double)J(i+1,j+1),d,lim); } }
    if(HS){ vector<LD> A(N*N,0); for(int i=0;i<N;i++)for(int j=0;j<N;j++) if(i-j<=1) A[i*N+j]=J(i+1,j+1); auto a=charpoly(A,N),b=charpoly(TJ,N); LD nrm=0,lm=0; for(int i=0;i<N*N;i++){ nrm=fmaxl(nrm,fabsl(TJ[i])); lm=fmaxl(lm,LIM[i]); } nrm*=N; lm*=N; for(int k=0;k<N;k++){ LD bin=1; for(int q=1;q<=N-k;q++) bin*=2*N; LD lim=bin*powl(nrm+lm,N-k-1)*(lm+1e-14L*nrm); mc::step(); MC_REQUIRE(fabsl(a[k]-b[k])<=lim,"entry","characteristic coefficient %d of the reduced Jacobian is %.12Lg instead of %.12Lg, limit %.3Lg",k,a[k],b[k],lim); } }
    mc::gstate([&]{ uint64_t q=mc::mix(N,SUB*8+SUP); for(double v:y0) q=mc::hd(q,v); return q; }()); if(x==x0){ mc::fail("no-advance",mc::fmt("the step does not advance: step %d, t=%.17g h=%g, %ld calls, y=%g",st,x,h,w.calls,y[1])); } }
  mc::outcome(mc::mix(N,mc::mix(SUB,mc::mix(SUP,kind)))); mc::validated(); if(kind==3&&N>2) mc::sample(what); }
template<int N,int L,int U,bool AUT> static void band(){ if constexpr(L<0||U<0){} else if(mc::choose(2,"this bandwidth")) doit<N,L,U,false,AUT>(); else if constexpr(U>0) band<N,L,U-1,AUT>(); else if constexpr(L>0) band<N,L-1,N-1,AUT>(); else mc::skip(); }
template<int N,bool AUT> static void lay(){ if(N>1&&mc::choose(2,"hessenberg")) doit<N,N-1,N-1,(N>1),AUT>(); else band<N,N-1,N-1,AUT>(); }
template<int N> static void sizes(){ if constexpr(N<=NMAX){ if(N==NMAX||mc::choose(2,"this size")){ if(!METHOD||mc::choose(2,"autonomous")) lay<N,(METHOD!=0)>(); else lay<N,false>(); } else sizes<N+1>(); } }
int main(int c,char**v){ return mc::run(c,v,[]{ sizes<NMIN>(); }); }
