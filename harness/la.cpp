// Exhaustive check of the shifted-system factor/solve component, all layouts.
// PART 1: real shifted systems, PART 2: complex shifted systems, PART 3: singular systems reported.
#include "mc.hpp"
#include <complex>
#include "protos_lapack.hpp"
#include "MatrixType.hpp"
#include "compat.hpp"
using namespace std;
typedef long double LD; typedef complex<LD> CLD;

template<bool full,bool H,int n,int kl,int ku> struct M: odes::Matrices<full,H,n,kl,ku>{
  typedef odes::Matrices<full,H,n,kl,ku> B;
  using B::decomr; using B::decomc; using B::solvereal; using B::solvecomplex; using B::calhes;
  typedef typename B::MatrixReal MR;
};
enum Lay { FULL, BAND, HESS };
static const char* LN[]={"full","band","hessenberg"};
#ifndef NMIN
#define NMIN 1
#endif
#ifndef NMAX
#define NMAX 6
#endif
static int NN,KL,KU,LAY;
static double J[2][6][6];
static const double SH[4]={3.0,0.5,-2.0,40.0};
static const double AL[4]={2.0,1.0,-1.0,30.0}, BE[4]={1.0,-0.5,3.0,25.0};
static bool inband(int i,int j){ return LAY!=BAND || (j-i<=KU && i-j<=KL); }

// is the shifted matrix (numerically) regular? smallest pivot of a fully pivoted elimination
template<class T> static LD rcond(T A[6][6],int n){
  T B[6][6]; for(int i=0;i<n;i++)for(int j=0;j<n;j++)B[i][j]=A[i][j];
  LD mx=0,mn=1e300L;
  for(int k=0;k<n;k++){ int pi=k,pj=k; LD b=-1; for(int i=k;i<n;i++)for(int j=k;j<n;j++) if(abs(B[i][j])>b){b=abs(B[i][j]);pi=i;pj=j;}
    if(b>mx)mx=b; if(b<mn)mn=b; if(b==0) return 0;
    for(int j=0;j<n;j++) swap(B[k][j],B[pi][j]); for(int i=0;i<n;i++) swap(B[i][k],B[i][pj]);
    for(int i=k+1;i<n;i++){ T f=B[i][k]/B[k][k]; for(int j=k;j<n;j++) B[i][j]-=f*B[k][j]; } }
  return mn/mx; }

template<class MT> struct Run{
  MT m; typename MT::MR Jm; int n; bool fresh=false;
  Run(){ n=NN; }
  void setJ(int w){ for(int i=1;i<=n;i++)for(int j=1;j<=n;j++) if(inband(i,j)) Jm(i,j)=J[w][i-1][j-1]; m.calhes=true; fresh=true; }
};

static void gen(int w,int var){ // deterministic dense-in-band fillings, several shapes (pivoting needed, zero patterns, graded)
  for(int i=0;i<NN;i++)for(int j=0;j<NN;j++){
    double v=((i*7+j*13+w*5+var*11)%9)-4+0.25*((i*3+j*5+var)%4);
    if(var==1) v=(i==j)?0.0:(i-j==KL||j-i==KU||abs(i-j)==1? 3.0+i-0.5*j: 1.0);   // zero diagonal
    if(var==2) v=(i>j)? 50.0*(1+i)-3*j : (i==j? 0.125: ((i+j)%3-1));            // big subdiagonals
    if(var==3) v=((i+2*j+w)%3==0)? 0.0 : ((i*5+j*3)%7-3);                       // sparse
    if(var==4) v=(i==j)? SH[0] : ((i*2+j)%3-1)*1.0;                             // diagonal equal to the shift
    if(var==5) v=(i==j)? AL[0] : ((i+j*2)%3)*1.0;
    J[w][i][j]=inband(i,j)?v:0.0; }
}

template<int n,bool real> static void check_solve(const char*what,LD (*)[6],int){ (void)what; }

template<class MT,int n> static void solve_real(Run<MT>&r,int w,double fac,int which){
  LD E[6][6]; for(int i=0;i<n;i++)for(int j=0;j<n;j++)E[i][j]=-(LD)J[w][i][j]+(i==j?fac:0);
  LD rc=rcond(E,n);
  odes::fortranVectorF<n> z; double b[6];
  for(int i=0;i<n;i++){ b[i]= which<n ? (i==which?1.0:0.0) : (i%2?-1.5-i:2.0+i); z(i+1)=b[i]; }
  try{ r.m.solvereal(z,r.Jm); }catch(odes::OdesException&){ mc::fail(string("real-solve-throws:")+LN[LAY],"a regular system was refused"); }
  mc::step();
  if(rc<1e-9L) return;
  LD res=0,nz=0,nb=0,nE=0; for(int i=0;i<n;i++){ LD s=-b[i]; for(int j=0;j<n;j++){ s+=E[i][j]*z(j+1); nE=max(nE,fabsl(E[i][j])); } if(!(fabsl(s)<=res)) res=fabsl(s); nz=max(nz,fabsl((LD)z(i+1))); nb=max(nb,fabsl((LD)b[i])); }
  mc::validated(); uint64_t h=1; for(int i=1;i<=n;i++) h=mc::hr(h,z(i)); mc::state(mc::mix(h,which)); mc::outcome(h);
  bool fin=true; for(int i=1;i<=n;i++) if(!std::isfinite(z(i))) fin=false;
  MC_REQUIRE(fin && res<=1e-11L*(n*nE*nz+nb),string("real-solve-wrong:")+LN[LAY],
    "n=%d kl=%d ku=%d shift=%g rhs#%d: residual %Lg (|E|=%Lg |z|=%Lg)",n,KL,KU,fac,which,res,nE,nz);
}
template<class MT,int n> static void solve_cplx(Run<MT>&r,int w,double al,double be,int which){
  CLD E[6][6]; for(int i=0;i<n;i++)for(int j=0;j<n;j++)E[i][j]=CLD(-(LD)J[w][i][j]+(i==j?al:0),i==j?be:0);
  LD rc=rcond(E,n);
  odes::fortranVectorF<n> zr,zi; CLD b[6];
  for(int i=0;i<n;i++){ b[i]= which<n ? CLD(i==which?1:0,i==(which+1)%n?0.5:0) : which<2*n ? CLD(0,i==which-n?1:0) : CLD(i%2?-1.5-i:2.0+i, 1.0-i); zr(i+1)=(double)b[i].real(); zi(i+1)=(double)b[i].imag(); }
  try{ r.m.solvecomplex(zr,zi,r.Jm); }catch(odes::OdesException&){ mc::fail(string("complex-solve-throws:")+LN[LAY],"a regular system was refused"); }
  mc::step();
  if(rc<1e-9L) return;
  LD res=0,nz=0,nb=0,nE=0; bool fin=true;
  for(int i=0;i<n;i++){ CLD s=-b[i]; for(int j=0;j<n;j++){ s+=E[i][j]*CLD(zr(j+1),zi(j+1)); nE=max(nE,abs(E[i][j])); } if(!(abs(s)<=res)) res=abs(s); CLD z(zr(i+1),zi(i+1)); nz=max(nz,abs(z)); nb=max(nb,abs(b[i])); if(!std::isfinite(zr(i+1))||!std::isfinite(zi(i+1))) fin=false; }
  mc::validated(); uint64_t h=1; for(int i=1;i<=n;i++) h=mc::hr(mc::hr(h,zr(i)),zi(i)); mc::state(mc::mix(h,which)); mc::outcome(h);
  MC_REQUIRE(fin && res<=1e-11L*(n*nE*nz+nb),string("complex-solve-wrong:")+LN[LAY],
    "n=%d kl=%d ku=%d shift=%g%+gi rhs#%d: residual %Lg (|E|=%Lg |z|=%Lg)",n,KL,KU,al,be,which,res,nE,nz);
}
// a regular factorisation must not throw
template<class MT> static bool fac_real(Run<MT>&r,int w,double f){
  LD E[6][6]; for(int i=0;i<NN;i++)for(int j=0;j<NN;j++)E[i][j]=-(LD)J[w][i][j]+(i==j?f:0);
  LD rc=rcond(E,NN); mc::step(); r.fresh=false;
  try{ r.m.decomr(f,r.Jm); return true; }
  catch(odes::OdesException&){ MC_REQUIRE(rc<1e-9L,string("real-factor-throws:")+LN[LAY],"n=%d shift=%g: a regular matrix was refused (rcond %Lg)",NN,f,rc); return false; }
}
template<class MT> static bool fac_cplx(Run<MT>&r,int w,double a,double b){
  CLD E[6][6]; for(int i=0;i<NN;i++)for(int j=0;j<NN;j++)E[i][j]=CLD(-(LD)J[w][i][j]+(i==j?a:0),i==j?b:0);
  LD rc=rcond(E,NN); mc::step();
  try{ r.m.decomc(a,b,r.Jm); return true; }
  catch(odes::OdesException&){ MC_REQUIRE(rc<1e-9L,string("complex-factor-throws:")+LN[LAY],"n=%d shift=%g%+gi: a regular matrix was refused (rcond %Lg)",NN,a,b,rc); return false; }
}

template<class MT,int n> static void go_matrix(int mode,int alpha){
  Run<MT> r;
  if(mode==0){ // every matrix over a small alphabet
    static const double A3[3]={0.0,-1.0,2.0}, A5[5]={0.0,-1.0,2.0,3.0,0.5};
    int cnt=0;
    for(int i=0;i<n;i++)for(int j=0;j<n;j++){ J[0][i][j]=0; if(inband(i,j)){ J[0][i][j]= n<=2 ? A5[mc::choose(5,"a")] : A3[mc::choose(3,"a")]; if(++cnt==4) mc::shard(); } }
    mc::shard(); r.setJ(0);
  }else{ mc::shard(); gen(0,alpha); r.setJ(0); }
  int nsh = n<=3||mode==1 ? 4 : 2;
#if PART==1
  for(int s=0;s<nsh;s++) if(fac_real(r,0,SH[s])) for(int b=0;b<=n;b++) solve_real<MT,n>(r,0,SH[s],b);
#elif PART==2
  for(int s=0;s<nsh;s++){ if(!fac_real(r,0,60.0+s)) continue; // reduces the new Jacobian (Hessenberg layout)
    if(fac_cplx(r,0,AL[s],BE[s])) for(int b=0;b<=2*n;b++) solve_cplx<MT,n>(r,0,AL[s],BE[s],b); }
#endif
}
// every operation sequence over {new Jacobian 0/1, factor with shift 0/1, real solve, complex solve}
template<class MT,int n> static void go_seq(int var){
  gen(0,var); gen(1,(var+1)%4); Run<MT> r;
  int depth=mc::thorough()?6:5; int curJ=-1,facJ=-1,facS=-1;
  for(int d=0;d<depth;d++){
    int op=mc::choose(6,"op"); if(d==1) mc::shard();
    if(op<2){ r.setJ(op); curJ=op; facJ=-1; mc::step(); }
    else if(op<4){ if(curJ<0) mc::skip(); int s=op-2;
      bool ok=fac_real(r,curJ,SH[s]+7.25)&&fac_cplx(r,curJ,AL[s],BE[s]+4.5); if(!ok) return; facJ=curJ; facS=s; }
    else { if(facJ<0) mc::skip();
      if(op==4){ if(PART==1) solve_real<MT,n>(r,facJ,SH[facS]+7.25,d%(n+1)); else if(d+1<depth){ solve_real<MT,n>(r,facJ,SH[facS]+7.25,n); } }
      else { if(PART==2) solve_cplx<MT,n>(r,facJ,AL[facS],BE[facS]+4.5,d%(2*n+1)); else solve_cplx<MT,n>(r,facJ,AL[facS],BE[facS]+4.5,2*n); } }
  }
}
// exactly singular shifted matrices whose singularity elimination meets exactly
template<class MT,int n> static void go_sing(){
  static const double F[3]={2.0,-1.0,4.0};
  double f=F[mc::choose(3,"shift")]; int cplx=mc::choose(2,"complex");
  int kind=mc::choose(4,"kind"); mc::shard(); int pos=mc::choose(n,"pos"); int var=mc::choose(4,"fill");
  Run<MT> r; gen(0,var);
  // with a real shift beta=0 the "complex" matrix alpha*I-J is singular too
  for(int i=0;i<n;i++)for(int j=0;j<n;j++) if(!inband(i,j)) J[0][i][j]=0;
  if(kind==0){ for(int i=0;i<n;i++)for(int j=0;j<n;j++) J[0][i][j]=(i==j)?f:0; }                         // zero matrix
  else if(kind==1){ for(int i=0;i<n;i++)for(int j=0;j<n;j++) if(i>j) J[0][i][j]=0; else if(i==j) J[0][i][j]=(i==pos)?f:f+1+i; } // upper triangular, zero pivot
  else if(kind==2){ if(LAY==HESS) mc::skip(); for(int i=0;i<n;i++) J[0][i][pos]=(i==pos)?f:0; }          // zero column
  else { if(LAY==HESS) for(int i=0;i<n;i++)for(int j=0;j<n;j++) if(i>j+1) J[0][i][j]=0;                 // zero row (upper Hessenberg input for that layout)
         for(int j=0;j<n;j++) J[0][pos][j]=(j==pos)?f:0; 
         if(LAY==HESS && pos!=n-1) mc::skip(); }
  LD E[6][6]; for(int i=0;i<n;i++)for(int j=0;j<n;j++)E[i][j]=-(LD)J[0][i][j]+(i==j?f:0);
  if(rcond(E,n)>1e-15L) mc::skip();
  r.setJ(0); mc::step(); mc::state(mc::mix(kind*8+pos,var)); 
  bool threw=false;
  if(!cplx){ try{ r.m.decomr(f,r.Jm); }catch(odes::OdesException&){ threw=true; } }
  else { try{ r.m.decomr(f+100,r.Jm); }catch(odes::OdesException&){ mc::skip(); }
         try{ r.m.decomc(f,0.0,r.Jm); }catch(odes::OdesException&){ threw=true; } }
  mc::step(); mc::validated(); mc::outcome(threw+2*cplx+4*LAY);
  MC_REQUIRE(threw,string(cplx?"complex":"real")+"-singular-accepted:"+LN[LAY],"n=%d kl=%d ku=%d shift %g: an exactly singular matrix was factored without an error",n,KL,KU,f);
}

template<class MT,int n> static void go(){
  NN=n;
#if PART==3
  go_sing<MT,n>();
#else
  int mode=mc::choose(3,"mode");
  if(mode==0){ int ne=0; for(int i=0;i<n;i++)for(int j=0;j<n;j++) ne+=inband(i,j);
    if(ne>(mc::thorough()?10:9)) mc::skip(); go_matrix<MT,n>(0,0); }
  else if(mode==1){ int v=mc::choose(6,"fill"); go_matrix<MT,n>(1,v); }
  else { if(LAY==BAND && !mc::thorough() && ((KL+2*KU+n)%4)) mc::skip(); int v=mc::choose(mc::thorough()?4:2,"fill"); go_seq<MT,n>(v); }
#endif
}
template<int n,int k> struct Bands{ static void go_(int sel){ 
    constexpr int kl=k/n, ku=k%n;
    if(sel==k){ if constexpr(!(kl==n-1&&ku==n-1)){ LAY=BAND; KL=kl; KU=ku; go<M<false,false,n,kl,ku>,n>(); } else mc::skip(); }
    else if constexpr(k+1<n*n) Bands<n,k+1>::go_(sel); else mc::skip(); } };
template<int n> static void forn(){
  LAY=mc::choose(3,"layout"); KL=KU=n-1;
  if(LAY==FULL) go<M<true,false,n,n-1,n-1>,n>();
  else if(LAY==HESS) go<M<true,true,n,n-1,n-1>,n>();
  else { if(n==1) mc::skip(); int s=mc::choose(n*n,"band"); Bands<n,0>::go_(s); }
}
template<int n> struct Ns{ static void go_(int s){ if(s==0) forn<n>(); else if constexpr(n<NMAX) Ns<n+1>::go_(s-1); } };
int main(int c,char**v){ return mc::run(c,v,[]{ int s=mc::choose(NMAX-NMIN+1,"n"); Ns<NMIN>::go_(s); }); }
