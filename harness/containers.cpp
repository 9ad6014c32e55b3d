// Every short operation sequence on the index-from-1 containers against plain-array models.
#include "mc.hpp"
#include <array>
#include "protos_lapack.hpp"
#include "MatrixType.hpp"
using namespace std;
using odes::fortranVector; using odes::fortranVectorF; using odes::fortranArray; using odes::fortranComplexArray;
using odes::fortranRectangularArray; using odes::fortranRectangularComplexArray;

static string capture(const function<void()>&f){ ostringstream o; auto*b=cout.rdbuf(o.rdbuf()); auto st=cout.rdstate(); cout.clear(); f(); cout.clear(st); cout.rdbuf(b); return o.str(); }
static vector<double> numbers(const string&s){ vector<double> r; stringstream ss(s); string t; while(ss>>t){ char*e; double v=strtod(t.c_str(),&e); if(*e==0) r.push_back(v);} return r; }

// ---------------------------------------------------------------- vectors
template<int n> static void vectors(){
  typedef array<double,n> A;
  double ext0[n?n:1] __attribute__((aligned(64))), raw0[n] __attribute__((aligned(64)));
  struct Own{ double*p; Own(){p=odes::allocDoubleArray(n);} ~Own(){odes::destroyDoubleArray(p);} } ext,raw;
  fortranVectorF<n> V[3]; A m[3]; A me,mr; fortranVector X(ext.p,n);
  for(int k=0;k<3;k++) for(int i=1;i<=n;i++){ V[k](i)=m[k][i-1]=10*(k+1)+i+0.5; }
  for(int i=0;i<n;i++){ ext.p[i]=me[i]=-3.25-i; raw.p[i]=mr[i]=7.125*(i+1); }
  int depth=mc::thorough()?3:2;
  for(int d=0;d<depth;d++){
    int op=mc::choose(26,"op"); int D=mc::choose(3,"dst"); int s=mc::choose(3,"src"); if(d==0) mc::shard();
    int s1=s,s2=(s+1)%3,s3=(s+2)%3; double a=2,b=-0.5,c=4,dd=0.25,e=-8; A old[3]={m[0],m[1],m[2]}; auto&M=m[D];
    #define EL(expr) do{ for(int i=0;i<n;i++) M[i]=(expr); }while(0)
    // element-wise operations read their operands element by element, so aliasing is allowed
    switch(op){
      case 0: V[D]=1.5+s; EL(1.5+s); break;
      case 1: V[D]=raw.p; EL(mr[i]); break;
      case 2: V[D]=V[s1]; EL(old[s1][i]); break;
      case 3: V[D]+=V[s1]; EL(old[D][i]+old[s1][i]); break;
      case 4: V[D].sum(V[s1],V[s2]); EL(old[s1][i]+old[s2][i]); break;
      case 5: V[D].sum(V[s1],X); EL(old[s1][i]+me[i]); break;
      case 6: V[D].setsum2(X,V[s1]); EL(me[i]+old[s1][i]); break;
      case 7: V[D].a_Y(a,V[s1]); EL(a*old[s1][i]); break;
      case 8: V[D].x_lc2(V[s1],a,V[s2],b,V[s3]); EL(old[s1][i]+a*old[s2][i]+b*old[s3][i]); break;
      case 9: V[D].lc2(a,V[s1],b,V[s2]); EL(a*old[s1][i]+b*old[s2][i]); break;
      case 10: V[D].lc3(a,V[s1],b,V[s2],c,V[s3]); EL(a*old[s1][i]+b*old[s2][i]+c*old[s3][i]); break;
      case 11: V[D].lc4(a,V[s1],b,V[s2],c,V[s3],dd,V[s1]); EL(a*old[s1][i]+b*old[s2][i]+c*old[s3][i]+dd*old[s1][i]); break;
      case 12: V[D].lc5(a,V[s1],b,V[s2],c,V[s3],dd,V[s1],e,V[s2]); EL(a*old[s1][i]+b*old[s2][i]+c*old[s3][i]+dd*old[s1][i]+e*old[s2][i]); break;
      case 13: V[D].x_lc3(V[s1],a,V[s2],b,V[s3],c,V[s1]); EL(old[s1][i]+a*old[s2][i]+b*old[s3][i]+c*old[s1][i]); break;
      case 14: V[D].x_lc4(V[s1],a,V[s2],b,V[s3],c,V[s1],dd,V[s2]); EL(old[s1][i]+a*old[s2][i]+b*old[s3][i]+c*old[s1][i]+dd*old[s2][i]); break;
      case 15: V[D].a_x_plus_y(a,V[s1],V[s2]); EL(a*old[s1][i]+old[s2][i]); break;
      case 16: V[D].put(raw.p); for(int i=0;i<n;i++) mr[i]=m[D][i]; break;
      case 17: V[D].switchadr(V[s1]); swap(m[D],m[s1]); break;
      case 18: X+=static_cast<fortranVector&>(V[D]); for(int i=0;i<n;i++) me[i]+=m[D][i]; break;
      case 19: static_cast<fortranVector&>(V[D])+=X; EL(old[D][i]+me[i]); break;
      case 20: X=V[D]; for(int i=0;i<n;i++) me[i]=m[D][i]; break;
      case 21: static_cast<fortranVector&>(V[D])=X; EL(me[i]); break;
      case 22: { fortranVector O(n); O=V[s1]; for(int i=1;i<=n;i++) MC_REQUIRE(O(i)==old[s1][i-1],"vector:own-copy","owned copy differs"); O(1)=99; O+=V[s2]; static_cast<fortranVector&>(V[D])=O; M=old[s1]; M[0]=99; for(int i=0;i<n;i++) M[i]+=old[s2][i]; break; }
      case 23: { auto f=[](fortranVector v){ double t=0; for(int i=1;i<=v.get_size();i++) t+=v(i); v(1)=t; }; f(V[D]); double t=0; for(double x:M) t+=x; M[0]=t; break; } // passed by value: shares the storage
      case 24: { int i=s%n; V[D](i+1)=-77; M[i]=-77; (&V[D])[n-1]+=1; M[n-1]+=1; break; }
      case 25: { auto v=numbers(capture([&]{ V[D].print(); })); MC_REQUIRE((int)v.size()==n,"vector:print","printed %zu numbers for a vector of %d",v.size(),n); for(int i=0;i<n;i++) MC_REQUIRE(fabs(v[i]-M[i])<=1e-4*(1+fabs(M[i])),"vector:print","entry %d printed as %g instead of %g",i+1,v[i],M[i]); break; }
    }
    mc::step();
    uint64_t h=n;
    for(int k=0;k<3;k++){ const fortranVectorF<n>&cv=V[k]; MC_REQUIRE(V[k].get_size()==n,"vector:size","size %d",V[k].get_size());
      double*p=&V[k];
      for(int i=1;i<=n;i++){ MC_REQUIRE(V[k](i)==m[k][i-1] && cv(i)==m[k][i-1] && p[i-1]==m[k][i-1],mc::fmt("vector:op%d",op),"op %d (dst %d, src %d): vector %d entry %d is %g, should be %g",op,D,s,k,i,V[k](i),m[k][i-1]); h=mc::hd(h,m[k][i-1]); } }
    for(int i=0;i<n;i++){ MC_REQUIRE(X(i+1)==me[i],mc::fmt("vector:op%d",op),"op %d: adopted array entry %d is %g, should be %g",op,i+1,X(i+1),me[i]);
      MC_REQUIRE(raw.p[i]==mr[i],mc::fmt("vector:op%d",op),"op %d: caller's array entry %d is %g, should be %g",op,i+1,raw.p[i],mr[i]); h=mc::hd(mc::hd(h,me[i]),mr[i]); }
    mc::gstate(h);
    if(d==depth-1){ mc::outcome(h); mc::validated(); }
  }
}
// ---------------------------------------------------------------- matrices
template<class MT,int n,int kl,int ku,bool cplx> static void fillm(MT&a,double (*m)[8],double (*mi)[8]){ }
template<int n,int kl,int ku> static void realmat(){
  constexpr bool full=(kl==n-1&&ku==n-1);
  typedef typename conditional<full,fortranArray<n>,fortranRectangularArray<n,kl,ku>>::type MT;
  auto in=[&](int i,int j){ return j-i<=ku&&i-j<=kl; };
  MT a,b; double m[2][9][9]; memset(m,0,sizeof m); MT*P[2]={&a==nullptr?nullptr:std::addressof(a),std::addressof(b)};
  { int c=0; for(int w=0;w<2;w++) for(int i=1;i<=n;i++)for(int j=1;j<=n;j++) if(in(i,j)){ (*P[w])(i,j)=m[w][i][j]=100*(w+1)+(++c)+0.25; } }
  int ld= full? n : 2*kl+ku+1;
  int depth=mc::thorough()?4:3;
  for(int d=0;d<depth;d++){
    int op=mc::choose(5,"op"); if(d==0) mc::shard(); int w=mc::choose(2,"which"); 
    switch(op){
      case 0: { // fill the unused band cells first: equal_minus may copy them
        P[w]->equal_minus(*P[1-w]); for(int i=1;i<=n;i++)for(int j=1;j<=n;j++) m[w][i][j]=-m[1-w][i][j]; break; }
      case 1: { double v=2.5+d; P[w]->addDiag(v); for(int i=1;i<=n;i++) m[w][i][i]+=v; break; }
      case 2: { int i=mc::choose(n,"i")+1,j=mc::choose(n,"j")+1; if(!in(i,j)) mc::skip(); (*P[w])(i,j)=-5-d; m[w][i][j]=-5-d; break; }
      case 3: { auto v=numbers(capture([&]{ P[w]->print(); })); vector<double> x; for(int i=1;i<=n;i++)for(int j=1;j<=n;j++) if(in(i,j)) x.push_back(m[w][i][j]);
        MC_REQUIRE(v.size()==x.size(),string("matrix:print:")+(full?"full":"band"),"print shows %zu numbers, the matrix has %zu entries",v.size(),x.size());
        for(size_t k=0;k<x.size();k++) MC_REQUIRE(fabs(v[k]-x[k])<=1e-3*(1+fabs(x[k])),string("matrix:print:")+(full?"full":"band"),"number %zu printed as %g instead of %g",k,v[k],x[k]); break; }
      case 4: if constexpr(full){ const fortranArray<n>&src=*P[w]; fortranArray<n> c2(src); for(int i=1;i<=n;i++)for(int j=1;j<=n;j++) MC_REQUIRE(c2(i,j)==m[w][i][j],"matrix:copy","copied entry (%d,%d)",i,j); c2(1,1)=1e9; } else mc::skip(); break;
    }
    mc::step(); uint64_t h=mc::mix(n*100+kl,ku);
    for(int w2=0;w2<2;w2++){ const MT&cm=*P[w2]; double*x=&(*P[w2]);
      for(int i=1;i<=n;i++)for(int j=1;j<=n;j++) if(in(i,j)){ double v=m[w2][i][j]; h=mc::hd(h,v);
        double raw= full? x[(j-1)*ld+i-1] : x[(j-1)*ld+kl+ku+i-j];   // LAPACK storage position
        MC_REQUIRE((*P[w2])(i,j)==v && cm(i,j)==v,mc::fmt("matrix:op%d:%s",op,full?"full":"band"),"n=%d kl=%d ku=%d: entry (%d,%d) of matrix %d is %g, should be %g",n,kl,ku,i,j,w2,cm(i,j),v);
        MC_REQUIRE(raw==v,mc::fmt("matrix:storage:%s",full?"full":"band"),"n=%d kl=%d ku=%d: entry (%d,%d) is not at its LAPACK position",n,kl,ku,i,j); } }
    mc::gstate(h); if(d==depth-1){ mc::outcome(h); mc::validated(); }
  }
}
template<int n,int kl,int ku> static void cplxmat(){
  constexpr bool full=(kl==n-1&&ku==n-1);
  typedef typename conditional<full,fortranComplexArray<n>,fortranRectangularComplexArray<n,kl,ku>>::type MT;
  auto in=[&](int i,int j){ return j-i<=ku&&i-j<=kl; };
  MT a; double r[9][9],q[9][9]; memset(r,0,sizeof r); memset(q,0,sizeof q); int c=0;
  for(int i=1;i<=n;i++)for(int j=1;j<=n;j++) if(in(i,j)){ ++c; r[i][j]=c+0.5; q[i][j]=-c-0.25; a.set(i,j,r[i][j],q[i][j]); }
  int ld= full? n : 2*kl+ku+1; int depth=mc::thorough()?3:2;
  for(int d=0;d<depth;d++){
    int op=mc::choose(4,"op"); if(d==0) mc::shard(); int i=mc::choose(n,"i")+1,j=mc::choose(n,"j")+1; if(!in(i,j)) mc::skip();
    double v=op*10+d+0.125;
    if(op==0){ a.set(i,j,v); r[i][j]=v; q[i][j]=0; }
    else if(op==1){ a.Re(i,j)+=v; r[i][j]+=v; }
    else if(op==2){ a.Im(i,j)=v; q[i][j]=v; }
    else { if(i!=1||j!=1) mc::skip(); auto g=numbers(capture([&]{ a.print(); })); vector<double> x; for(int k=1;k<=n;k++)for(int l=1;l<=n;l++) if(in(k,l)) x.push_back(r[k][l]); for(int k=1;k<=n;k++)for(int l=1;l<=n;l++) if(in(k,l)) x.push_back(q[k][l]);
      MC_REQUIRE(g.size()==x.size(),string("cmatrix:print:")+(full?"full":"band"),"print shows %zu numbers, should be %zu",g.size(),x.size());
      for(size_t k=0;k<x.size();k++) MC_REQUIRE(fabs(g[k]-x[k])<=1e-3*(1+fabs(x[k])),string("cmatrix:print:")+(full?"full":"band"),"number %zu printed as %g instead of %g",k,g[k],x[k]); }
    mc::step(); uint64_t h=mc::mix(n*100+kl,ku+7); double*x=&a;
    for(int k=1;k<=n;k++)for(int l=1;l<=n;l++) if(in(k,l)){ h=mc::hd(mc::hd(h,r[k][l]),q[k][l]); int p=2*(full? (l-1)*ld+k-1 : (l-1)*ld+kl+ku+k-l);
      MC_REQUIRE(a.Re(k,l)==r[k][l]&&a.Im(k,l)==q[k][l],mc::fmt("cmatrix:op%d:%s",op,full?"full":"band"),"n=%d kl=%d ku=%d: entry (%d,%d) is %g%+gi, should be %g%+gi",n,kl,ku,k,l,a.Re(k,l),a.Im(k,l),r[k][l],q[k][l]);
      MC_REQUIRE(x[p]==r[k][l]&&x[p+1]==q[k][l],mc::fmt("cmatrix:storage:%s",full?"full":"band"),"n=%d kl=%d ku=%d: entry (%d,%d) is not at its LAPACK position",n,kl,ku,k,l); }
    mc::gstate(h); if(d==depth-1){ mc::outcome(h); mc::validated(); }
  }
}
#ifdef DEBUG
// bounds-checked build: every index in and around the valid range
template<class F> static bool throws(F f){ try{ f(); return false; }catch(odes::OdesException&){ return true; } }
template<int n,int kl,int ku> static void bounds(){
  constexpr bool full=(kl==n-1&&ku==n-1);
  int i=mc::choose(n+3,"i")-1, j=mc::choose(n+3,"j")-1; mc::shard();
  bool inr=i>=1&&i<=n&&j>=1&&j<=n; bool in=inr&&j-i<=ku&&i-j<=kl;
  mc::step(); mc::state(in+2*full); mc::outcome(in+2*full+4*kl+40*ku); mc::validated();
  volatile double s=0;
  if constexpr(full){ fortranArray<n> a; for(int p=1;p<=n;p++)for(int q=1;q<=n;q++) a(p,q)=0; const auto&c=a;
    MC_REQUIRE(throws([&]{ a(i,j)=1; })!=in && throws([&]{ s=c(i,j); })!=in,"bounds:full","n=%d (%d,%d): checked access %s",n,i,j,in?"refused":"accepted");
    fortranVectorF<n> v; const auto&cv=v; bool iv=i>=1&&i<=n; MC_REQUIRE(throws([&]{ v(i)=1; })!=iv && throws([&]{ s=cv(i); })!=iv,"bounds:vector","n=%d (%d): checked access %s",n,i,iv?"refused":"accepted");
  } else { fortranRectangularArray<n,kl,ku> a; const auto&c=a; fortranRectangularComplexArray<n,kl,ku> z;
    MC_REQUIRE(throws([&]{ a(i,j)=1; })!=in && throws([&]{ s=c(i,j); })!=in,"bounds:band","n=%d kl=%d ku=%d (%d,%d): checked access %s",n,kl,ku,i,j,in?"refused":"accepted");
    MC_REQUIRE(throws([&]{ z.set(i,j,1,1); })!=in && throws([&]{ z.Re(i,j)=1; })!=in && throws([&]{ z.Im(i,j)=1; })!=in,"bounds:cband","n=%d kl=%d ku=%d (%d,%d): checked access %s",n,kl,ku,i,j,in?"refused":"accepted"); }
}
#endif
template<int n,int k> struct Bands{ static void go(int sel,int what){ constexpr int kl=k/n,ku=k%n;
    if(sel==k){
#ifdef DEBUG
      if(what==2){ bounds<n,kl,ku>(); return; }
#endif
      if(what==0) realmat<n,kl,ku>(); else cplxmat<n,kl,ku>(); }
    else if constexpr(k+1<n*n) Bands<n,k+1>::go(sel,what); else mc::skip(); } };
template<int n> static void mats(int what){ int s=mc::choose(n*n,"band"); Bands<n,0>::go(s,what); }
int main(int c,char**v){ return mc::run(c,v,[]{
#ifdef DEBUG
  int what=mc::choose(4,"what");
#else
  int what=mc::choose(3,"what"); if(what==2) what=3;
#endif
  int s=mc::choose(4,"n");
  if(what==3){ if(s==0) vectors<1>(); else if(s==1) vectors<2>(); else if(s==2) vectors<3>(); else vectors<5>(); }
  else { if(s==0) mats<1>(what); else if(s==1) mats<2>(what); else if(s==2) mats<3>(what); else mats<4>(what); }
}); }
