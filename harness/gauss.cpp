// C21: every coefficient of the Gauss and extrapolation tables, for every number of stages and precision.
#include <cmath>
#include <string>
#include <iostream>
#include <vector>
#include <sstream>
#include <limits>
#include <algorithm>
#include "mc.hpp"
#include "gauss_ref.hpp"
#include "GaussianMethod.hpp"
#include "Extrap.hpp"
using std::vector;
template<int ns,class D> static void doit(){
  const bool ld=sizeof(D)>8; const Q eps=std::numeric_limits<D>::epsilon();
  int nh=mc::choose(4,"number of step sizes set before"); static const double HS[6]={1,0.5,-1.3,1e-3,1e6,0}; vector<D> hs; for(int i=0;i<nh;i++) hs.push_back((D)HS[mc::choose(6,"step size")]); mc::shard();
  mc::describe(mc::fmt("Gauss method of %d stages, %s, %d step sizes set",ns,ld?"long double":"double",nh));
  odes::GaussianMethod<ns,D> G; odes::Extrap<1,ns,D> X; D h=1; for(D q:hs){ G.change_h(q); X.change_h(q); h=q; mc::step(); }
  const GaussRef&R=gaussref(ns); Q H=h;
  // nodes: row sums
  if(h==0){ for(int i=0;i<ns;i++){ MC_REQUIRE(G.b[i]==0,"scaled","b not scaled by a null step"); for(int j=0;j<ns;j++) MC_REQUIRE(G.A(i,j)==0&&X.q[i*ns+j]==0,"scaled","not scaled by a null step"); } mc::state(mc::mix(ns,ld)); mc::outcome(1); return; }
  vector<int> perm(ns,-1); vector<char> used(ns,0);
  for(int i=0;i<ns;i++){ Q c=0; for(int j=0;j<ns;j++) c+=G.A(i,j); c/=H; int best=0; for(int k=0;k<ns;k++) if(qabs(R.c[k]-c)<qabs(R.c[best]-c)) best=k; MC_REQUIRE(qabs(R.c[best]-c)<=40*eps,"nodes","stage %d: node %.20Lg is no Legendre root (nearest %.20Lg)",i,(LD)c,(LD)R.c[best]); MC_REQUIRE(!used[best],"nodes","node %.20Lg appears twice",(LD)c); used[best]=1; perm[i]=best; }
  Q sb=0; for(int i=0;i<ns;i++){ Q b=(Q)G.b[i]/H; sb+=b; Q d=qabs(b-R.b[perm[i]]); mc::countmax("max weight error, in thousandths of epsilon",(double)(1000*d/eps)); MC_REQUIRE(d<=2*eps*R.b[perm[i]]+eps/64,"weights","weight %d is %.20Lg instead of %.20Lg",i,(LD)b,(LD)R.b[perm[i]]); mc::eval(); }
  MC_REQUIRE(qabs(sb-1)<=4*eps,"weights","the weights sum to %.20Lg",(LD)sb);
  for(int i=0;i<ns;i++) for(int j=0;j<ns;j++){ Q a=(Q)G.A(i,j)/H,r=R.a[perm[i]*ns+perm[j]],d=qabs(a-r); mc::countmax("max coefficient error, in thousandths of epsilon",(double)(1000*d/eps)); MC_REQUIRE(d<=2*eps*qabs(r)+eps/64,"coefficients","a(%d,%d) is %.20Lg instead of %.20Lg",i,j,(LD)a,(LD)r); mc::eval();
    // symplecticity (Cooper)
    Q cp=(Q)G.b[i]*G.A(i,j)+(Q)G.b[j]*G.A(j,i)-(Q)G.b[i]*G.b[j]; MC_REQUIRE(qabs(cp)<=4*eps*H*H,"symplectic","condition (%d,%d) is off by %.3Lg",i,j,(LD)cp); }
  // quadrature and collocation conditions, from first principles
  for(int k=1;k<=2*ns;k++){ Q s=0; for(int i=0;i<ns;i++){ Q p=1; for(int m=1;m<k;m++) p*=R.c[perm[i]]; s+=G.b[i]*p; } s/=H; MC_REQUIRE(qabs(s-Q(1)/k)<=8*eps,"quadrature","degree %d: %.20Lg",k-1,(LD)s); }
  for(int i=0;i<ns;i++) for(int k=1;k<=ns;k++){ Q s=0,ck=1; for(int m=0;m<k;m++) ck*=R.c[perm[i]]; for(int j=0;j<ns;j++){ Q p=1; for(int m=1;m<k;m++) p*=R.c[perm[j]]; s+=G.A(i,j)*p; } s/=H; MC_REQUIRE(qabs(s-ck/k)<=8*eps,"collocation","stage %d degree %d: off by %.3Lg",i,k-1,(LD)(s-ck/k)); }
  // starting values: integral of the collocation polynomial of the preceding step
  for(int i=0;i<ns;i++){ Q big=0; for(int j=0;j<ns;j++) big=std::max(big,qabs(R.integral(perm[j],1+R.c[perm[i]]))); for(int j=0;j<ns;j++){ Q r=R.integral(perm[j],1+R.c[perm[i]]),a=(Q)X.q[i*ns+j]/H,d=qabs(a-r); mc::countmax("max starting value coefficient error, in thousandths of epsilon",(double)(1000*d/(eps*(qabs(r)+big/64)))); MC_REQUIRE(d<=4*eps*qabs(r)+eps*big/16,"starting-values","q(%d,%d) is %.20Lg instead of %.20Lg",i,j,(LD)a,(LD)r); mc::eval(); } }
  // and applied: exact for polynomials of degree < ns
  for(int k=0;k<ns;k++){ D F[ns],Y[ns],u[1]={(D)0.25}; for(int j=0;j<ns;j++){ Q p=1; for(int m=0;m<k;m++) p*=R.c[perm[j]]; F[j]=(D)p; } X(F,Y,u); for(int i=0;i<ns;i++){ Q p=1,big=1; for(int m=0;m<=k;m++) p*=1+R.c[perm[i]]; for(int j=0;j<ns;j++) big+=qabs((Q)X.q[i*ns+j])*qabs((Q)F[j]); Q ex=Q(0.25)+H*p/(k+1); MC_REQUIRE(qabs((Q)Y[i]-ex)<=ns*8*eps*big,"starting-values","degree %d, stage %d: %.18Lg instead of %.18Lg",k,i,(LD)Y[i],(LD)ex); } }
  // the user's own check prints the Cooper residuals
  { std::stringstream o; auto*old=std::cout.rdbuf(o.rdbuf()); auto st=std::cout.rdstate(); std::cout.clear(); G.verify(); std::cout.rdbuf(old); std::cout.setstate(st); double v; int n=0; while(o>>v){ ++n; MC_REQUIRE(fabs(v)<=4*(double)eps*(double)(H*H),"verify","verify prints %g",v); } MC_REQUIRE(n==ns*ns,"verify","verify prints %d numbers for %d stages",n,ns); }
  mc::gstate(mc::mix(mc::mix(ns,ld),(int)hs.size())); uint64_t o=mc::mix(ns,ld); for(int i=0;i<ns;i++) o=mc::hr(o,(double)G.b[i]); mc::outcome(o); mc::validated(); if(nh==2) mc::sample(mc::G().desc);
}
template<class D> static void which(int s){ switch(s){
#define K(n) case n: doit<n,D>(); break;
  K(2)K(3)K(4)K(5)K(6)K(7)K(8)K(9)K(10)K(11)K(12)K(13)K(14)K(15)K(16) } }
template<int ns,class D> static void refused(){ bool a=false,b=false; try{ odes::GaussianMethod<ns,D> G; }catch(odes::OdesException&){ a=true; } try{ odes::Extrap<1,ns,D> X; }catch(odes::OdesException&){ b=true; } mc::describe(mc::fmt("%d stages",ns)); MC_REQUIRE(a&&b,"not-refused","a number of stages without table is not refused"); mc::outcome(mc::mix(9,ns)); }
static void body(){ int ld=mc::choose(2,"precision"); int s=mc::choose(18,"stages");
  if(s<15){ if(ld) which<long double>(s+2); else which<double>(s+2); }
  else { mc::shard(); if(s==15){ if(ld) refused<1,long double>(); else refused<1,double>(); } else if(s==16){ if(ld) refused<17,long double>(); else refused<17,double>(); } else { if(ld) refused<23,long double>(); else refused<23,double>(); } } }
int main(int c,char**v){ return mc::run(c,v,body); }
