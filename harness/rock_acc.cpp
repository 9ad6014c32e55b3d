// C18: Rock4 reaches the end time with the requested accuracy, for every problem, tolerance, start step and spectral radius bound in the grid.
#define LOGROCK4
#include "rockenv.hpp"
#include "Rock4.hpp"
using namespace std;
// problems with a known or independently computed solution
struct AEnv: REnv { int kind=0; double over=1; 
  static int dim(int k){ static const int D[9]={1,1,2,2,5,12,3,1,6}; return D[k]; }
  void start(double*y){ for(int i=0;i<n;i++) switch(kind){ case 0: y[i]=1; break; case 1: y[i]=0.05; break; case 2: y[i]=i?-0.5:2; break; case 3: y[i]=i?1:3; break; case 4: y[i]=sin(M_PI*(i+1)/6); break; case 5: y[i]=i<4?1:0.01*i; break; case 6: y[i]=i==0?1:0.1*i; break; case 7: y[i]=0; break; default: y[i]=1+0.2*i; } }
  template<class T> void g(const T*y,T*r){ switch(kind){
    case 0: r[0]=-y[0]; break; case 1: r[0]=5*y[0]*(1-y[0]); break; case 2: r[0]=-0.3*y[0]+2*y[1]; r[1]=-2*y[0]-0.3*y[1]; break;
    case 3: r[0]=-1000*y[0]+999*y[1]; r[1]=-y[1]; break;
    case 4: for(int i=0;i<n;i++) r[i]=36*((i?y[i-1]:0)-2*y[i]+(i+1<n?y[i+1]:0)); break;
    case 5: for(int i=0;i<n;i++) r[i]=400*((i?y[i-1]:y[0])-2*y[i]+(i+1<n?y[i+1]:y[n-1]))+10*y[i]*y[i]*(1-y[i]); break;
    case 6: r[0]=-2*y[0]*y[1]; r[1]=y[0]*y[0]-y[1]-y[2]; r[2]=y[1]-3*y[2]; break;
    case 7: r[0]=1; break; // y'=1
    default: for(int i=0;i<n;i++) r[i]=-(T)(i+1)*y[i]*y[i]; } }
  void f(const double*y,double*r)override{ g(y,r); }
  double rho()override{ static const double R[9]={1,5,2.1,1000,144,1620,6,0,30}; return R[kind]*over; } };
// reference: classical RK4 in long double with enough steps (step halving until it agrees)
static vector<LD> exact(AEnv&e,const vector<double>&y0,LD T){ static map<pair<int,double>,vector<LD>> memo; auto key=make_pair(e.kind,(double)T); auto it=memo.find(key); if(it!=memo.end()) return it->second; int n=e.n; auto go=[&](long N){ vector<LD> y(y0.begin(),y0.end()),a(n),b(n),c(n),d(n),u(n); LD h=T/N; for(long s=0;s<N;s++){ e.g(y.data(),a.data()); for(int i=0;i<n;i++) u[i]=y[i]+h/2*a[i]; e.g(u.data(),b.data()); for(int i=0;i<n;i++) u[i]=y[i]+h/2*b[i]; e.g(u.data(),c.data()); for(int i=0;i<n;i++) u[i]=y[i]+h*c[i]; e.g(u.data(),d.data()); for(int i=0;i<n;i++) y[i]+=h/6*(a[i]+2*b[i]+2*c[i]+d[i]); } return y; };
  static const double R[9]={1,5,2.1,1000,144,1620,6,0,30}; long N=max(64L,(long)(1.2*R[e.kind]*(double)T)); vector<LD> a=go(N); for(int k=0;k<12;k++){ N*=2; vector<LD> b=go(N); LD d=0; for(int i=0;i<n;i++) d=max(d,fabsl(a[i]-b[i])); a=b; if(d<1e-11L) break; } memo[key]=a; return a; }
static void body(){
  AEnv e; e.kind=mc::choose(9,"problem"); e.n=AEnv::dim(e.kind); static const double TOL[6]={1e-3,1e-5,1e-7,1e-9,1e-2,1e-10}; int tk=mc::chooseq(4,6,"tolerance"); double tol=TOL[tk]; int kt=mc::choose(3,"kind of tolerance"); // 0 both, 1 absolute only, 2 mostly relative
  static const double TE[6]={1,0.1,2.7182818284590452,1.0/3,7,1e-3}; bool many=(e.kind==0||e.kind==7||e.kind==1)&&tol==1e-5&&kt==0; int iv=mc::choose(many?mc::thorough()?606:206:6,"length"); static const double T0[4]={0,3,-1.5,1e3}; double t0=T0[mc::choose(4,"start")]; mc::shard();
  double te=t0+(iv<6?TE[iv]:0.0537+0.01917*(iv-6)); double len=te-t0; static const double HF[9]={0.01,1.0,1e-5,10,0.99,0.5,1e-8,1.0/3,0.0999}; double h0=HF[mc::choose(9,"h0")]*len; static const double OV[4]={1,1.3,8,100}; e.over=OV[mc::choose(4,"over-estimated spectral radius")];
  double at=tol,rt=tol; if(kt==1) rt=0; if(kt==2) at=tol*1e-3; bool rel= kt==2&&e.kind!=7; if(kt==2&&(e.kind==3||e.kind==5)) mc::skip();
  mc::describe(mc::fmt("problem %d atol=%g rtol=%g [%g,%.17g] h0=%g rho x%g",e.kind,at,rt,t0,te,h0,e.over));
  vector<double> y0(e.n); e.start(y0.data()); RWorld w; w.env=&e; w.record=false; w.horizon=3000000; RProb P(&w); odes::Rock4<RProb> R(P); R.setTolerances(at,rt); double*y=odes::allocDoubleArray(e.n); copy(y0.begin(),y0.end(),y);
  string why; try{ R(y,t0,te,h0); }catch(odes::OdesException&x){ why="an exception"; }catch(Horizon&){ why="no end"; }
  vector<double> yo(y,y+e.n); odes::destroyDoubleArray(y); mc::step(w.nF); MC_REQUIRE(why.empty(),"fails","%s after %d steps",why.c_str(),R.NbSteps());
  // ends exactly at the end time: the log's last accepted event
  { istringstream is(R.Log().tostring()); string ln,last; while(getline(is,ln)) if(ln.find("success")!=string::npos) last=ln; double tl=0; MC_REQUIRE(!last.empty(),"no-step","no accepted step"); sscanf(strstr(last.c_str(),"Time:")+5,"%lf",&tl); MC_REQUIRE(fabs(tl-te)<=1e-5*(fabs(te)+1e-300),"end-time","last accepted time %.17g, end %.17g",tl,te); }
  vector<LD> ex=exact(e,y0,(LD)te-(LD)t0); double sc=0; for(LD v:ex) sc=max(sc,(double)fabsl(v)); double er=0; for(int i=0;i<e.n;i++){ double d=fabs((double)(yo[i]-ex[i]))/(at+rt*max(fabs((double)ex[i]),rel?1e-12:1.0*min(1.0,sc))); er=max(er,d); }
  double lim= (tol<=1e-5? 120: 300)+2*1e-11*max(1.0,sc)/(at+rt*sc); bool judged= (tol<=1e-5&&iv<6)||h0<=0.1*len*(tol>2e-3?0.1:1); // at loose tolerances (or when the first error estimate happens to vanish) the first step must not skip the whole solution
  if(judged) mc::countmax("max error/tolerance x10",10*er); else mc::count("runs whose start step is too long for accuracy to be judged");
  if(!judged) lim=1e300;
  MC_REQUIRE(er<=lim,"inaccurate","error %.4g tolerances, %d steps",er,R.NbSteps()); MC_REQUIRE(R.NbAccepted()>0&&R.NbAccepted()+R.NbRejected()==R.NbSteps(),"counts","%d accepted, %d rejected of %d",R.NbAccepted(),R.NbRejected(),R.NbSteps());
  uint64_t q=e.kind; for(double v:yo) q=mc::hr(q,v); mc::gstate(q); mc::outcome(mc::mix(R.NbSteps(),R.NbRejected()));
  if(R.NbRejected()>2) mc::sample(mc::G().desc+mc::fmt(" -> %d steps (%d rejected), error %.3g tolerances",R.NbSteps(),R.NbRejected(),er)); mc::validated();
}
int main(int c,char**v){ return mc::run(c,v,body); }
