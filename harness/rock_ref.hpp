// Independent long double ROCK4 (Abdulle 2002; rock4.f), with the published coefficient tables read in the layout of Rock4-NG.
#pragma once
#include "rockenv.hpp"
#include "Rock4Coeffs.hpp"
#ifdef ROCK_TABLES_L
#define RT_A(z,j) FPA[((z)-1)*6+(j)-1]
#define RT_B(z,j) FPB[((z)-1)*4+(j)-1]
#define RT_E(z,j) FPBE[((z)-1)*5+(j)-1]
#else
#define RT_A(z,j) FPA[((j)-1)*50+(z)-1]
#define RT_B(z,j) FPB[((j)-1)*50+(z)-1]
#define RT_E(z,j) FPBE[((j)-1)*50+(z)-1]
#endif
struct RockRef { int n; RWorld*w; LD atol=1e-5,rtol=1e-5,lam=0; // lam: largest eigenvalue, for the rounding noise of stiff components
 
  LD t=0,hlast=0; vector<LD> Y; int nsteps=0,nacc=0,nrej=0,maxst=0; bool threw=false; long ambiguous=-1; struct Ev{ LD t; int step; bool ok; LD hnew; }; vector<Ev> ev;
  RockRef(int n_,RWorld*ww):n(n_),w(ww){}
  // pert>0: every stage and every result is perturbed by up to this relative amount, to measure the conditioning of a run
  LD pert=0; uint64_t prs=12345; LD P(){ if(pert==0) return 1; prs=prs*6364136223846793005ull+1442695040888963407ull; return 1+pert*((LD)(prs>>33)/1073741824.0L-1); }

  // The solver decides when to ask for the spectral radius (at least every ten accepted steps): ask() returns the answer it got since
  // the last step, or -1 when it did not ask. Without a guide: asked at every step.
  std::function<LD()> guide; int sinceR=0; bool late=false,asked=false; LD ask(){ LD q; if(guide) q=guide(); else { w->enter('R',nullptr); q=w->env->rho(); } if(q>=0) asked=true; return q; }
  void note(){ if(ambiguous<0) ambiguous=(long)w->tr.size(); }
  void amb(LD v,LD thr,LD rel=2e-6L){ if(!(fabsl(v-thr)>rel*fabsl(thr))) note(); }
  void F(const vector<LD>&y,vector<LD>&r){ vector<double> a(n),b(n); for(int i=0;i<n;i++) a[i]=(double)(y[i]*P()); w->enter('F',a.data()); w->env->f(a.data(),b.data()); r.assign(b.begin(),b.end()); if(pert!=0) for(auto&v:r) v*=P(); }
  // index of the polynomial of degree >= want, and the offset of its recurrence coefficients
  static int zone(int want,int&mr){ mr=1; for(int i=1;i<=50;i++){ if(MS[i-1]>=want) return i; mr+=MS[i-1]*2-1; } return 50; }
  // one step of size h with (at least) polynomial degree deg from y, f(y)=fn ; ynew, f(ynew), returns the error norm; nz: its noise level
  LD step(const vector<LD>&y,const vector<LD>&fn,LD h,int deg,vector<LD>&yn,vector<LD>&fnew,LD&nz,int&used){
    int mr,z=zone(deg,mr); int m=MS[z-1]; used=m; vector<LD> a=y,b(n),c,k[5]; for(int i=0;i<n;i++) b[i]=y[i]+h*RECF[mr-1]*fn[i];
    for(int i=2;i<=m;i++){ LD mu=h*RECF[mr+2*(i-2)],ka=-(LD)RECF[mr+2*(i-2)+1]; F(b,c); for(int q=0;q<n;q++){ LD v=mu*c[q]+(1-ka)*b[q]+ka*a[q]; a[q]=b[q]; b[q]=v*P(); } }
    vector<LD> u(n); F(b,k[1]);
    for(int q=0;q<n;q++) u[q]=b[q]+h*RT_A(z,1)*k[1][q];
    F(u,k[2]); for(int q=0;q<n;q++) u[q]=b[q]+h*(RT_A(z,2)*k[1][q]+RT_A(z,3)*k[2][q]);
    F(u,k[3]); for(int q=0;q<n;q++) u[q]=b[q]+h*(RT_A(z,4)*k[1][q]+RT_A(z,5)*k[2][q]+RT_A(z,6)*k[3][q]);
    F(u,k[4]); yn.assign(n,0); for(int q=0;q<n;q++){ yn[q]=b[q]; for(int s=1;s<5;s++) yn[q]+=h*RT_B(z,s)*k[s][q]; yn[q]*=P(); }
    F(yn,fnew); LD e=0; nz=0; for(int q=0;q<n;q++){ LD d=0,mg=0; for(int s=1;s<5;s++){ d+=h*((LD)RT_E(z,s)-RT_B(z,s))*k[s][q]; mg+=fabsl(h*((LD)RT_E(z,s)-RT_B(z,s))*k[s][q]); } d+=h*RT_E(z,5)*fnew[q]; mg+=fabsl(h*RT_E(z,5)*fnew[q]); { LD ym=0; for(int p=0;p<n;p++) ym=fmaxl(ym,fabsl(yn[p])); LD c=fabsl(RT_E(z,5)); for(int s=1;s<5;s++) c+=fabsl((LD)RT_E(z,s)-RT_B(z,s)); mg+=h*lam*c*ym; } LD sc=atol+rtol*fabsl(yn[q]); e+=d*d/(sc*sc); nz+=mg*mg/(sc*sc); }
    nz=2e-16L*(10+used)*sqrtl(nz/n)*(1+0.01L*h*h); return sqrtl(e/n); }
  void run(const double*y0,double t0,double tend,double h0){ try{ go(y0,t0,tend,h0); }catch(int){ threw=true; } }
  void go(const double*y0,double t0,double tend,double h0){
    t=t0; LD h=h0,errp=-1,enz=0,facmax=5,hp=h,eig=0,told=0; bool rej=false; int nloc=0,pass=0; Y.assign(y0,y0+n); vector<LD> fn,yn,fnew; F(Y,fn);
    while(t<tend){ bool last=false; if(t!=t0||nsteps) amb(1.01L*h,tend-t); if(1.01L*h>=tend-t){ h=tend-t; last=true; }
      if(h<1e-15L) throw 1; { LD q=ask(); if(q>=0){ eig=q; sinceR=0; } else if(sinceR>=10) late=true; if(!asked) late=true; }
      LD st=sqrtl((3+h*eig)/0.353L)+1; if(st>9e8L){ note(); } int mdeg=(int)fminl(st,1e9L); ++pass; { LD f=st-floorl(st); if(f<1e-5L||f>1-1e-5L) note(); }
      if(mdeg>152){ h=0.8L*(152.0L*152*0.353L-3)/eig; mdeg=152; last=false; }
      mdeg=std::max(mdeg,5)-4; int used; LD nz; LD err=step(Y,fn,h,mdeg,yn,fnew,nz,used); maxst=std::max(maxst,used+4); ++nsteps;
      amb(err,1); if((err-nz<1)!=(err+nz<1)) note();
      auto fac_of=[&](LD e,LD ep){ LD fac=powl(e,-0.25L); if(errp>0&&!rej) fac=fminl(fac,powl(ep,0.25L)*fac*fac*(h/hp)); LD fm=rej?1:facmax; return fminl(fm,fmaxl(0.1L,0.8L*fac)); };
      if(!(err==err)){ if(!rej) {} }
      LD fac= err==err? fac_of(err,errp) : 0.1L; if(err==err){ LD f1=fac_of(fmaxl(err-nz,1e-300L),errp+enz),f2=fac_of(err+nz,fmaxl(errp-enz,1e-300L)); if(fabsl(f1-f2)>3e-7L*fac) note(); }
      if(rej) facmax=1; LD hnew=h*fac;
      if(err<1){ ++nacc; facmax=2; t+=h; if(last) t=tend; hlast=h; if(rej){ hnew=fminl(hnew,h); rej=false; nloc=0; } ev.push_back({t,pass,true,hnew}); hp=h; h=hnew; errp=err; enz=nz; Y=yn; fn=fnew; ++sinceR; if(t<tend){ amb(1.1L*h,tend-t); if(1.1L*h>=tend-t) h=tend-t; } }
      else { ev.push_back({t,pass,false,hnew}); rej=true; h=0.8L*hnew; ++nrej; if(told==t){ ++nloc; if(nloc==10) h=1e-5L; } told=t; } } }
};
