// Independent model of RODAS (Hairer & Wanner): long double, dense.
#pragma once
#include "ode.hpp"
#include "rodas_coef.inc"
struct RodasOpt { bool same=true; vector<double> at{1e-6},rt{1e-6}; double safe=0.9; bool gus=true; int nmax=10000; bool single=false; };
struct RodasRef {
  int n,meth; bool numj,aut,dft; int sub,sup; RodasOpt o; World*w;
  double x; vector<LD> Y; LD h=0,first=-1; int naccpt=0,nrejct=0,njac=0,nstep=0,ndec=0; bool threw=false; long ambiguous=-1; vector<pair<LD,vector<LD>>> acc;
  RodasRef(int n_,int m,bool nj,bool au,bool df,int sb,int sp,const RodasOpt&oo,World*ww):n(n_),meth(m),numj(nj),aut(au),dft(df),sub(sb),sup(sp),o(oo),w(ww){}
  void note(){ if(ambiguous<0) ambiguous=(long)w->tr.size(); }
  void amb(LD v,LD t,LD rel=5e-5L){ if(!std::isnan(v)&&!(fabsl(v-t)>rel*fabsl(t))) note(); }
  void F(LD t,const vector<LD>&y,vector<LD>&r){ vector<double> yy(n),rr(n); for(int i=0;i<n;i++) yy[i]=(double)y[i]; w->enter('F',(double)t,yy.data(),n); w->env->f((double)t,yy.data(),rr.data()); r.assign(rr.begin(),rr.end()); }
  void run(double h0,double x0,double xend,const double*y){ try{ go(h0,x0,xend,y); }catch(int){ threw=true; } }
  void go(double h0,double x0,double xend,const double*yin){
    x=x0; Y.assign(yin,yin+n); LD pos=xend-x0>=0?1:-1,hmax=fabsl((LD)xend-x0); h=h0; if(hmax==0) return;
    const LD*c=RC[meth-1]; LD cc[6]={0,c[0],c[1],c[2],1,1},dd[6]={c[3],c[4],c[5],c[6],0,0};
    LD a[6][5]={{0},{c[7]},{c[8],c[9]},{c[10],c[11],c[12]},{c[13],c[14],c[15],c[16]},{c[13],c[14],c[15],c[16],1}};
    LD C[6][5]={{0},{c[17]},{c[18],c[19]},{c[20],c[21],c[22]},{c[23],c[24],c[25],c[26]},{c[27],c[28],c[29],c[30],c[31]}};
    bool last=false,reject=false; LD hacc=0,erracc=0; 
    while(!last){
      if(0.1L*fabsl(h)<=fabsl((LD)x)*1e-16L) throw 1;
      if(fabsl(h)<10e-16L) h=1e-6L; h=fminl(fabsl(h),hmax)*pos;
      { LD d=((LD)x+h*1.0001L-xend)*pos; if(fabsl(d)<1e-6L*fabsl(h)) note(); }
      if(((LD)x+h*1.0001L-xend)*pos>0){ h=(LD)xend-x; last=true; }
      vector<LD> f0,FX(n,0),J(n*n,0); F(x,Y,f0);
      ++njac; { vector<double> yy(n),jj(n*n); for(int i=0;i<n;i++) yy[i]=(double)Y[i];
        if(!numj){ w->enter('J',x,yy.data(),n); w->env->jac(x,yy.data(),jj.data()); for(int i=0;i<n;i++)for(int j=0;j<n;j++) if(j-i<=sup&&i-j<=sub) J[i*n+j]=jj[i*n+j]; }
        else for(int j=0;j<n;j++){ vector<LD> yp=Y,r; double d=sqrt(1e-16*fmax(1e-5,fabs(yy[j]))); yp[j]=(LD)(yy[j]+d); F(x,yp,r); for(int i=0;i<n;i++) if(j-i<=sup&&i-j<=sub) J[i*n+j]=(r[i]-f0[i])/d; }
        if(!aut){ if(dft){ vector<double> rr(n); w->enter('T',x,yy.data(),n); w->env->dft(x,yy.data(),rr.data()); FX.assign(rr.begin(),rr.end()); } else { double d=sqrt(1e-16*fmax(1e-5,fabs(x))); vector<LD> r; F(x+d,Y,r); for(int i=0;i<n;i++) FX[i]=(r[i]-f0[i])/d; } } }
      for(;;){
        if(nstep>=o.nmax) throw 1;
        ++ndec; vector<LD> M(n*n); for(int i=0;i<n*n;i++) M[i]=-J[i]; for(int i=0;i<n;i++) M[i*n+i]+=4/h; { LD big=4/fabsl(h); vector<LD> b(n,1); bool ok=lsolve(M,b,n); LD mx=0; for(auto&v:b) mx=fmaxl(mx,fabsl(v)); if(!ok||mx*big>1e9L) note(); }
        vector<vector<LD>> U(6); vector<LD> yn(n);
        for(int s=0;s<6;s++){ vector<LD> fs; yn=Y; for(int q=0;q<s;q++) for(int i=0;i<n;i++) yn[i]+=a[s][q]*U[q][i];
          if(s==0) fs=f0; else F((LD)x+cc[s]*h,yn,fs);
          vector<LD> b(n); for(int i=0;i<n;i++){ b[i]=fs[i]+(aut?0:h*dd[s]*FX[i]); for(int q=0;q<s;q++) b[i]+=C[s][q]/h*U[q][i]; }
          if(!lsolve(M,b,n)) throw 1; U[s]=b; }
        for(int i=0;i<n;i++) yn[i]+=U[5][i];
        ++nstep; LD err=0; for(int i=0;i<n;i++){ LD at=o.same?o.at[0]:o.at[i],rt=o.same?o.rt[0]:o.rt[i]; LD q=U[5][i]/(at+rt*fmaxl(fabsl(Y[i]),fabsl(yn[i]))); err+=q*q; } err=sqrtl(err/n); amb(err,1); if(numj||(!aut&&!dft)){ LD d=0; for(int i=0;i<n;i++){ LD at=o.same?o.at[0]:o.at[i],rt=o.same?o.rt[0]:o.rt[i]; LD m=0; for(auto&u:U) m=fmaxl(m,fabsl(u[i])); LD q=3e-7L*m/(at+rt*fmaxl(fabsl(Y[i]),fabsl(yn[i]))); d+=q*q; } if(!std::isnan(err)&&!(sqrtl(d)<1e-3L*err)) note(); }
        LD fac=fmaxl(1.0L/6,fminl(5,powl(err,0.25L)/o.safe)),hnew=h/fac;
        if(err<=1){ if(naccpt==0) first=h; ++naccpt;
          if(o.gus){ if(naccpt>1){ LD g=(hacc/h)*powl(err*err/erracc,0.25L)/o.safe; g=fmaxl(1.0L/6,fminl(5,g)); hnew=h/fmaxl(fac,g); } hacc=h; erracc=fmaxl(0.01L,err); }
          Y=yn; x= last? xend : (double)((LD)x+h); acc.push_back({x,Y}); if(fabsl(hnew)>hmax) hnew=pos*hmax; if(reject) hnew=pos*fminl(fabsl(hnew),fabsl(h)); reject=false; h=hnew; break; }
        reject=true; last=false; h=hnew; if(naccpt>=1) ++nrejct; if(x!=0){ LD q=0.1L*fabsl(h)/(fabsl((LD)x)*1e-16L); if(fabsl(q-1)<0.01L) note(); if(q<=1) throw 1; }
      }
      if(o.single) return;
    }
  }
};
