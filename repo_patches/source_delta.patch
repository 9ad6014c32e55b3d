From b840402698ee2acdfd54ad2dad8c16fec557b563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 01/48] fix: complex Hessenberg elimination drops the imaginary
 part when a pivot-row entry is purely imaginary

---
 common/include/Hessenberg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/Hessenberg.hpp b/common/include/Hessenberg.hpp
index 377a6db..405a190 100644
--- a/common/include/Hessenberg.hpp
+++ b/common/include/Hessenberg.hpp
@@ -167,7 +167,7 @@ template<int n> int dechc(fortranArray<n>& Ar,fortranArray<n>& Ai,int ip[])
 		else if(tr==0.0)
 		  for(int i=kp1;i<=na;i++)
 		    {
-		      double prodr=-Ai(i,k)*ti,  prodi=Ar(i,k)*tr;
+		      double prodr=-Ai(i,k)*ti,  prodi=Ar(i,k)*ti;
 		      Ar(i,j)+=prodr;           Ai(i,j)+=prodi;
 		    }
 		else
-- 
2.43.0


From e50a4fe527bd4732df2c383aa0e95bec82789e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 02/48] fix: Hessenberg back-transformation never ends (and
 reads out of bounds) for systems of size 1

---
 common/include/Hessenberg.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/include/Hessenberg.hpp b/common/include/Hessenberg.hpp
index 405a190..3a8f4fb 100644
--- a/common/include/Hessenberg.hpp
+++ b/common/include/Hessenberg.hpp
@@ -255,6 +255,7 @@ template<int n> void householder(const fortranArray<n>& A,const double tau[],
 				 bool direct)
 {
   Y=X;
+  if(n<3) return; // no reflexion at all (and the bounds below would cross).
   int jbeg,jend,jinc;
   if(direct)
     {
-- 
2.43.0


From 8047ead6858042ed34d27aa25734864f355ca0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 03/48] fix: a singular complex Hessenberg matrix is factored
 silently instead of being reported

---
 common/include/Matrices.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/include/Matrices.hpp b/common/include/Matrices.hpp
index e08dea0..25d5235 100644
--- a/common/include/Matrices.hpp
+++ b/common/include/Matrices.hpp
@@ -293,7 +293,10 @@ namespace odes
 	    }
 	  E2R(j,j)+=alpha; E2I(j,j)=beta;
 	}
-      dechc(E2R,E2I,ipi);
+      int info=dechc(E2R,E2I,ipi);
+      if(info!=0)
+	throw OdesException("odes::Matrices::Matrices, decomc (dechc): ",
+			       info);
     }
     inline void solvecomplex(fortranVectorF<n>& Zr,fortranVectorF<n>& Zi,
 			     const fortranArray<n>& Jac)
-- 
2.43.0


From 972ba02aaddbaeef8555d1e1cdff61ca4ba40b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 04/48] fix: Hessenberg work array is released with the wrong
 deallocation function under aligned allocation

---
 common/include/Matrices.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/Matrices.hpp b/common/include/Matrices.hpp
index 25d5235..06f433d 100644
--- a/common/include/Matrices.hpp
+++ b/common/include/Matrices.hpp
@@ -250,9 +250,9 @@ namespace odes
 	  k=work[0];
 	  if(lwork<k)
 	    {
-	      if(work!=0) delete[] work;
+	      destroyDoubleArray(work);
 	      lwork=k;
-	      work=new double[lwork];
+	      work=allocDoubleArray(lwork);
 	    }
 	  dgehrd_(&nn,&ilo,&ihi,&Jac,&lda,tau,work,&k,&info);
 	  if(info!=0)
-- 
2.43.0


From 31387e20b6ea5126c9d4e2c8da3c0b3713b37f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 05/48] fix: copying a full array writes into memory that was
 never allocated

---
 common/include/fortranArray.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/include/fortranArray.hpp b/common/include/fortranArray.hpp
index c988d23..442de06 100644
--- a/common/include/fortranArray.hpp
+++ b/common/include/fortranArray.hpp
@@ -26,10 +26,12 @@ public:
   //! constructor (copy).
   fortranArray(const fortranArray<n>& AA )
   {
-    ASSUME_ALIGNED(x);ASSUME_ALIGNED(AA.x);
+    x=allocDoubleArray(n2);
+    const double *xx=AA.x;
+    ASSUME_ALIGNED(x);ASSUME_ALIGNED(xx);
 #include "Ivdep.hpp"
     for(int i=0;i<n*n;i++)
-      x[i]=AA.x[i];
+      x[i]=xx[i];
   }
   //! destructor
   ~fortranArray()
-- 
2.43.0


From 5f3ddc21dbe136eb27a7def3f917d88a515222dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 06/48] fix: printing a banded matrix reads its loop variable
 before it has a value

---
 common/include/fortranRectangularArray.hpp        | 2 +-
 common/include/fortranRectangularComplexArray.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/fortranRectangularArray.hpp b/common/include/fortranRectangularArray.hpp
index c31c02b..a47fdf7 100644
--- a/common/include/fortranRectangularArray.hpp
+++ b/common/include/fortranRectangularArray.hpp
@@ -108,7 +108,7 @@ public:
     cout<<s<<endl;
     for(int i=1;i<=n;i++)
       {
-  	for(int j=MAX(1,j-kl);j<=MIN(n,j+ku);j++)
+  	for(int j=MAX(1,i-kl);j<=MIN(n,i+ku);j++)
   	  cout<<operator()(i,j)<<" ";
   	cout<<endl;
       }
diff --git a/common/include/fortranRectangularComplexArray.hpp b/common/include/fortranRectangularComplexArray.hpp
index 6959aeb..29879a1 100644
--- a/common/include/fortranRectangularComplexArray.hpp
+++ b/common/include/fortranRectangularComplexArray.hpp
@@ -106,14 +106,14 @@ namespace odes{
       cout<<s<<endl;
       for(int i=1;i<=n;i++)
     	{
-    	  for(int j=MAX(1,j-kl);j<=MIN(n,j+ku);j++)
+    	  for(int j=MAX(1,i-kl);j<=MIN(n,i+ku);j++)
     	    cout<<Re(i,j)<<" ";
     	  cout<<endl;
     	}
       cout<<"---"<<endl;
       for(int i=1;i<=n;i++)
     	{
-    	  for(int j=MAX(1,j-kl);j<=MIN(n,j+ku);j++)
+    	  for(int j=MAX(1,i-kl);j<=MIN(n,i+ku);j++)
     	    cout<<Im(i,j)<<" ";
     	  cout<<endl;
     	}    
-- 
2.43.0


From b9d38810a484c052d57a0147521df6ada84bc9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 07/48] fix: passing or assigning a vector that owns its array
 releases the array twice

---
 common/include/fortranVector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/include/fortranVector.hpp b/common/include/fortranVector.hpp
index b361a26..8924a47 100644
--- a/common/include/fortranVector.hpp
+++ b/common/include/fortranVector.hpp
@@ -53,6 +53,9 @@ public:
     deletable=false;
     x=_x; size=_size;;
   }
+  //! copy constructor: the copy shares the array, but never owns it.
+  fortranVector(const fortranVector& V): x(V.x),size(V.size),deletable(false)
+  {}
   //! destructor
   ~fortranVector()
   {
-- 
2.43.0


From ef5a0060b2494f241fbb8aa756450ecb8d1685c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 08/48] fix: copying a vector into the caller's array copies
 nothing, so Rodas never returns its solution

---
 common/include/fortranVector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/fortranVector.hpp b/common/include/fortranVector.hpp
index 8924a47..cf90099 100644
--- a/common/include/fortranVector.hpp
+++ b/common/include/fortranVector.hpp
@@ -409,11 +409,11 @@ public:
     //! \note we cannot check for the size of x[].
     inline void put(double _x[])
     {
-      //std::copy(y,y+n,x);
-      ASSUME_ALIGNED(x);ASSUME_ALIGNED(_x);
+      // (the array of the caller can have any alignment).
+      ASSUME_ALIGNED(x);
 #include "Ivdep.hpp"
       for(int i=0;i<n;i++)
-	y[i]=x[i];
+	_x[i]=x[i];
     }
     //! print
     void print(string s="") const
-- 
2.43.0


From d2a026668926156b31df57592b70e8bb82dd684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 09/48] fix: absolute value of a difference is wrong, so
 backward integrations stop at once or go astray

---
 Radau5-NG/include/Radau5cc.hpp        | 2 +-
 Rock4-L/include/rock4.hpp             | 2 +-
 Rock4-NG/include/ToolOMP.hpp          | 2 +-
 Rodas-NG/include/Rodascc.hpp          | 2 +-
 SymplecticRK/include/SymplecticRK.hpp | 2 +-
 common/include/Hessenberg.hpp         | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 22d5e0c..0c202ca 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -14,7 +14,7 @@
 #endif
 #define MAX(x,y) ((x)>(y)?(x):(y))
 #define MIN(x,y) ((x)<(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 #define SIGN(a) (((a) >= (0.0)) ? (1.) : (-1.))
 namespace odes
 {
diff --git a/Rock4-L/include/rock4.hpp b/Rock4-L/include/rock4.hpp
index 84a6a98..d5f64c8 100644
--- a/Rock4-L/include/rock4.hpp
+++ b/Rock4-L/include/rock4.hpp
@@ -6,7 +6,7 @@
 #include <utility>
 #include <math.h>
 #include "tbb/tbb.h"
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 #define P2(x)  ((x*x))
 using namespace std;
 using namespace tbb;
diff --git a/Rock4-NG/include/ToolOMP.hpp b/Rock4-NG/include/ToolOMP.hpp
index 55dfd29..576689b 100644
--- a/Rock4-NG/include/ToolOMP.hpp
+++ b/Rock4-NG/include/ToolOMP.hpp
@@ -3,7 +3,7 @@
 #include "Rock4Coeffs.hpp"
 #include "MacrosForCompilers.hpp"
 #include "OdesException.hpp"
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 using namespace std;
 namespace odes {
   ///////////////////////////////////////////////////////////////////////////
diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 13f62e4..e3780fc 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -13,7 +13,7 @@
 #endif
 #define MAX(x,y) ((x)>(y)?(x):(y))
 #define MIN(x,y) ((x)<(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 #define SIGN(a) (((a) >= (0.0)) ? (1.) : (-1.))
 namespace odes
 {
diff --git a/SymplecticRK/include/SymplecticRK.hpp b/SymplecticRK/include/SymplecticRK.hpp
index e3400ba..4929ba2 100644
--- a/SymplecticRK/include/SymplecticRK.hpp
+++ b/SymplecticRK/include/SymplecticRK.hpp
@@ -6,7 +6,7 @@
 #include "Extrap.hpp"
 #include <iostream>
 #define MAX(x,y) ((x)>(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 using namespace std;
 namespace odes{
 ///////////////////////////////////////////////////////////////////////////
diff --git a/common/include/Hessenberg.hpp b/common/include/Hessenberg.hpp
index 3a8f4fb..9d9e54d 100644
--- a/common/include/Hessenberg.hpp
+++ b/common/include/Hessenberg.hpp
@@ -4,7 +4,7 @@
 #include "fortranVector.hpp"
 using namespace odes;
 #define MIN(x,y) ((x)<(y)?(x):(y))
-#define ABS(a) (((a) >= (0.0)) ? (a) : (-a))
+#define ABS(a) (((a) >= (0.0)) ? (a) : (-(a)))
 /////////////////////////////////////////////////////////////////////////////
 /// All what is necessary to compute with Hessenberg matrices (but not
 /// the reduction of a full matrix to Hessenberg form (see Matrices.hpp).
-- 
2.43.0


From 02deaa3a50f8dd7fe55b5e3a1a0b3ab05972d0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 10/48] fix: Radau5 never checks the maximal number of steps
 while Newton keeps failing, and loops for ever

---
 Radau5-NG/include/Radau5cc.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 0c202ca..d66158c 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -497,11 +497,11 @@ namespace odes
       for(;;)
 	{
 	  
-	  if(nstep>nmax)
-	    throw OdesException("Radau5cc() nstep=",nstep,"too large, nmax=",
-				  nmax);
 	  do{//20 in Hairer.
 	    ++nstep;
+	    if(nstep>nmax)
+	      throw OdesException("Radau5cc() nstep=",nstep,"too large, nmax=",
+				  nmax);
 	    // starting values for newton iteration:
 	    xph=x+h;
 	    if(startn||first)
-- 
2.43.0


From 728cdafc82fa04d3e0703e0ee43a0a050460613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 11/48] fix: Radau5 extrapolates starting values with a wrong
 divided difference

---
 Radau5-NG/include/Radau5cc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index d66158c..5a5e998 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -618,7 +618,7 @@ namespace odes
 #include "Ivdep.hpp"
 	      for(int i=1;i<=n;i++)
 		save2(i)=((Z1(i)-Z2(i))*uC1MC2-save1(i))*uC1M1;
-	      double aaa=(uC1MC2-uC1M1)*uC2,bbb=uC1MC2*uC2;
+	      double aaa=(uC1MC2-1./C1)*uC2,bbb=uC1MC2*uC2;
 #include "Ivdep.hpp"
 	      for(int i=1;i<=n;i++)
 		save3(i)=save2(i)-aaa*Z1(i)+bbb*Z2(i); 
-- 
2.43.0


From 0f259876fb90ea5f1393d0063f7988db28e65a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 12/48] fix: Radau5 returns an uninitialised step size when the
 first step is the last

---
 Radau5-NG/include/Radau5cc.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 5a5e998..2c54ad5 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -476,7 +476,6 @@ namespace odes
 	  seth(x,xend-x);
 	  last=true;
 	}
-      else
       hopt=h;
       xold=x;
 
-- 
2.43.0


From c968949fae9d0d201954f34ab02dae1d66ce7c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 13/48] fix: Radau5 commits the unconverged Newton iterate when
 the iteration limit is reached after a first accepted step

---
 Radau5-NG/include/Radau5cc.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 2c54ad5..29e27cb 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -544,6 +544,7 @@ namespace odes
 		    //h/=2.; 
 		    seth(x,h*0.5);
 		    hhfac=0.5;
+		    redonewton=true; reject=true; last=false;
 		    if(!caljac) 
 		      {
 			if(ComputeJacobianNumerically)
-- 
2.43.0


From bf5bff7cf934cb318bd9ba8510eb2f124fc23104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 14/48] fix: Radau5 discards a Newton iteration that converges
 at the iteration limit

---
 Radau5-NG/include/Radau5cc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 29e27cb..f1a4af5 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -225,7 +225,7 @@ namespace odes
 		  leave=true; whyDoWeLeave=converged;
 		}
 	    }
-	  if(newt==nit)
+	  if(!leave&&newt==nit)
 	    {
 	      leave=true; whyDoWeLeave=didNotConverge;
 	    }
-- 
2.43.0


From 33a28ffa921c6da11e7b71143ec9015bab6d07f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 15/48] fix: Radau5 ignores setFacrFacl, and keeps the
 convergence factor of a previous integration

---
 Radau5-NG/include/Radau5cc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index f1a4af5..737ca40 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -455,8 +455,8 @@ namespace odes
       //-------------------
       bool redonewton=true; 
       caljac=true;startn=false; first=true;
-      reject=false,last=false;
-      cfac=safe*(1+2*nit); facr=1.e+0/8.e+0; facl=5.e+0;
+      reject=false,last=false; faccon=1.;
+      cfac=safe*(1+2*nit);
       int reason=0;
       nstep=0; ndec=0;
       //h=_h;
-- 
2.43.0


From 43650ef9e9176db8e824cc8f9c84fb2c16e613d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 16/48] fix: Radau5 does not count the second right-hand side
 evaluation of the error estimate

---
 Radau5-NG/include/Radau5cc.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 737ca40..7c0fe50 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -267,6 +267,7 @@ namespace odes
 	 {
 	   CONT1.sum(CONT1,y);
 	   F(t,&CONT1,&F1);
+	   ++nfonccalled;
 	   CONT1.sum(F1,F2);
 	   solvereal(CONT1,Jac);
 	   err=0.0;
-- 
2.43.0


From d07794f0d994d3d1f589a13dfa3ffae1a14f3143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 17/48] fix: Radau5 in single-step mode advances the solution
 but neither the time nor the counters

---
 Radau5-NG/include/Radau5cc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 7c0fe50..6b45cc4 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -590,7 +590,6 @@ namespace odes
 	  double hnew=h/quot;
 	  if(err<1.0)
 	    {
-	      if(onlyOneStep) {Y+=Z3;break;}
 	      //step accepted
 	      if(naccpt==0) firstAcceptedStep=h;
 	      first=false;++naccpt;
@@ -626,6 +625,7 @@ namespace odes
 
 	      doScal(Y);
 	      caljac=false;
+	      if(onlyOneStep) break;
 	      if(last||0.1*ABS(xend-x)<=ABS(x)*uround)
 		{
 		  seth(x,hopt);
-- 
2.43.0


From fdafa3fb758de9b10a53097e6328cf18016910dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 18/48] fix: Radau5 leaves a perturbed solution behind when the
 right-hand side throws during a numerical Jacobian

---
 Radau5-NG/include/Radau5cc.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 6b45cc4..300cbad 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -81,17 +81,21 @@ namespace odes
     inline void Jacobian(double t,fortranVector y,const fortranVector Fy)
     {
       fortranVectorF<n> R;// move this in class declaration => slower!.
+      // y is the solution of the caller: perturb a copy.
+      fortranVectorF<n> YP;
+      for(int j=1;j<=n;j++)
+	YP(j)=y(j);
       for(int j=1;j<=n;j++)
 	{
 	  double ysafe=y(j);
 	  double delt=sqrt(uround*MAX(1.e-5,ABS(ysafe))),udelt=1.0e+0/delt;
-	  y(j)+=delt;
-	  F(t,&y,&R);
+	  YP(j)+=delt;
+	  F(t,&YP,&R);
 	  int i1=Ibegin(j),i2=Iend(j);
 #include "Ivdep.hpp"
 	  for(int i=i1;i<=i2;i++)
 	    Jac(i,j)=(R(i)-Fy(i))*udelt;
-	  y(j)=ysafe;
+	  YP(j)=ysafe;
 	}
       nfonccalled+=n;
     }
-- 
2.43.0


From 05b3a2eb0fe501df0a0d838085f4f0a8763c799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 19/48] fix: Radau5 on an empty interval divides by a null step
 and never ends

---
 Radau5-NG/include/Radau5cc.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 300cbad..7e01ae6 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -469,6 +469,7 @@ namespace odes
       fortranVectorF<n> y0;
       fortranVector Y(y,n);
       xend=_xend;
+      if(xend==x) return; // nothing to do.
       posneg=SIGN(xend-x);
       hmax=xend-x;
       hmaxn=MIN(ABS(hmax),ABS(xend-x));
-- 
2.43.0


From 0e18095a3bd3196fe6811dc64520748f83206a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 20/48] fix: Rodas on an empty interval throws or spoils the
 solution

---
 Rodas-NG/include/Rodascc.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index e3780fc..8558952 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -329,6 +329,7 @@ namespace odes
       fortranVectorF<n> Y;
       Y=y;
       xend=_xend;
+      if(xend==x) return; // nothing to do.
       posneg=SIGN(xend-x);
       hmax=xend-x;
       hmaxn=MIN(ABS(hmax),ABS(xend-x));
-- 
2.43.0


From a434bf82cf05dadb4929d4f28687a428c74a8c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 21/48] fix: Rodas reads component tolerances one position too
 far, beyond the end of the arrays

---
 Rodas-NG/include/Rodascc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 8558952..852be97 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -232,8 +232,8 @@ namespace odes
 #include "Ivdep.hpp"
 	  for(int i=1;i<=n;i++)
 	    {
-	      rtol(i)=_rtol[i];
-	      atol(i)=_atol[i];
+	      rtol(i)=_rtol[i-1];
+	      atol(i)=_atol[i-1];
 	    }
 	}
     }
-- 
2.43.0


From 228c5dd295c2b3b65619b5e2b7c63e329f2bfebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 22/48] fix: Rodas does not count steps rejected after the
 first accepted one

---
 Rodas-NG/include/Rodascc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 852be97..6c8d01c 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -464,7 +464,7 @@ namespace odes
 		  reject=true;
 		  last=false;
 		  h=hnew;
-		  if(naccpt>1) ++nrejct;
+		  if(naccpt>0) ++nrejct;
 		}
 	    }
 	  while(reject);
-- 
2.43.0


From ad01d10c563ca2d7ab6dc6b5e7759a28648aa9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 23/48] fix: Rodas never checks the maximal number of steps
 while steps are rejected, and loops for ever

---
 Rodas-NG/include/Rodascc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 6c8d01c..56944e9 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -365,6 +365,8 @@ namespace odes
 
 	  do
 	    {
+	      if(nstep>=nmax)
+		throw OdesException("Rodas(): nstep too large:",nstep);
 	      fac=1./(h*GAMMA);
 	     
 	      decomr(fac,Jac);
@@ -468,8 +470,6 @@ namespace odes
 		}
 	    }
 	  while(reject);
-	  if(nstep>nmax)
-	    throw OdesException("Rodas(): nstep too large:",nstep);
 	  if(onlyOneStep) break;
 	}
       
-- 
2.43.0


From ab317d88cd827034e8f86588df84d0758942e5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 24/48] fix: Rodas leaves the initial solution with an advanced
 time when an exception ends the integration

---
 Rodas-NG/include/Rodascc.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 56944e9..5640479 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -454,6 +454,7 @@ namespace odes
 		      erracc=MAX(1.e-02,err);
 		    }
 		  Y=YNEW;
+		  Y.put(y);
 		  xold=x;
 		  x+=h;
 		  if(ABS(hnew)>hmaxn) hnew=posneg*hmaxn;
@@ -472,8 +473,6 @@ namespace odes
 	  while(reject);
 	  if(onlyOneStep) break;
 	}
-      
-      Y.put(y);
     }
   };
 }
-- 
2.43.0


From 2be61b12b531db9ef12d9441dc2f687fb2cf4185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 25/48] fix: data race on the sum of the error estimate of
 Rock4 with parallel loops

---
 Rock4-NG/include/ToolOMP.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rock4-NG/include/ToolOMP.hpp b/Rock4-NG/include/ToolOMP.hpp
index 576689b..789ffa8 100644
--- a/Rock4-NG/include/ToolOMP.hpp
+++ b/Rock4-NG/include/ToolOMP.hpp
@@ -143,7 +143,7 @@ namespace odes {
       ASSUME_ALIGNED(x3);  ASSUME_ALIGNED(x4); 
       ASSUME_ALIGNED(x5);  ASSUME_ALIGNED(y);
 #ifdef ROCK4_OMP
-#pragma omp parallel for
+#pragma omp parallel for reduction(+:ret)
 #endif       
       for(int i=0;i<size;i++)
 	{
-- 
2.43.0


From 79f91b1a653f0235663737c1abb716c8ce266c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 26/48] fix: Rock4 releases a work array twice after the
 right-hand side threw inside a step

---
 Rock4-NG/include/Rock4.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index 7351e97..665e579 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -58,7 +58,7 @@ namespace odes {
     //! \note return error estimator value.
      double kernel(double * Restrict &y,double dt)
     {
-      double *g1=temp;
+      double *&g1=temp;//g1 is another name for temp, even if F throws.
       Fonc& F=*Fp;// told=0.;
       double mz=mp[1],mr=mp[2];
 
@@ -85,7 +85,6 @@ namespace odes {
 	    }
 	}
       if(mdeg>=2) switchAdr(g1,g0);
-      temp=g1;
       funccal+=mdeg-1;
       // result of the recurrence is always in g0.
       //
-- 
2.43.0


From 08886b13a7d60631cb855f0d67f938dd2c964023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 27/48] fix: Rock4 may miss the end time by one rounding error,
 and then fails with 'step too small'

---
 Rock4-NG/include/Rock4.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index 665e579..be62401 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -192,7 +192,7 @@ namespace odes {
       nrej=0; nacc=0;nstagesmax=0;
       double eigmax=0.0;
       double hnew; double facmax=5.0,hp=_h; 
-      //bool last=false; 
+      bool last=false;
       int nrho=0; int nrejloc=0;
       Fonc& F=*Fp;
       int pass=0;
@@ -205,7 +205,10 @@ namespace odes {
       while(t<tend)
 	{
 	  if(1.01e0*h>=ABS(tend-t))
-	    h=ABS(tend-t);
+	    {
+	      h=ABS(tend-t);
+	      last=true;
+	    }
 
 	  if (h<10.0e0*uround)
 	    throw OdesException("Rock4: step too small h=",h,"limit:",
@@ -221,7 +224,7 @@ namespace odes {
 	    {
 	      h=0.8e0*(152.e0*152.e0*0.353e0-3.e0)/eigmax;
 	      mdeg=152;
-	      //last=false;
+	      last=false;
 	    }
 	  mdeg=max(mdeg,5)-4;
 	  if(mdeg!=mdego)
@@ -248,7 +251,8 @@ namespace odes {
 	    {
 	      //accepted step.
 	      ++nacc; facmax=2.0e0;
-	      t+=h;
+	      // do not miss tend because of rounding errors:
+	      t=last? tend: t+h;
 	      hlast=h;
 	      if (reject)
 		{
@@ -273,7 +277,7 @@ namespace odes {
 	      Logit.put(t,pass,rejectedStep,hnew);
 #endif
 	      reject= true;
-	      //last=false;
+	      last=false;
 	      h= 0.8e0*hnew;
 	      ++nrej;
 	      if(nsteps==0) h/=10.e0;
-- 
2.43.0


From c6b31ff23898f11978ed43912fa79377f7aeb501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 28/48] fix: Rock4 does not count the stages of its second
 method in the number of stages

---
 Rock4-NG/include/Rock4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index be62401..6761967 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -163,7 +163,7 @@ namespace odes {
       atol=_atol; rtol=_rtol;
     }
     //! number of stages used (we count both methods).
-    inline int NbStages() const {return mdeg;}
+    inline int NbStages() const {return nstagesmax;}
     //! number of RHS computed
     inline int NbRhsComputed() const {return funccal;}
     //! number of steps performed.
-- 
2.43.0


From bd9d5f7161bcf05930864b415acb196acf4442b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 29/48] fix: Rock4L may miss the end time by one rounding
 error, and then fails with 'step too small'

---
 Rock4-L/include/Rock4L.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index c663f4f..0496eff 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -296,7 +296,8 @@ namespace odes{
       
       while(t<tend)
 	{
-	  if(1.01e0*h>=abs(tend-t))
+	  bool last=1.01e0*h>=abs(tend-t);
+	  if(last)
 	    h=abs(tend-t);
 
 	  if (h<10.0e0*uround)
@@ -317,7 +318,8 @@ namespace odes{
 	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
 	    }
 	  kernel1(y,h);
-	  t+=h;
+	  // do not miss tend because of rounding errors:
+	  t=last? tend: t+h;
 	  if(t+h>tend) h=tend-t;
 	}
     }
@@ -345,7 +347,8 @@ namespace odes{
       
       while(t<tend)
 	{
-	  if(1.01e0*h>=abs(tend-t))
+	  bool last=1.01e0*h>=abs(tend-t);
+	  if(last)
 	    h=abs(tend-t);
 
 	  if (h<10.0e0*uround)
@@ -366,7 +369,8 @@ namespace odes{
 	      if(mdeg+4>nstagesmax) nstagesmax=mdeg+4;
 	    }
 	  kernel2(y,b,h);
-	  t+=h;
+	  // do not miss tend because of rounding errors:
+	  t=last? tend: t+h;
 	  if(t+h>tend) h=tend-t;
 	}
     }
-- 
2.43.0


From 4a428a40c949a3485654e75f3a89b0a2074699df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 30/48] fix: Rock4L counts one right-hand side evaluation too
 many per step

---
 Rock4-L/include/Rock4L.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index 0496eff..2b33bb4 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -138,7 +138,7 @@ namespace odes{
 	}
       switchAdr(g1,g0);
       temp=g1;
-      funccal+=mdeg+1;
+      funccal+=mdeg;
       ++nsteps;
       //
       // result of the recurrence is always in g0.
@@ -205,7 +205,7 @@ namespace odes{
 	}
       switchAdr(g1,g0);
       temp=g1;
-      funccal+=mdeg+1;
+      funccal+=mdeg;
       ++nsteps;
       //
       // result of the recurrence is always in g0.
-- 
2.43.0


From 5e22f211e3494151c5b3b3cda92e68f795773409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 31/48] fix: Rock4L work arrays are not aligned as it assumes
 unless the size is a multiple of the alignment

---
 Rock4-L/include/Rock4L.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index 2b33bb4..cbf411d 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -72,7 +72,7 @@ namespace odes{
     //! make sub arrays.
     inline void splitBigArray()
     {
-      k1=BigArray; g0=k1+size; g1=g0+size; g2=g1+size;
+      k1=BigArray; g0=k1+sizesplit; g1=g0+sizesplit; g2=g1+sizesplit;
     }
     //! permutate 3 adresses g0,g1,g2.
     //! \param g0 
@@ -245,8 +245,8 @@ namespace odes{
     Rock4L(Fonc& F): Fp(&F),size(Fp->size())
     {
       int bk=BLOCK_FACTOR/sizeof(double);
-      sizesplit=BLOCK_FACTOR*(size/bk+ size%bk==0? 0:1);
-      BigArray=allocDoubleArray(4*size);//Allocate(4*size);
+      sizesplit=bk*(size/bk+ (size%bk==0? 0:1));
+      BigArray=allocDoubleArray(4*sizesplit);//Allocate(4*size);
       splitBigArray();
        // do not allocate Vtemp. 
       uround=1.e-16;
-- 
2.43.0


From 4ac50823696abc897cd74b52ced7eb414477d7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 32/48] fix: starting values of the symplectic solver are read
 and written out of bounds unless the size is the number of stages

---
 SymplecticRK/include/Extrap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SymplecticRK/include/Extrap.hpp b/SymplecticRK/include/Extrap.hpp
index ce8baa2..923107c 100644
--- a/SymplecticRK/include/Extrap.hpp
+++ b/SymplecticRK/include/Extrap.hpp
@@ -42,12 +42,12 @@ namespace odes{
       for(int i=0;i<nsteps;i++)
 	{
 	  for(int l=0;l<n;l++)
-	    Y[nsteps*i+l]=u[l];
+	    Y[n*i+l]=u[l];
 	  for(int j=0;j<nsteps;j++)
 	    {
 	      double beta=q[nsteps*i+j];
 	      for(int l=0;l<n;l++)
-		Y[nsteps*i+l]+=beta*F[nsteps*j+l];
+		Y[n*i+l]+=beta*F[n*j+l];
 	    }
 	}
 	    
-- 
2.43.0


From deb1e9f0a07ef360c7f432fdb42cf6f1c3b77cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 33/48] fix: the long double symplectic solver computes with a
 step size and weights truncated to double

---
 SymplecticRK/include/Extrap.hpp         | 4 ++--
 SymplecticRK/include/GaussianMethod.hpp | 2 +-
 SymplecticRK/include/SymplecticRK.hpp   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/SymplecticRK/include/Extrap.hpp b/SymplecticRK/include/Extrap.hpp
index 923107c..dcd3b15 100644
--- a/SymplecticRK/include/Extrap.hpp
+++ b/SymplecticRK/include/Extrap.hpp
@@ -25,7 +25,7 @@ namespace odes{
     ~Extrap(){}
     //! multiply coefficients by h.
     //! \param h
-    void change_h(double h)
+    void change_h(Double h)
     {
        // copy coefficients in q[].
       extrapcoeffs<nsteps,Double>(q);
@@ -45,7 +45,7 @@ namespace odes{
 	    Y[n*i+l]=u[l];
 	  for(int j=0;j<nsteps;j++)
 	    {
-	      double beta=q[nsteps*i+j];
+	      Double beta=q[nsteps*i+j];
 	      for(int l=0;l<n;l++)
 		Y[n*i+l]+=beta*F[n*j+l];
 	    }
diff --git a/SymplecticRK/include/GaussianMethod.hpp b/SymplecticRK/include/GaussianMethod.hpp
index 64afba4..4fc0334 100644
--- a/SymplecticRK/include/GaussianMethod.hpp
+++ b/SymplecticRK/include/GaussianMethod.hpp
@@ -76,7 +76,7 @@ namespace odes{
     }
     //! multiply coefficients by h.
     //! \param h
-    void change_h(double h)
+    void change_h(Double h)
     {
       //init();
       icoeffs<nsteps,long double>(a,b);
diff --git a/SymplecticRK/include/SymplecticRK.hpp b/SymplecticRK/include/SymplecticRK.hpp
index 4929ba2..454d95e 100644
--- a/SymplecticRK/include/SymplecticRK.hpp
+++ b/SymplecticRK/include/SymplecticRK.hpp
@@ -127,7 +127,7 @@ public:
 	
 	for(int i=0;i<nsteps;i++)
 	  {
-	    double bi=G.b[i];
+	    Double bi=G.b[i];
 #include "Ivdep.hpp"
 	    for(int j=0;j<n;j++)
 	      delta[j]+=bi*Y1[i*n+j];
-- 
2.43.0


From 9506c60af7965f1ab007d8105609de62d2833925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 34/48] fix: coefficients of the Gauss methods are tabulated
 with 12 digits (double) or truncated to double (long double)

---
 SymplecticRK/sage/comp1.sage           |  15 +-
 SymplecticRK/sage/generated_coeffs.hpp | 586 ++++++++++++-------------
 2 files changed, 301 insertions(+), 300 deletions(-)

diff --git a/SymplecticRK/sage/comp1.sage b/SymplecticRK/sage/comp1.sage
index e42bd70..cd06689 100644
--- a/SymplecticRK/sage/comp1.sage
+++ b/SymplecticRK/sage/comp1.sage
@@ -27,7 +27,7 @@ def Cooper(s,A,B):
     return sum([abs(B[i][0]*A[i,j]+B[j][0]*A[j,i]-B[i][0]*B[j][0]) \
                 for i in range(s) for j in range(s)])
  
-def lcoeffs(s,Rout,Rpivot):
+def lcoeffs(s,Rout,Rpivot,nm,suffix):
     p=x^s*(x-1)^s
     l=p.derivative(x,s) #the polynomial.
     theRoots=[Rpivot((l.roots()[i][0]).real()) for i in range(0,s)]
@@ -49,17 +49,17 @@ def lcoeffs(s,Rout,Rpivot):
     #print AA.parent(),BB.parent()
     #
     print "Cooper,Rout = ",Cooper(s,AA,BB)
-    la="initializer_list<double> la={"
+    la="initializer_list<"+nm+"> la={"
     for i in range(0,s):
         for j in range(0,s):
-            la+=str(Rout(A[i,j]))+","
+            la+=Rout(A[i,j]).str(truncate=False)+suffix+","
         la+="\n"
     la=la[:-2]+"};\n"
 
 
-    lb="initializer_list<double> lb={"
+    lb="initializer_list<"+nm+"> lb={"
     for i in range(0,s):
-        lb+=str(B[i][0])+","
+        lb+=str(B[i][0])+suffix+","
     lb=lb[:-1]+"};\n"
     d={}
     d['la']=la
@@ -69,7 +69,8 @@ def lcoeffs(s,Rout,Rpivot):
 # "main" program starts here.
 ######################################################################
 
-rngs=[(RDF,"double"),(RealField(112),"long double")]
+# all the digits are written, and long double literals need a suffix.
+rngs=[(RealField(53),"double",""),(RealField(112),"long double","L")]
       
 cc="copy(la.begin(),la.end(),a);\ncopy(lb.begin(),lb.end(),b);\n}\n"
 
@@ -82,7 +83,7 @@ for rng in rngs:
         a="template<> void icoeffs<"+str(i)+","+nm+">("+nm+"* a," \
             +nm+"* b)\n{\n"
         print "\n",nm,i
-        ll=lcoeffs(i,Rout,Rpivot)
+        ll=lcoeffs(i,Rout,Rpivot,nm,rng[2])
         a+=ll["la"]+"\n"+ll["lb"]+"\n"
         #
         fout.write(a)
diff --git a/SymplecticRK/sage/generated_coeffs.hpp b/SymplecticRK/sage/generated_coeffs.hpp
index be5e700..f06cc9e 100644
--- a/SymplecticRK/sage/generated_coeffs.hpp
+++ b/SymplecticRK/sage/generated_coeffs.hpp
@@ -1,7 +1,7 @@
 template<> void icoeffs<2,double>(double* a,double* b)
 {
-initializer_list<double> la={0.25,-0.0386751345948,
-0.538675134595,0.25};
+initializer_list<double> la={0.25000000000000000,-0.038675134594812882,
+0.53867513459481288,0.25000000000000000};
 
 initializer_list<double> lb={0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000,0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000};
 
@@ -11,9 +11,9 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<3,double>(double* a,double* b)
 {
-initializer_list<double> la={0.138888888889,-0.0359766675249,0.00978944401531,
-0.300263194981,0.222222222222,-0.0224854172031,
-0.267988333762,0.480421111969,0.138888888889};
+initializer_list<double> la={0.13888888888888889,-0.035976667524938903,0.0097894440153083260,
+0.30026319498086459,0.22222222222222222,-0.022485417203086815,
+0.26798833376246945,0.48042111196938335,0.13888888888888889};
 
 initializer_list<double> lb={0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778,0.4444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444,0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778};
 
@@ -23,10 +23,10 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<4,double>(double* a,double* b)
 {
-initializer_list<double> la={0.0869637112844,-0.026604180085,0.0126274626894,-0.0035551496858,
-0.1881181175,0.163036288716,-0.0278804286025,0.00673550059454,
-0.167191921974,0.353953006034,0.163036288716,-0.0141906949311,
-0.177482572255,0.313445114742,0.352676757516,0.0869637112844};
+initializer_list<double> la={0.086963711284363464,-0.026604180084998793,0.012627462689404725,-0.0035551496857956832,
+0.18811811749986807,0.16303628871563654,-0.027880428602470895,0.0067355005945381555,
+0.16719192197418877,0.35395300603374397,0.16303628871563654,-0.014190694931141143,
+0.17748257225452261,0.31344511474186835,0.35267675751627186,0.086963711284363464};
 
 initializer_list<double> lb={0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719588,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719589,0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411};
 
@@ -36,11 +36,11 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<5,double>(double* a,double* b)
 {
-initializer_list<double> la={0.059231721264,-0.0195703643591,0.0112544008186,0.00158811296787,-0.00559379366081,
-0.12815100567,0.119657167625,-0.0245921146196,-0.00276899439877,0.0103182806707,
-0.113776288004,0.260004651681,0.142222222222,0.00468715452387,-0.020690316431,
-0.11687532956,0.24490812891,0.273190043626,0.059231721264,0.258884699609,
-0.121232436927,0.228996054579,0.309036559064,-0.00968756314195,0.119657167625};
+initializer_list<double> la={0.059231721264047272,-0.019570364359076037,0.011254400818642956,0.0015881129678659985,-0.0055937936608121849,
+0.12815100567004528,0.11965716762484162,-0.024592114619642200,-0.0027689943987696030,0.010318280670683357,
+0.11377628800422460,0.26000465168064152,0.14222222222222222,0.0046871545238699412,-0.020690316430958285,
+0.11687532956022855,0.24490812891049542,0.27319004362580149,0.059231721264047272,0.25888469960875927,
+0.12123243692686415,0.22899605457899988,0.30903655906408664,-0.0096875631419507397,0.11965716762484162};
 
 initializer_list<double> lb={0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290784,0.2844444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444446,0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290788};
 
@@ -50,12 +50,12 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<6,double>(double* a,double* b)
 {
-initializer_list<double> la={0.0428311230948,-0.0147637259972,0.00932505070648,-0.00566885804948,0.0028544333151,-0.000812780171265,
-0.0926734914304,0.090190393262,-0.0203001022932,0.0103631562402,-0.00488719292804,0.00135556105549,
-0.0822479226128,0.196032162333,0.116978483643,-0.0204825277457,0.00798999189966,-0.00207562578487,
-0.0877378719745,0.172390794624,0.254439495032,0.116978483643,-0.0156513758092,0.00341432357674,
-0.0843066851341,0.185267979452,0.223593811046,0.25425706958,0.090190393262,-0.00701124524079,
-0.0864750263608,0.177526353209,0.239625825336,0.22463191658,0.195144512521,0.0428311230948};
+initializer_list<double> la={0.042831123094792586,-0.014763725997197412,0.0093250507064777512,-0.0056688580494835119,0.0028544333150993351,-0.00081278017126476211,
+0.092673491430378863,0.090190393262034652,-0.020300102293239586,0.010363156240246424,-0.0048871929280376715,0.0013555610554850618,
+0.082247922612843874,0.19603216233324501,0.11697848364317276,-0.020482527745656098,0.0079899918996623358,-0.0020756257848663342,
+0.087737871974451507,0.17239079462440697,0.25443949503200162,0.11697848364317276,-0.015651375809175702,0.0034143235767412987,
+0.084306685134100111,0.18526797945210698,0.22359381104609910,0.25425706957958511,0.090190393262034652,-0.0070112452407936907,
+0.086475026360849935,0.17752635320896997,0.23962582533582904,0.22463191657986777,0.19514451252126672,0.042831123094792586};
 
 initializer_list<double> lb={0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461046,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213883,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939998,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939993,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213892,0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461044};
 
@@ -65,13 +65,13 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<7,double>(double* a,double* b)
 {
-initializer_list<double> la={0.0323712415422,-0.0114510172832,0.00763320387242,-0.00513373356323,0.00317505877369,-0.00160681903705,0.000458109523749,
-0.0700435413787,0.0699263478723,-0.0165900065788,0.00934962278344,-0.0053970919319,0.00264584386673,-0.000743850190172,
-0.0621539357873,0.152005522058,0.0954575126263,-0.0183752442155,0.00871256259848,-0.00395358015881,0.00107671561563,
-0.0663329286177,0.133595769224,0.207701880766,0.104489795918,-0.0167868555134,0.00625692652076,-0.00159044553325,
-0.0636657674688,0.143806275903,0.182202462654,0.227354836052,0.0954575126263,-0.0121528263132,0.00258854729708,
-0.0654863332746,0.137206851878,0.196312117184,0.199629969053,0.207505031831,0.0699263478723,-0.00530105829429,
-0.0642843735607,0.141459514782,0.187739966479,0.2141133254,0.18328182138,0.151303713028,0.0323712415422};
+initializer_list<double> la={0.032371241542217423,-0.011451017283183870,0.0076332038724235449,-0.0051337335632253450,0.0031750587736856376,-0.0016068190370461059,0.00045810952374945298,
+0.070043541378726076,0.069926347872319167,-0.016590006578847771,0.0093496227834433321,-0.0053970919318961379,0.0026458438667300374,-0.00074385019017192362,
+0.062153935787349865,0.15200552205783099,0.095457512626279736,-0.018375244215451837,0.0087125625984751820,-0.0039535801588104381,0.0010767156156279167,
+0.066332928617684701,0.13359576922388229,0.20770188076597078,0.10448979591836735,-0.016786855513411310,0.0062569265207560455,-0.0015904455332498539,
+0.063665767468806930,0.14380627590344877,0.18220246265408429,0.22735483605218653,0.095457512626279736,-0.012152826313192659,0.0025885472970849821,
+0.065486333274606770,0.13720685187790830,0.19631211718445561,0.19962996905329136,0.20750503183140724,0.069926347872319167,-0.0053010582942912296,
+0.064284373560685394,0.14145951478168444,0.18773996647887383,0.21411332539996004,0.18328182138013593,0.15130371302782220,0.032371241542217423};
 
 initializer_list<double> lb={0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590650,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132896,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048930,0.2089795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918361,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048914,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132877,0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590471};
 
@@ -81,14 +81,14 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<8,double>(double* a,double* b)
 {
-initializer_list<double> la={0.0253071340726,-0.00910594330597,0.00628083114703,-0.00448301561305,0.00307849136833,-0.00191767525464,0.000972757664059,-0.000277508327117,
-0.0547593217676,0.0555952586133,-0.0136397962358,0.00814970885836,-0.00521535208915,0.00313975298546,-0.00156493491095,0.000442802304342,
-0.0485875359989,0.120859524997,0.0784266614695,-0.0159751033619,0.00837173272023,-0.0046434658621,0.00222571477528,-0.000618805695251,
-0.0518655209706,0.106193490148,0.170671134275,0.0906709458446,-0.016021041321,0.00724120656122,-0.00319781431036,0.000859236584265,
-0.0497550315609,0.114388331537,0.149612116378,0.19736293301,0.0906709458446,-0.0138178113356,0.00499702707834,-0.00125125282539,
-0.0512330738404,0.108964802451,0.161496788801,0.172970158969,0.197316995051,0.0784266614695,-0.00966900777049,0.00202673214628,
-0.0501714658408,0.112755452138,0.153713569953,0.186557243778,0.173192182831,0.170493119175,0.0555952586133,-0.00414505362237,
-0.0508917764723,0.110217759563,0.158770998194,0.178263400321,0.185824907302,0.150572491792,0.120296460533,0.0253071340726};
+initializer_list<double> la={0.025307134072594065,-0.0091059433059700750,0.0062808311470304740,-0.0044830156130547514,0.0030784913683267799,-0.0019176752546369523,0.00097275766405926353,-0.00027750832711691922,
+0.054759321767554320,0.055595258613343618,-0.013639796235781669,0.0081497088583605505,-0.0052153520891471534,0.0031397529854636689,-0.0015649349109489424,0.00044280230434223782,
+0.048587535998912881,0.12085952499717317,0.078426661469471822,-0.015975103361878431,0.0083717327202261638,-0.0046434658621044798,0.0022257147752848997,-0.00061880569525051537,
+0.051865520970581235,0.10619349014834841,0.17067113427455362,0.090670945844590496,-0.016021041321025013,0.0072412065612222699,-0.0031978143103607703,0.00085923658426485269,
+0.049755031560923277,0.11438833153704801,0.14961211637772137,0.19736293301020600,0.090670945844590496,-0.013817811335609978,0.0049970270783388284,-0.0012512528253931050,
+0.051233073840438645,0.10896480245140234,0.16149678880104812,0.17297015896895483,0.19731699505105942,0.078426661469471822,-0.0096690077704859322,0.0020267321462752486,
+0.050171465840845892,0.11275545213763618,0.15371356995347997,0.18655724377832814,0.17319218283082044,0.17049311917472531,0.055595258613343618,-0.0041450536223661907,
+0.050891776472305049,0.11021775956262797,0.15877099819358060,0.17826340032085421,0.18582490730223574,0.15057249179191317,0.12029646053265731,0.025307134072594065};
 
 initializer_list<double> lb={0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923686,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244513,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271998,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781091084,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781090983,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271946,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244531,0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923785};
 
@@ -98,15 +98,15 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<9,double>(double* a,double* b)
 {
-initializer_list<double> la={0.0203185970904,-0.00739786856615,0.0052220035921,-0.00387345129174,0.00283136945007,0.00122660978881,-0.000622964091649,0.000177778462745,-0.00196219418839,
-0.0439655272265,0.0451620401737,-0.0113354640123,0.00703476680173,-0.00478827613102,-0.00196440573995,0.000987172103666,-0.000280274237641,0.00320336015198,
-0.0390086533963,0.0981815119598,0.0651526741007,-0.0137708339866,0.00766417562464,0.00277082889276,-0.00136167198307,0.000382532112918,-0.0047135864678,
-0.0416450870273,0.0862554727725,0.141795216041,0.07808676926,-0.0146189578759,-0.00393283991504,0.00185268620082,-0.000510573474929,0.00730042826218,
-0.0399403728698,0.0929433722727,0.124257110411,0.170000445255,0.0825598387503,0.00604823779069,-0.00261929192529,0.000696821310952,-0.0138269067353,
-0.0402546620679,0.0916857523305,0.127534519309,0.160887124988,0.157455501876,0.0651526741007,-0.00785743161242,0.0016285407845,0.169944372507,
-0.0409174684184,0.0893369082438,0.132269753941,0.152970178368,0.169907953632,0.141640812214,0.0451620401737,-0.00332833304574,0.149138771718,
-0.040459415718,0.0909470444391,0.129078738413,0.158135732708,0.162288308051,0.125083344609,0.0977219489136,0.0203185970904,0.160046989812,
-0.0411477676557,0.0884713941466,0.134238188117,0.148873110258,0.179738635377,-0.0114898678397,0.00406860757492,-0.00100789284654,0.07808676926};
+initializer_list<double> la={0.020318597090393603,-0.0073978685661487869,0.0052220035921000539,-0.0038734512917449806,0.0028313694500698399,0.0012266097888125607,-0.00062296409164891448,0.00017777846274479865,-0.0019621941883912192,
+0.043965527226528404,0.045162040173714351,-0.011335464012335047,0.0070347668017346814,-0.0047882761310166403,-0.0019644057399535086,0.00098717210366594715,-0.00028027423764094072,0.0032033601519848558,
+0.039008653396284334,0.098181511959848159,0.065152674100733866,-0.013770833986608572,0.0076641756246421386,0.0027708288927590198,-0.0013616719830730039,0.00038253211291805568,-0.0047135864677991946,
+0.041645087027322809,0.086255472772503777,0.14179521604114546,0.078086769260000710,-0.014618957875912557,-0.0039328399150387313,0.0018526862008225239,-0.00051057347492868603,0.0073004282621802264,
+0.039940372869834743,0.092943372272717087,0.12425711041077567,0.17000044525525348,0.082559838750314941,0.0060482377906920612,-0.0026192919252883849,0.00069682131095246267,-0.013826906735252064,
+0.040254662067869150,0.091685752330501706,0.12753451930870871,0.16088712498780061,0.15745550187598774,0.065152674100733866,-0.0078574316124194565,0.0016285407845028723,0.16994437250660999,
+0.040917468418428147,0.089336908243762755,0.13226975394142124,0.15297017836801656,0.16990795363164652,0.14164081221380278,0.045162040173714351,-0.0033283330457411982,0.14913877171826674,
+0.040459415718042407,0.090947044439077617,0.12907873841265517,0.15813573270839264,0.16228830805056004,0.12508334460936768,0.097721948913577489,0.020318597090393603,0.16004698981174640,
+0.041147767655715892,0.088471394146606178,0.13423818811650646,0.14887311025782119,0.17973863537654244,-0.011489867839677734,0.0040686075749249254,-0.0010078928465356026,0.078086769260000710};
 
 initializer_list<double> lb={0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958263,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353767,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188599,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754460237,0.1651196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441912,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188832,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353150,0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958472,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754459123};
 
@@ -116,16 +116,16 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<10,double>(double* a,double* b)
 {
-initializer_list<double> la={0.0166678360772,-0.00612068029234,0.00439200373029,-0.00334535050883,0.00254756897028,-0.00188262038694,0.0013108146277,-0.000820986353138,0.000417243835668,-0.000119093958462,
-0.0360661525782,0.0373628372876,-0.00953137359189,0.00607228446174,-0.00430404581296,0.00306851861087,-0.00209411395745,0.0012962496555,-0.000654328115142,0.000186135539,
-0.0319991179775,0.0812275701119,0.054771590629,-0.0118776128915,0.00687814639771,-0.00450274329686,0.00294087333141,-0.00177613374657,0.000884246091931,-0.00024983875397,
-0.0341639921791,0.0713553690746,0.119207290549,0.0673166798275,-0.0130965195472,0.00694886598384,-0.00414845352723,0.00239281424177,-0.00116229795133,0.00032456210553,
-0.0327609312913,0.0769022997036,0.104444079563,0.14656624555,0.0738810561787,-0.0131122091696,0.00633145505482,-0.00333810079768,0.00155179916885,-0.000424726034358,
-0.0337603981887,0.0731738754064,0.112881282056,0.1283019046,0.160874321527,0.0738810561787,-0.0119328858954,0.0050991016949,-0.00217662512836,0.00057474086306,
-0.0330111100488,0.0758879725266,0.107150367016,0.138781813182,0.140813246374,0.160858631905,0.0673166798275,-0.00966410929077,0.00337030550065,-0.000828320024765,
-0.0335855109083,0.0738414284834,0.111319315005,0.131692486324,0.152264855654,0.14088396596,0.146510972547,0.054771590629,-0.00650189553657,0.00133655417683,
-0.0331495366153,0.0753800026904,0.108246931602,0.136727473612,0.144693593747,0.15206615817,0.128561075193,0.11907455485,0.0373628372876,-0.00273048042385,
-0.0334547661128,0.0743084307396,0.110364167611,0.133322545027,0.149644732744,0.145214543387,0.137978710164,0.105151177528,0.0808463548676,0.0166678360772};
+initializer_list<double> la={0.016667836077172034,-0.0061206802923350299,0.0043920037302885222,-0.0033453505088254947,0.0025475689702787635,-0.0018826203869352566,0.0013108146277030839,-0.00082098635313829113,0.00041724383566783572,-0.00011909395846202753,
+0.036066152578194330,0.037362837287645148,-0.0095313735918896595,0.0060722844617439222,-0.0043040458129593920,0.0030685186108675356,-0.0020941139574503228,0.0012962496554981996,-0.00065432811514246856,0.00018613553900045136,
+0.031999117977514610,0.081227570111860773,0.054771590628995511,-0.011877612891529426,0.0068781463977071448,-0.0045027432968618524,0.0029408733314139495,-0.0017761337465741007,0.00088424609193120902,-0.00024983875397002085,
+0.034163992179108709,0.071355369074635558,0.11920729054875814,0.067316679827499089,-0.013096519547196900,0.0069488659838353903,-0.0041484535272316951,0.0023928142417703565,-0.0011622979513324264,0.00032456210553018286,
+0.032760931291284437,0.076902299703648436,0.10444407956309421,0.14656624555041595,0.073881056178688218,-0.013112209169585375,0.0063314550548206838,-0.0033381007976752756,0.0015517991688514363,-0.00042472603435832735,
+0.033760398188702396,0.073173875406438860,0.11288128205566630,0.12830190460017749,0.16087432152696181,0.073881056178688218,-0.011932885895417777,0.0050991016948968148,-0.0021766251283581394,0.00057474086305963148,
+0.033011110048813886,0.075887972526622723,0.10715036701622067,0.13878181318222987,0.14081324637354104,0.16085863190457333,0.067316679827499089,-0.0096641092907671185,0.0033703055006547387,-0.00082832002476464024,
+0.033585510908314090,0.073841428483359088,0.11131931500456512,0.13169248632358423,0.15226485565423829,0.14088396595966929,0.14651097254652760,0.054771590628995511,-0.0065018955365704763,0.0013365541768294586,
+0.033149536615343617,0.075380002690432765,0.10824693160249282,0.13672747361244850,0.14469359374650890,0.15206615817033583,0.12856107519325426,0.11907455484988068,0.037362837287645148,-0.0027304804238502617,
+0.033454766112806096,0.074308430739622461,0.11036416761112931,0.13332254502729509,0.14964473274431169,0.14521454338709767,0.13797871016382367,0.10515117752770250,0.080846354867625326,0.016667836077172034};
 
 initializer_list<double> lb={0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689192214,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213795469,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104743126,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104384169,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500566581,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500571159,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104387458,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104745261,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213757273,0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689198219};
 
@@ -135,17 +135,17 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<11,double>(double* a,double* b)
 {
-initializer_list<double> la={0.013917141779,-0.00514325562983,0.00373560374914,-0.00290037905138,0.00227274215265,-0.00175240116264,0.00130248911732,-0.000909279657712,0.000570136062283,-0.000289875324978,8.27488930846e-05,
-0.0301142391948,0.0313950923662,-0.00810562697908,0.00526282127354,-0.00383743668169,0.00285354676448,-0.00207783291715,0.00143267781288,-0.000891466711988,0.000451184930916,-0.000128498936997,
-0.0267179838503,0.0682542809172,0.0465725527319,-0.0102895248153,0.00612667324767,-0.00418053753705,0.0029106679541,-0.00195573987509,0.00119821656507,-0.000600947942995,0.000170372117196,
-0.0285266689062,0.0599560307356,0.101365041154,0.058298441148,-0.0116536925867,0.0064383812978,-0.00409164865278,0.00262061890572,-0.00156237108007,0.000771530960015,-0.00021706539084,
-0.0273528599994,0.0646238924303,0.0888021849344,0.126937527092,0.0657011361276,-0.0121240615804,0.00621926257425,-0.00363063338386,0.00206324037555,-0.000992886275646,0.000275899729895,
-0.0281917210619,0.0614771890632,0.0959986109029,0.111095774316,0.143076752307,0.0682312716945,-0.0116744800519,0.00550110797963,-0.00285350543903,0.00131299566925,-0.00035743750378,
-0.0275583838282,0.0637830710081,0.0910818650883,0.12022751568,0.125183009681,0.148586604969,0.0657011361276,-0.0103406447965,0.00434292052948,-0.0018337076978,0.000481423558707,
-0.0280513489489,0.0620186537724,0.0947074765439,0.11397626339,0.135493920908,0.130024162091,0.143055964842,0.058298441148,-0.0082199356897,0.00283415399685,-0.000692385348154,
-0.0276639114409,0.0633911326754,0.0919468888988,0.118552622171,0.128491604301,0.140643080926,0.125275599007,0.126886407111,0.0465725527319,-0.0054640961847,0.00111629970782,
-0.0279627824951,0.0623389998015,0.0940365721759,0.115164204483,0.133480105172,0.133608996624,0.135239708937,0.111334061022,0.101250732443,0.0313950923662,-0.00227995563674,
-0.027751534665,0.0630800600574,0.0925749694016,0.117506161954,0.130099783138,0.138214944552,0.129129530102,0.119497261347,0.0894095017147,0.0679334403623,0.013917141779};
+initializer_list<double> la={0.013917141779043417,-0.0051432556298349055,0.0037356037491408502,-0.0029003790513831500,0.0022727421526499854,-0.0017524011626408274,0.0013024891173182293,-0.00090927965771164065,0.00057013606228344432,-0.00028987532497848204,0.000082748893084583519,
+0.030114239194824456,0.031395092366226156,-0.0081056269790798441,0.0052628212735350151,-0.0038374366816924276,0.0028535467644774986,-0.0020778329171463465,0.0014326778128765731,-0.00089146671198814540,0.00045118493091606917,-0.00012849893699665375,
+0.026717983850266181,0.068254280917154216,0.046572552731933563,-0.010289524815287215,0.0061266732476695373,-0.0041805375370486407,0.0029106679541045778,-0.0019557398750909794,0.0011982165650735222,-0.00060094794299504537,0.00017037211719562097,
+0.028526668906240403,0.059956030735604889,0.10136504115357059,0.058298441147997620,-0.011653692586671389,0.0064383812978048333,-0.0040916486527815450,0.0026206189057208632,-0.0015623710800670055,0.00077153096001517675,-0.00021706539084034529,
+0.027352859999379614,0.064623892430251744,0.088802184934389127,0.12693752709248473,0.065701136127561666,-0.012124061580422001,0.0062192625742500191,-0.0036306333838632411,0.0020632403755468436,-0.00099288627564583451,0.00027589972989484811,
+0.028191721061867196,0.061477189063204498,0.095998610902895762,0.11109577431637017,0.14307675230704278,0.068231271694475158,-0.011674480051919448,0.0055011079796250722,-0.0028535054390286360,0.0013129956692478144,-0.00035743750378036267,
+0.027558383828191985,0.063783071008098147,0.091081865088320282,0.12022751567985848,0.12518300968087331,0.14858660496937232,0.065701136127561666,-0.010340644796489489,0.0043429205294779988,-0.0018337076977994316,0.00048142355870721917,
+0.028051348948927179,0.062018653772437136,0.094707476543934131,0.11397626339027438,0.13549392090790488,0.13002416209114548,0.14305596484179472,0.058298441147997620,-0.0082199356897034662,0.0028341539968474238,-0.00069238534815357011,
+0.027663911440891212,0.063391132675447358,0.091946888898793604,0.11855262217108622,0.12849160430101875,0.14064308092599896,0.12527559900745379,0.12688640711128245,0.046572552731933563,-0.0054640961847019035,0.0011162997078206521,
+0.027962782495083487,0.062338999801536243,0.094036572175855271,0.11516420448311867,0.13348010517226968,0.13360899662447282,0.13523970893681576,0.11133406102246022,0.10125073244294697,0.031395092366226156,-0.0022799556367376224,
+0.027751534665002250,0.063080060057430794,0.092574969401583681,0.11750616195370688,0.13009978313780510,0.13821494455159114,0.12912953010247335,0.11949726134737839,0.089409501714726276,0.067933440362287218,0.013917141779043417};
 
 initializer_list<double> lb={0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838649929,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402346001,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914408754,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325724799,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276299487,0.1364625433889503153572417641681710945780209849473918737988002057266126530195794265058334322403586472850542114611378680642749906819170888434957699026963096227165491234755304019373283442547511811581075650339719603788867858131927395996660065924135188204452273716342980412244481508550772620036689300758564834854,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276297309,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325736902,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914500390,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402413194,0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838632041};
 
@@ -155,18 +155,18 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<12,double>(double* a,double* b)
 {
-initializer_list<double> la={0.0117938340966,-0.00437990215768,0.00321056964126,-0.00252868076292,0.00202324519895,0.00124774475193,-0.00093049983663,0.000650624788775,-0.000408237882558,0.00020761510848,-5.92710487057e-05,-0.00160735902089,
-0.0255198232326,0.0267348314988,-0.00696570366256,0.00458737722346,-0.00341487831326,-0.00198873604147,0.00146425936526,-0.00101552961889,0.000633880729667,-0.000321341337252,9.15875660364e-05,0.00261580117231,
-0.0226415082465,0.0581230577547,0.0400195821358,-0.00896632804601,0.00544880489817,0.00278156916562,-0.00199435710193,0.00136062625077,-0.000840553839985,0.000423460056141,-0.00012030834911,-0.00382839826778,
-0.0241748261227,0.0510550484294,0.0871038538724,0.0507918566808,-0.0103577470217,-0.00390204370621,0.0026638869907,-0.00176593366081,0.00107205559232,-0.000534534766346,0.000151074627301,0.00588867969619,
-0.0231788873634,0.0550336735249,0.0763035605835,0.110596236161,0.0583731341346,0.00591690882966,-0.00367597498519,0.00231791162581,-0.0013672957437,0.000670629185517,-0.000188000196715,-0.0110754199818,
-0.0233514110135,0.0543232717216,0.0782519909929,0.104765642235,0.11120113308,0.0622867614534,-0.0103795246551,0.00480193492467,-0.00245976665589,0.00112275870417,-0.000304349193693,0.135655440636,
-0.02377566839,0.0527990338121,0.0814064600154,0.0992658017357,0.120422243254,0.135648942888,0.0583731341346,-0.00901252279942,0.00373560368819,-0.00156401052723,0.000408780829862,0.118656614077,
-0.023436593566,0.054004197764,0.0789671086794,0.103349647022,0.114082381278,0.118684843211,0.127104015291,0.0507918566808,-0.00706468960073,0.00241461456827,-0.000587157929441,0.128475566613,
-0.0237079765424,0.0530462029415,0.0808797181117,0.100223087111,0.118740625371,0.128401921174,0.111297463371,0.110550041408,0.0400195821358,-0.00465339475702,0.000946159946801,0.121791953741,
-0.0234960806272,0.0537910043349,0.079405283542,0.10259924298,0.115282008904,0.121957721734,0.120161146582,0.0969963361381,0.0870048679342,0.0267348314988,-0.00193215503937,0.126562258948,
-0.023646939242,0.0532620478892,0.0804474021542,0.100933088573,0.117676768106,0.126180881928,0.11472302307,0.104112394124,0.0768285946304,0.0578495651553,0.0117938340966,0.123325778155,
-0.0238920173869,0.0523469042935,0.0824989309276,0.0967817784369,0.127125792924,-0.0110819177291,0.00554513518951,-0.00318192887322,0.00178717327876,-0.000853608723971,0.000236257179789,0.0622867614534};
+initializer_list<double> la={0.011793834096627957,-0.0043799021576793165,0.0032105696412565426,-0.0025286807629152756,0.0020232451989485685,0.0012477447519265958,-0.00093049983662997415,0.00065062478877546513,-0.00040823788255816811,0.00020761510848028751,-0.000059271048705650691,-0.0016073590208866566,
+0.025519823232624464,0.026734831498829608,-0.0069657036625559353,0.0045873772234643440,-0.0034148783132572632,-0.0019887360414740018,0.0014642593652579733,-0.0010155296188907129,0.00063388072966670809,-0.00032134133725187849,0.000091587566036356740,0.0026158011723129094,
+0.022641508246454698,0.058123057754683716,0.040019582135836557,-0.0089663280460137519,0.0054488048981657557,0.0027815691656187481,-0.0019943571019279432,0.0013606262507655327,-0.00084055383998453206,0.00042346005614134717,-0.00012030834911037928,-0.0038283982677820909,
+0.024174826122697199,0.051055048429388676,0.087103853872401592,0.050791856680766480,-0.010357747021696814,-0.0039020437062079334,0.0026638869906981793,-0.0017659336608137411,0.0010720555923151749,-0.00053453476634562252,0.00015107462730097716,0.0058886796961871089,
+0.023178887363393649,0.055033673524889812,0.076303560583484589,0.11059623616095430,0.058373134134588702,0.0059169088296593110,-0.0036759749851926730,0.0023179116258060689,-0.0013672957437024321,0.00067062918551702229,-0.00018800019671465010,-0.011075419981773792,
+0.023351411013466887,0.054323271721629832,0.078251990992912100,0.10476564223475324,0.11120113307966347,0.062286761453350696,-0.010379524655125682,0.0048019349246738741,-0.0024597666558879640,0.0011227587041686619,-0.00030434919369267990,0.13565544063582203,
+0.023775668389970564,0.052799033812142193,0.081406460015375545,0.099265801735726892,0.12042224325437008,0.13564894288847518,0.058373134134588702,-0.0090125227994213350,0.0037356036881885244,-0.0015640105272305964,0.00040878082986226436,0.11865661407704208,
+0.023436593565954936,0.054004197764004838,0.078967108679357938,0.10334964702234670,0.11408238127847923,0.11868484321051428,0.12710401529087422,0.050791856680766480,-0.0070646896007284784,0.0024146145682705391,-0.00058715792944128553,0.12847556661290933,
+0.023707976542366293,0.053046202941517868,0.080879718111657645,0.10022308711076743,0.11874062537110535,0.12840192117448348,0.11129746337101165,0.11055004140754671,0.040019582135836557,-0.0046533947570245002,0.00094615994680121573,0.12179195374108264,
+0.023496080627219557,0.053791004334911094,0.079405283542006405,0.10259924298042367,0.11528200890391943,0.12195772173438848,0.12016114658243467,0.096996336138068617,0.087004867934229048,0.026734831498829608,-0.0019321550393685503,0.12656225894817539,
+0.023646939241961564,0.053262047889178928,0.080447402154231281,0.10093308857275750,0.11767676810580738,0.12618088192758805,0.11472302307022884,0.10411239412444824,0.076828594630416571,0.057849565155338532,0.011793834096627957,0.12332577815477480,
+0.023892017386948593,0.052346904293490554,0.082498930927561077,0.096781778436859087,0.12712579292430309,-0.011081917729120637,0.0055451351895139372,-0.0031819288732202747,0.0017871732787610131,-0.00085360872397061617,0.00023625717978902644,0.062286761453350696};
 
 initializer_list<double> lb={0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952049363,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933437884,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485193300,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511860996273,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579509954,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622278147,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579580542,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511861010094,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485555961,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933242592,0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952155014,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622334800};
 
@@ -176,19 +176,19 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<13,double>(double* a,double* b)
 {
-initializer_list<double> la={0.0101210011913,-0.00377307158533,0.00278561575606,-0.00221827038405,0.00180306469115,-0.00146428618398,0.00117219434523,-0.000913582925477,0.000682707775015,-0.000477846825328,0.000299962625259,-0.000152576299212,4.35604600184e-05,
-0.0219001283175,0.0230303749594,-0.00604331982545,0.00402367675567,-0.00304249472623,0.00238203498777,-0.00186724640081,0.00143647464828,-0.00106442244601,0.000740852231417,-0.000463345539788,0.000235139088197,-6.70516615042e-05,
-0.0194299477196,0.0500695755433,0.0347183775549,-0.00786303206731,0.00485274615855,-0.00348400333661,0.00260906242968,-0.00195372076841,0.00142329508753,-0.000979733532988,0.00060835505903,-0.000307359452503,8.74442385103e-05,
-0.0207461084445,0.0439800566806,0.0755663734122,0.0445364951905,-0.0092209168426,0.00535465088569,-0.00365522679985,0.00260442900235,-0.00184200989476,0.00124460812211,-0.000763750235757,0.000383103892798,-0.000108591577935,
-0.0198907528983,0.0474094387268,0.0661938972977,0.0969774293977,0.0519540118842,-0.0100633070333,0.00553442491475,-0.00358522008286,0.00240894627536,-0.00157902463821,0.000951119931435,-0.000471841291131,0.000132996200941,
-0.0205039757595,0.0450910064519,0.0715749421922,0.0848574338709,0.113150057093,0.0565707950657,-0.0103514560922,0.00539400389969,-0.00329262769908,0.0020503890674,-0.00119902884865,0.000584799095209,-0.000163447833222,
-0.0200379395811,0.0468004290851,0.0678786934545,0.0918730747241,0.0989622717612,0.123214025135,0.0581378883077,-0.0100724350036,0.00494575200722,-0.00280008434311,0.0015580616554,-0.000739679166273,0.000204062801555,
-0.0204054502159,0.0454759508237,0.0706357839585,0.0870226013136,0.107200651468,0.107747586232,0.126627232708,0.0565707950657,-0.00924203332466,0.00421555651003,-0.00213818708227,0.000969743466943,-0.000261973376815,
-0.0201090061817,0.04653259121,0.0684856351785,0.0906520150192,0.101499077493,0.116726810214,0.110741351701,0.123204897165,0.0519540118842,-0.00790443901671,0.00324285781214,-0.00134868880796,0.000351249484407,
-0.0203505939606,0.0456776460261,0.0702005053457,0.0878283822589,0.105750033663,0.110537161129,0.119931003415,0.107786939246,0.113128940611,0.0445364951905,-0.00612961830229,0.00208069323826,-0.000504106061862,
-0.0201545581441,0.0463681093714,0.0688284000509,0.090052723914,0.102484728681,0.1150953109,0.113666714186,0.116625593468,0.0990552776099,0.0969360224483,0.0347183775549,-0.0040088256244,0.000812054663012,
-0.0203090540442,0.0458256108307,0.0699001006497,0.0883321381496,0.104972446214,0.111705115483,0.118143023016,0.110759555144,0.106950518495,0.0850493136253,0.0754800749353,0.0230303749594,-0.00165812593487,
-0.0201984419226,0.0462133262181,0.0691367924846,0.0895508372063,0.103225315993,0.114055173057,0.11510358227,0.114605876315,0.102104959077,0.091291260765,0.0666511393538,0.0498338215042,0.0101210011913};
+initializer_list<double> la={0.010121001191328970,-0.0037730715853257312,0.0027856157560628054,-0.0022182703840461273,0.0018030646911529192,-0.0014642861839759721,0.0011721943452337661,-0.00091358292547694691,0.00068270777501452707,-0.00047784682532805704,0.00029996262525944546,-0.00015257629921204534,0.000043560460018371881,
+0.021900128317529512,0.023030374959432112,-0.0060433198254482345,0.0040236767556734102,-0.0030424947262263455,0.0023820349877676375,-0.0018672464008113140,0.0014364746482838593,-0.0010644224460113070,0.00074085223141718615,-0.00046334553978794089,0.00023513908819660037,-0.000067051661504157901,
+0.019429947719646208,0.050069575543263592,0.034718377554946810,-0.0078630320673086857,0.0048527461585535623,-0.0034840033366076845,0.0026090624296798343,-0.0019537207684109716,0.0014232950875334563,-0.00097973353298765088,0.00060835505902974165,-0.00030735945250345664,0.000087444238510288418,
+0.020746108444520133,0.043980056680602746,0.075566373412184083,0.044536495190486435,-0.0092209168426018347,0.0053546508856877484,-0.0036552267998513166,0.0026044290023489438,-0.0018420098947617049,0.0012446081221076742,-0.00076375023575661126,0.00038310389279833704,-0.00010859157793474338,
+0.019890752898251061,0.047409438726828387,0.066193897297749457,0.096977429397685787,0.051954011884222126,-0.010063307033250376,0.0055344249147495186,-0.0035852200828572028,0.0024089462753595690,-0.0015790246382069437,0.00095111993143486680,-0.00047184129113079978,0.00013299620094112455,
+0.020503975759472767,0.045091006451920914,0.071574942192159463,0.084857433870937933,0.11315005709310656,0.056570795065724310,-0.010351456092249523,0.0053940038996941716,-0.0032926276990788138,0.0020503890674033609,-0.0011990288486457998,0.00058479909520911145,-0.00016344783322185041,
+0.020037939581102676,0.046800429085137372,0.067878693454495904,0.091873074724079340,0.098962271761227679,0.12321402513505619,0.058137888307718478,-0.010072435003607575,0.0049457520072165717,-0.0028000843431064712,0.0015580616553977156,-0.00073967916627314834,0.00020406280155526348,
+0.020405450215879790,0.045475950823655113,0.070635783958539419,0.087022601313569508,0.10720065146752306,0.10774758623175445,0.12662723270768648,0.056570795065724310,-0.0092420333246623081,0.0042155565100349357,-0.0021381870822658433,0.00096974346694330979,-0.00026197337681482725,
+0.020109006181716815,0.046532591209995024,0.068485635178458752,0.090652015019179813,0.10149907749308468,0.11672681021430582,0.11074135170068744,0.12320489716469900,0.051954011884222126,-0.0079044390167129176,0.0032428578121441619,-0.0013486888079641628,0.00035124948440687921,
+0.020350593960592683,0.045677646026065887,0.070200505345650230,0.087828382258865195,0.10575003366320596,0.11053716112909968,0.11993100341528827,0.10778693924576087,0.11312894061104609,0.044536495190486435,-0.0061296183022904643,0.0020806932382614777,-0.00050410606186219323,
+0.020154558144147651,0.046368109371367681,0.068828400050863878,0.090052723913960520,0.10248472868091079,0.11509531089985959,0.11366671418575712,0.11662559346805630,0.099055277609890689,0.096936022448281555,0.034718377554946810,-0.0040088256243993684,0.00081205466301173175,
+0.020309054044162098,0.045825610830667624,0.069900100649681560,0.088332138149555683,0.10497244621445556,0.11170511548316476,0.11814302301624827,0.11075955514368098,0.10695051849467060,0.085049313625299459,0.075480074935341854,0.023030374959432112,-0.0016581259348715719,
+0.020198441922639568,0.046213326218076269,0.069136792484634174,0.089550837206300926,0.10322531599342972,0.11405517305692557,0.11510358227020319,0.11460587631542459,0.10210495907729133,0.091291260765018996,0.066651139353830814,0.049833821504189955,0.010121001191328970};
 
 initializer_list<double> lb={0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123803064,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309061141179,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547440614369,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706180743704,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196847519,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765327175824,0.1162757766154369550972947576344179740783137386533989930593327196723800120403517006913610310213706817103420500023896627293230689834086437483040879644276247672851069454466057862661259264655868052471449074845678242281638885035488432091828695225298621902018505415108811712208315604919001522398125794729191249933,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765326548185,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196999882,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706179183318,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547443278613,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309060101292,0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123836934};
 
@@ -198,20 +198,20 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<14,double>(double* a,double* b)
 {
-initializer_list<double> la={0.00877986508294,-0.00328311623043,0.00243769977191,-0.00195809929678,0.00161116775848,-0.0013305215627,0.00108963888466,-0.00087630200574,0.00068469369104,-0.000512348412843,0.000358848231298,-0.000225331048393,0.000114628208601,-3.27274204462e-05,
-0.0189981535902,0.0200395217899,-0.00528828692878,0.00355141173897,-0.00271822648689,0.00216386043522,-0.00173506996416,0.00137711257618,-0.00106673647746,0.000793568026139,-0.000553593219336,0.00034668128127,-0.000176059960672,5.02217676033e-05,
-0.016855223028,0.0435673907696,0.030379642672,-0.00693923175519,0.0043344047055,-0.00316351532296,0.00242277289054,-0.00187121355052,0.00142453006384,-0.00104760430312,0.000725153252626,-0.000451771845981,0.000228683634142,-6.51217733285e-05,
-0.0179971729466,0.0382681743916,0.0661233345537,0.0393007917895,-0.00823373536491,0.00485948742726,-0.00339128378072,0.00249119959913,-0.00184021037875,0.00132745819948,-0.000907277121182,0.000560545874372,-0.000282277859466,8.01673175676e-05,
-0.0172547617984,0.0412533979918,0.0579204623739,0.0855778714769,0.0463845993695,-0.00912812000307,0.00512982390659,-0.00342399508689,0.0024010077122,-0.00167859385926,0.00112473016941,-0.000686129552117,0.000342844909038,-9.69793854289e-05,
-0.0177874472666,0.0392337598959,0.0626327197422,0.0748787154812,0.101022753501,0.0512996159303,-0.00958636975953,0.00514289425654,-0.00327298200286,0.00217096714652,-0.00140979076807,0.000843606984772,-0.000416706606796,0.000117184468567,
-0.0173819598205,0.040725133888,0.059391606126,0.0810781747136,0.0883477443626,0.11173735847,0.0538159633658,-0.00958944502747,0.00490242083631,-0.00295118084701,0.00181927648653,-0.0010563185247,0.000512797239918,-0.000142965263485,
-0.0177026954294,0.03956624634,0.0618156038686,0.0767823070926,0.095720379586,0.0976968110243,0.117221371759,0.0538159633658,-0.00913812660915,0.00442145437638,-0.00247659113448,0.00136767921796,-0.000646090308141,0.000177770345416,
-0.0174425456973,0.0404957501867,0.0599156783592,0.0800113743472,0.0905982315925,0.105872213864,0.102489032475,0.117218296491,0.0512996159303,-0.00825355476177,0.00372286809792,-0.00187343439821,0.000845283684014,-0.000227717100774,
-0.0176567095513,0.0397361986708,0.0614454148961,0.0774768534097,0.0944477925982,0.100198224148,0.111055921818,0.102502102825,0.111727351864,0.0463845993695,-0.00697628789782,0.0028388229701,-0.00117435441191,0.000304968367469,
-0.0174795628483,0.0403613214393,0.0601987394696,0.0795088607003,0.0914417405395,0.104439442239,0.105140727132,0.111023210512,0.0977397444334,0.101002934104,0.0393007917895,-0.00536404920974,0.00181086918832,-0.000437442780714,
-0.0176248519392,0.0398503599457,0.0612110571899,0.0778764303265,0.0938168030421,0.101174701797,0.109503140282,0.105209153841,0.105762747184,0.0884347940335,0.0855408153343,0.030379642672,-0.00348834718976,0.000704507137926,
-0.0175095083983,0.0402551035406,0.0604126040627,0.0791551767984,0.0919756307128,0.103665968338,0.106254814155,0.109366996696,0.100435371425,0.0954874252259,0.0750501718401,0.0660475722727,0.0200395217899,-0.00143842342432,
-0.0175924575863,0.0399644153713,0.0609846163923,0.0782427353478,0.0932815471518,0.10191453817,0.108508228737,0.106542287847,0.103929753423,0.0911580309805,0.0805596828759,0.058321585572,0.0433621598103,0.00877986508294};
+initializer_list<double> la={0.0087798650829379658,-0.0032831162304293409,0.0024376997719052365,-0.0019580992967758045,0.0016111677584794635,-0.0013305215627029151,0.0010896388846622097,-0.00087630200574045182,0.00068469369103992545,-0.00051234841284292105,0.00035884823129834446,-0.00022533104839267208,0.00011462820860099229,-0.000032727420446201761,
+0.018998153590193569,0.020039521789940052,-0.0052882869287790577,0.0035514117389697223,-0.0027182264868894430,0.0021638604352249803,-0.0017350699641636411,0.0013771125761774936,-0.0010667364774638032,0.00079356802613872968,-0.00055359321933643733,0.00034668128126953928,-0.00017605996067176051,0.000050221767603297298,
+0.016855223027950314,0.043567390769640873,0.030379642671975796,-0.0069392317551903512,0.0043344047055009054,-0.0031635153229594358,0.0024227728905435910,-0.0018712135505188842,0.0014245300638396422,-0.0010476043031229829,0.00072515325262585326,-0.00045177184598141875,0.00022868363414208111,-0.000065121773328480013,
+0.017997172946590066,0.038268174391563671,0.066123334553687191,0.039300791789548384,-0.0082337353649133583,0.0048594874272578585,-0.0033912837807224449,0.0024911995991294662,-0.0018402103787516920,0.0013274581994761574,-0.00090727712118231271,0.00056054587437225696,-0.00028227785946556574,0.000080167317567588027,
+0.017254761798406630,0.041253397991785390,0.057920462373854405,0.085577871476919731,0.046384599369484453,-0.0091281200030688215,0.0051298239065868269,-0.0034239950868932337,0.0024010077122040084,-0.0016785938592608717,0.0011247301694118544,-0.00068612955211677556,0.00034284490903825485,-0.000096979385428897918,
+0.017787447266649899,0.039233759895866247,0.062632719742161539,0.074878715481176031,0.10102275350074334,0.051299615930323901,-0.0095863697595316087,0.0051428942565400377,-0.0032729820028594502,0.0021709671465160652,-0.0014097907680734869,0.00084360698477186348,-0.00041670660679593137,0.00011718446856667141,
+0.017381959820459448,0.040725133888021479,0.059391606125988298,0.081078174713581053,0.088347744362584111,0.11173735846979930,0.053815963365789448,-0.0095894450274670615,0.0049024208363142885,-0.0029511808470121577,0.0018192764865347000,-0.0010563185246974520,0.00051279723991808051,-0.00014296526348536981,
+0.017702695429361301,0.039566246339962024,0.061815603868649044,0.076782307092562067,0.095720379585981065,0.097696811024333513,0.11722137175904596,0.053815963365789448,-0.0091381266091515028,0.0044214543763847960,-0.0024765911344842860,0.0013676792179632946,-0.00064609030814137386,0.00017777034541648336,
+0.017442545697309260,0.040495750186676036,0.059915678359179729,0.080011374347170254,0.090598231592452842,0.10587221386350725,0.10248903247503886,0.11721829649111050,0.051299615930323901,-0.0082535547617744348,0.0037228680979207363,-0.0018734343982099470,0.00084528368401385749,-0.00022771710077396721,
+0.017656709551304829,0.039736198670841850,0.061445414896068368,0.077476853409684913,0.094447792598229779,0.10019822414844379,0.11105592181847213,0.10250210282499207,0.11172735186371662,0.046384599369484453,-0.0069762878978229639,0.0028388229700971876,-0.0011743544119052855,0.00030496836746930162,
+0.017479562848308343,0.040361321439345671,0.060198739469579335,0.079508860700279080,0.091441740539492750,0.10443944223939949,0.10514072713244943,0.11102321051230134,0.097739744433389944,0.10100293410388227,0.039300791789548384,-0.0053640492097355982,0.0018108691883164337,-0.00043744278071413449,
+0.017624851939204412,0.039850359945738024,0.061211057189933011,0.077876430326470914,0.093816803042091890,0.10117470179680816,0.10950314028209778,0.10520915384103530,0.10576274718360724,0.088434794033468001,0.085540815334287118,0.030379642671975796,-0.0034883471897607683,0.00070450713792561757,
+0.017509508398272634,0.040255103540551865,0.060412604062682053,0.079155176798433205,0.091975630712830177,0.10366596833811161,0.10625481415540140,0.10936699669574254,0.10043537142542282,0.095487425225858350,0.075050171840127045,0.066047572272730650,0.020039521789940052,-0.0014384234243176377,
+0.017592457586322133,0.039964415371279113,0.060984616392344264,0.078242735347798423,0.093281547151811828,0.10191453816960788,0.10850822873731935,0.10654228784691669,0.10392975342335072,0.091158030980489443,0.080559682875872572,0.058321585572046356,0.043362159810309446,0.0087798650829379658};
 
 initializer_list<double> lb={0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060882729124,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161732825403,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278127732180,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276041950345,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799226224416,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698742602854,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843661072667,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843659468872,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698741354404,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799221578134,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276015196586,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278148536558,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161726341104,0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060883202379};
 
@@ -221,21 +221,21 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<15,double>(double* a,double* b)
 {
-initializer_list<double> la={0.00768831049903,-0.00288207652296,0.00214977135689,-0.0017388496538,0.00144470413916,-0.00120875124594,-0.000829198279957,0.00066882097553,-0.000523450351173,0.000392046730692,-0.000274715621755,0.000172538127707,-8.77790602646e-05,2.50623437545e-05,0.00100730755285,
-0.016636222751,0.017591511872,-0.00466351386567,0.00315354205167,-0.00243709364542,0.00196545995212,0.00130260473646,-0.00104148556214,0.000810228194456,-0.000604288995042,0.000422194068522,-0.000264629686031,0.000134457272942,-3.83635400719e-05,-0.00160354180515,
-0.0147596657936,0.0382453177464,0.0267898051168,-0.0061612578219,0.00388540778486,-0.00287258727159,-0.00176882660434,0.00138957805663,-0.00106833441026,0.000790333943392,-0.000549070190929,0.000342837152367,-0.000173768948419,4.95161011044e-05,0.00223809184709,
-0.0157597621062,0.033593131848,0.0583100851091,0.0348926694815,-0.00737940946174,0.00441096801813,0.00235280924474,-0.00179283158916,0.00135144263633,-0.00098660966734,0.000679266000451,-0.000421563716076,0.000212853647458,-6.05313101683e-05,-0.00313090802751,
-0.0151094077412,0.0362144152536,0.0510754948902,0.0759798064004,0.0415673014542,-0.00828277336541,-0.00323039674395,0.00233558196615,-0.00170522856069,0.00121948195415,-0.000828185709088,0.000509364129494,-0.000255738444847,7.25131747848e-05,0.00473286955543,
-0.0155763030989,0.0344401095552,0.0552331478313,0.0664782993761,0.0905323400785,0.0465402500039,0.00484679298141,-0.00317822423571,0.00219973318685,-0.00152302038826,0.0010132184771,-0.000614961686883,0.000306254025293,-8.64724368757e-05,-0.0088394434056,
-0.0155025009303,0.0347305608049,0.0545152787351,0.0681643199524,0.0857860006893,0.0886264983356,0.0506445604814,-0.00884395744971,0.0044540016722,-0.00265139778085,0.00162101901072,-0.00093566850152,0.000452462939123,-0.000125879932237,0.108059700113,
-0.0152729660096,0.0355523462959,0.0528291945368,0.0710463622321,0.0811775780039,0.0960621911493,0.110317896557,0.0496078713318,-0.00829283528899,0.003965754028,-0.00220218558161,0.00120863973412,-0.000568634048294,0.000156114201768,0.0944637878374,
-0.0154630934349,0.0348767697188,0.0541945719205,0.068772120486,0.0846576232968,0.0908807668209,0.0964423279814,0.108055186069,0.0465402500039,-0.00739773717005,0.00330703958696,-0.00165353759768,0.000742914188875,-0.00019968210085,0.102393966899,
-0.0153041078233,0.0354387621889,0.0530702461041,0.0706135246722,0.0819151209543,0.0947857285685,0.104519517707,0.0944828731081,0.101363273373,0.0415673014542,-0.00619446743736,0.00250411534341,-0.00103139150959,0.000267213256875,0.0968801606974,
-0.0154371523082,0.0349701700966,0.0540011739497,0.0691060729626,0.0841212125758,0.0917290573714,0.098936311718,0.102346650691,0.0886695319897,0.0905140123702,0.0348926694815,-0.00473047487554,0.00158989189607,-0.000383141108096,0.101008574253,
-0.015327104897,0.0353567926925,0.0532367730812,0.070334409154,0.0823442689651,0.094148834418,0.103057947567,0.0969776508165,0.0959530872794,0.0792491951236,0.075946596785,0.0267898051168,-0.00306229400235,0.000616955204475,0.0978261646069,
-0.0154149845381,0.0350485664711,0.0538442399196,0.0693631448946,0.0837388919035,0.0922702718133,0.0999865162263,0.100819284469,0.0911150400557,0.0855716965539,0.0666317969114,0.0582431240993,0.017591511872,-0.00125960175292,0.100257228226,
-0.0153515586543,0.0352708028043,0.0534070721059,0.0700600545848,0.0827425561778,0.093603950359,0.102118319243,0.0982084351107,0.0942892512537,0.0816898987693,0.0715241886169,0.0514298388767,0.038065100267,0.00768831049903,0.098546921688,
-0.0152205067963,0.0357516577923,0.0523709704995,0.0719875245447,0.0791688488805,0.101373335297,-0.00902877559412,0.00475195482617,-0.0029816911415,0.00195702490455,-0.00126102326903,0.00075041569679,-0.000369322551827,0.000103654988414,0.0496078713318};
+initializer_list<double> la={0.0076883104990293171,-0.0028820765229643958,0.0021497713568885064,-0.0017388496538029808,0.0014447041391572614,-0.0012087512459368855,-0.00082919827995727006,0.00066882097552991719,-0.00052345035117272506,0.00039204673069160201,-0.00027471562175491812,0.00017253812770657704,-0.000087779060264586875,0.000025062343754512099,0.0010073075528533547,
+0.016636222750978340,0.017591511872027031,-0.0046635138656713992,0.0031535420516706018,-0.0024370936454186125,0.0019654599521175564,0.0013026047364613939,-0.0010414855621420356,0.00081022819445585975,-0.00060428899504152271,0.00042219406852206440,-0.00026462968603052397,0.00013445727294186561,-0.000038363540071862301,-0.0016035418051517094,
+0.014759665793583560,0.038245317746405578,0.026789805116792984,-0.0061612578218982645,0.0038854077848574900,-0.0028725872715850090,-0.0017688266043438791,0.0013895780566306665,-0.0010683344102573673,0.00079033394339187382,-0.00054907019092940758,0.00034283715236674490,-0.00017376894841906293,0.000049516101104364297,0.0022380918470861215,
+0.015759762106154141,0.033593131847985419,0.058310085109126866,0.034892669481538579,-0.0073794094617397638,0.0044109680181259071,0.0023528092447386044,-0.0017928315891597558,0.0013514426363325421,-0.00098660966733978017,0.00067926600045123943,-0.00042156371607571640,0.00021285364745838293,-0.000060531310168263212,-0.0031309080275134242,
+0.015109407741184134,0.036214415253647508,0.051075494890179094,0.075979806400440883,0.041567301454248483,-0.0082827733654088050,-0.0032303967439495117,0.0023355819661517656,-0.0017052285606943203,0.0012194819541541359,-0.00082818570908839076,0.00050936412949392394,-0.00025573844484729547,0.000072513174784847428,0.0047328695554341244,
+0.015576303098908424,0.034440109555179286,0.055233147831263447,0.066478299376112362,0.090532340078546263,0.046540250003890553,0.0048467929814069643,-0.0031782242357116309,0.0021997331868474014,-0.0015230203882628408,0.0010132184771003283,-0.00061496168688320951,0.00030625402529272587,-0.000086472436875724120,-0.0088394434055960329,
+0.015502500930295683,0.034730560804930730,0.054515278735106159,0.068164319952359527,0.085786000689348748,0.088626498335584351,0.050644560481390318,-0.0088439574497094635,0.0044540016721967550,-0.0026513977808517812,0.0016210190107176304,-0.00093566850152019198,0.00045246293912333277,-0.00012587993223704875,0.10805970011326525,
+0.015272966009644653,0.035552346295881237,0.052829194536795913,0.071046362232111083,0.081177578003944235,0.096062191149277262,0.11031789655690168,0.049607871331777894,-0.0082928352889867348,0.0039657540279972049,-0.0022021855816083159,0.0012086397341244596,-0.00056863404829362148,0.00015611420176767382,0.094463787837382634,
+0.015463093434934358,0.034876769718761336,0.054194571920469177,0.068772120485976829,0.084657623296759808,0.090880766820933704,0.096442327981373672,0.10805518606915182,0.046540250003890553,-0.0073977371700492958,0.0033070395869647957,-0.0016535375976774791,0.00074291418887477672,-0.00019968210084979026,0.10239396689926742,
+0.015304107823273787,0.035438762188901358,0.053070246104092044,0.070613524672165548,0.081915120954342831,0.094785728568475426,0.10451951770673015,0.094482873108121664,0.10136327337318991,0.041567301454248483,-0.0061944674373637261,0.0025041153434068736,-0.0010313915095934453,0.00026721325687450016,0.096880160697404023,
+0.015437152308226897,0.034970170096595679,0.054001173949661684,0.069106072962625918,0.084121212575836747,0.091729057371448563,0.098936311718042032,0.10234665069106921,0.088669531989655198,0.090514012370236731,0.034892669481538579,-0.0047304748755408987,0.0015898918960686438,-0.00038314110809550643,0.10100857425271554,
+0.015327104896954270,0.035356792692473125,0.053236773081219223,0.070334409154006565,0.082344268965105093,0.094148834418038473,0.10305794756712452,0.096977650816469667,0.095953087279366115,0.079249195123639477,0.075946596784975422,0.026789805116792984,-0.0030622940023515154,0.00061695520447507423,0.097826164606925122,
+0.015414984538130496,0.035048566471112197,0.053844239919616491,0.069363144894555093,0.083738891903538489,0.092270271813325246,0.099986516226319243,0.10081928446870750,0.091115040055663549,0.085571696553915579,0.066631796911406555,0.058243124099257367,0.017591511872027031,-0.0012596017529197063,0.10025722822569782,
+0.015351558654304122,0.035270802804318649,0.053407072105879390,0.070060054584832075,0.082742556177805365,0.093603950358953831,0.10211831924273791,0.098208435110702434,0.094289251253717991,0.081689898769339705,0.071524188616880138,0.051429838876697461,0.038065100267018458,0.0076883104990293171,0.098546921688025871,
+0.015220506796290960,0.035751657792347684,0.052370970499461508,0.071987524544685473,0.079168848880499762,0.10137333529676784,-0.0090287755941210468,0.0047519548261731541,-0.0029816911414961564,0.0019570249045527315,-0.0012610232690339256,0.00075041569679005453,-0.00036932255182717491,0.00010365498841398089,0.049607871331777894};
 
 initializer_list<double> lb={0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682830460390,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588209219898,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708189811013,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498954293869,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029809258764,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924637160946,0.1012891209627806364403100999837596574193310790047386783983520580257176993773730370466967203563940160676757413354149950886547623144359741096337832934569531306128042724779321515918252514989111725708462305198901935498672095408692145288881885618482355079091675828272564869301466038062774659511256247852975994681,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302649829266,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924593310703,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029790738017,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498847014021,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708140197696,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588143487435,0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682840107698,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302625108573};
 
@@ -245,22 +245,22 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<16,double>(double* a,double* b)
 {
-initializer_list<double> la={0.00678811485294,-0.00254981560167,0.00190909917814,0.00130038636167,-0.0010994139781,0.000928810382461,-0.000778400292638,0.000642913073058,-0.000519591764617,0.00040712132102,-0.000305112838734,0.000213868739423,6.83510931381e-05,-0.00155293958635,-0.000134342751559,-1.95156840006e-05,
-0.0146883557391,0.0155633809847,-0.00414132717597,-0.00219345482568,0.00178743918154,-0.00147829989567,0.00122248349189,-0.00100078933566,0.00080388482228,-0.000627151628945,0.000468554602992,-0.000327706017463,-0.000104467756263,0.00281624066329,0.000205533641771,2.9811971512e-05,
-0.013031488757,0.033836054138,0.0237896279206,0.00349652217282,-0.00261183969113,0.00206262230134,-0.0016592708238,0.00133445175088,-0.00105910023568,0.000819360728619,-0.000608529289731,0.000423816016176,0.000134461891658,-0.005501892634,-0.000265040935249,-3.83332614651e-05,
-0.0133402027363,0.0320395557787,0.0453551063259,0.0373989972041,-0.00752716211389,0.00435798231924,-0.00302623842372,0.00223860976756,-0.0016860315402,0.0012598276945,-0.000913650835738,0.00062593432646,0.000194986345721,0.0678462253282,-0.000387087528109,-5.53795862795e-05,
-0.0137527040949,0.030468942878,0.0490485387199,0.081454747949,0.0422891298488,-0.00813602844568,0.00453707368666,-0.0030426448597,0.00217120095071,-0.00156962068732,0.0011141466517,-0.000752443887086,-0.000230806350741,0.0593603918071,0.000460929012641,6.53498025627e-05,
-0.0134381190018,0.0316307469464,0.0465043796221,0.0712277617589,0.0921151518922,0.0456508537612,-0.00844642793523,0.00454380119921,-0.00293743652118,0.00201131394853,-0.00138126417499,0.000913338905275,0.000274062032276,0.0642830051583,-0.000551919591018,-7.72613934738e-05,
-0.0136877916708,0.0307250535497,0.0484126854179,0.0771876047046,0.0805272007369,0.0994428614739,0.0473626526138,-0.00844803342104,0.00437957742267,-0.00271671446709,0.00176767465118,-0.00113163758565,-0.000328859657487,0.060863467025,0.000670277294016,9.21436520028e-05,
-0.0134840860539,0.0314556216268,0.0469089785472,0.0730303197571,0.0872949741646,0.0869221300998,0.103173338649,0.0473626526138,-0.00814115395141,0.00405105896059,-0.00238961029634,0.00145101860274,0.000401708419647,0.0634461232134,-0.000833429576667,-0.00011156196489,
-0.0136534910994,0.030852699937,0.0481311754323,0.0761792585833,0.082566945749,0.0942391440436,0.0901815040283,0.103171733163,0.0456508537612,-0.00753689219466,0.00357023264943,-0.00196851953058,-0.000503984977066,0.0614011467225,0.0010748762191,0.000138110704035,
-0.0135108799033,0.0313575683201,0.0471183268286,0.0736838477566,0.0861478803848,0.0891305065718,0.0977679500872,0.0901882315409,0.0994377359681,0.0422891298488,-0.00665675354067,0.00295409382069,0.000657819091304,0.0630669295149,-0.00146928287866,-0.000176474389069,
-0.0136316092922,0.0309317756236,0.0479663433694,0.075711645244,0.083318432003,0.0929877390627,0.09248669546,0.0977515436513,0.0869437252032,0.0921054218114,0.0373989972041,-0.00553173970039,-0.000912793809372,0.0616885513013,0.00222414951539,0.000236026969602,
-0.0135296349037,0.0312904546822,0.047255657717,0.0740466661773,0.0855995373964,0.0899635050041,0.0964455266917,0.0925195872689,0.0941859356858,0.0805687246461,0.0814379117728,0.0311572428139,0.00140674278045,0.0628342944282,-0.00420088450714,-0.000338333283687,
-0.0135464177344,0.0312312297256,0.0473737221995,0.0743294398053,0.0852054113264,0.0904978227002,0.0957260945632,0.0935028217356,0.0927800074181,0.082790820516,0.076991449234,0.0594982449645,0.0155633809847,0.0626421916452,0.0517205830172,-0.00111212603322,
-0.0139145629896,0.0297200191889,0.0517801403484,-0.00663991736447,0.00400953505145,-0.00288422816336,0.00220571795868,-0.0017202214642,0.00133820251837,-0.00102127769889,0.00075132823097,-0.000519808800401,-0.000163692712838,0.0311572428139,0.000323598124258,4.65948022208e-05,
-0.0136145629673,0.0309923000777,0.0478442967765,0.075406523698,0.0837588989689,0.0923608077581,0.0933908534767,0.0963845760513,0.0892390852211,0.0871900993886,0.0713014722355,0.0678163782618,-0.0027092921687,0.0618906696116,0.0237896279206,0.000544740948874,
-0.0135957453899,0.0310584108762,0.0477135985928,0.075103107247,0.0841711383765,0.0918212992871,0.0940823921545,0.0955037055202,0.09037289714,0.0856776736756,0.0734976080466,0.0638674252141,0.033676577571,0.0621006168883,0.0456701566631,0.00678811485294};
+initializer_list<double> la={0.0067881148529385237,-0.0025498156016664206,0.0019090991781367235,0.0013003863616733529,-0.0010994139781046750,0.00092881038246116579,-0.00077840029263801697,0.00064291307305819157,-0.00051959176461730073,0.00040712132102035034,-0.00030511283873435466,0.00021386873942309213,0.000068351093138056820,-0.0015529395863544585,-0.00013434275155861353,-0.000019515684000583094,
+0.014688355739094639,0.015563380984661973,-0.0041413271759676400,-0.0021934548256779802,0.0017874391815362418,-0.0014782998956699255,0.0012224834918901487,-0.0010007893356583098,0.00080388482227994096,-0.00062715162894502367,0.00046855460299150493,-0.00032770601746343328,-0.00010446775626296073,0.0028162406632917972,0.00020553364177074726,0.000029811971511992460,
+0.013031488757002924,0.033836054138027618,0.023789627920623196,0.0034965221728233376,-0.0026118396911344919,0.0020626223013383701,-0.0016592708237987143,0.0013344517508772085,-0.0010591002356818959,0.00081936072861899473,-0.00060852928973063677,0.00042381601617621996,0.00013446189165784051,-0.0055018926340021947,-0.00026504093524850764,-0.000038333261465140451,
+0.013340202736275428,0.032039555778696165,0.045355106325856208,0.037398997204144183,-0.0075271621138861652,0.0043579823192358834,-0.0030262384237201828,0.0022386097675604935,-0.0016860315401966160,0.0012598276945014187,-0.00091365083573843292,0.00062593432646029442,0.00019498634572121011,0.067846225328156380,-0.00038708752810860922,-0.000055379586279532816,
+0.013752704094945638,0.030468942878019500,0.049048538719911266,0.081454747948954690,0.042289129848750635,-0.0081360284456846338,0.0045370736866563633,-0.0030426448597026510,0.0021712009507061794,-0.0015696206873226619,0.0011141466517016535,-0.00075244388708573321,-0.00023080635074148078,0.059360391807074153,0.00046092901264064367,0.000065349802562746246,
+0.013438119001842360,0.031630746946389943,0.046504379622145068,0.071227761758855919,0.092115151892163460,0.045650853761230897,-0.0084464279352307484,0.0045438011992097321,-0.0029374365211792359,0.0020113139485273172,-0.0013812641749859786,0.00091333890527480644,0.00027406203227583757,0.064283005158342910,-0.00055191959101790259,-0.000077261393473841036,
+0.013687791670766909,0.030725053549677367,0.048412685417913376,0.077187604704627359,0.080527200736910256,0.099442861473875277,0.047362652613767124,-0.0084480334210376835,0.0043795774226744824,-0.0027167144670904205,0.0017676746511834719,-0.0011316375856459322,-0.00032885965748695368,0.060863467025027436,0.00067027729401636511,0.000092143652002846381,
+0.013484086053874201,0.031455621626810900,0.046908978547230027,0.073030319757104894,0.087294974164591690,0.086922130099787312,0.10317333864857193,0.047362652613767124,-0.0081411539514134826,0.0040510589605910135,-0.0023896102963389925,0.0014510186027395000,0.00040170841964657908,0.063446123213412868,-0.00083342957666698373,-0.00011156196488986195,
+0.013653491099350888,0.030852699937048109,0.048131175432264295,0.076179258583274345,0.082566945748973952,0.094239144043641030,0.090181504028324516,0.10317173316276500,0.045650853761230897,-0.0075368921946621911,0.0035702326494324473,-0.0019685195305759741,-0.00050398497706599613,0.061401146722492130,0.0010748762191013248,0.00013811070403468726,
+0.013510879903314301,0.031357568320065427,0.047118326828605749,0.073683847756586713,0.086147880384823931,0.089130506571755615,0.097767950087236899,0.090188231540877885,0.099437735968146428,0.042289129848750635,-0.0066567535406663240,0.0029540938206927830,0.00065781909130444693,0.063066929514852669,-0.0014692828786648738,-0.00017647438906859073,
+0.013631609292156580,0.030931775623602736,0.047966343369355002,0.075711645244026799,0.083318432002999850,0.092987739062658410,0.092486695459973755,0.097751543651254431,0.086943725203225911,0.092105421811387434,0.037398997204144183,-0.0055317397003894444,-0.00091279380937221855,0.061688551301306642,0.0022241495153901847,0.00023602696960161902,
+0.013529634903656286,0.031290454682161717,0.047255657716988092,0.074046666177318090,0.085599537396395998,0.089963505004087350,0.096445526691730939,0.092519587268850122,0.094185935685821859,0.080568724646055615,0.081437911772758535,0.031157242813883468,0.0014067427804547876,0.062834294428168293,-0.0042008845071428100,-0.00033833328368682442,
+0.013546417734365055,0.031231229725586907,0.047373722199475645,0.074329439805296861,0.085205411326446293,0.090497822700181853,0.095726094563192558,0.093502821735644099,0.092780007418131720,0.082790820515965027,0.076991449233966346,0.059498244964475139,0.015563380984661973,0.062642191645230369,0.051720583017214032,-0.0011121260332175911,
+0.013914562989563872,0.029720019188869159,0.051780140348389202,-0.0066399173644701685,0.0040095350514456537,-0.0028842281633600647,0.0022057179586841262,-0.0017202214641966904,0.0013382025183744441,-0.0010212776988947288,0.00075132823097027642,-0.00051980880040135738,-0.00016369271283777008,0.031157242813883468,0.00032359812425830023,0.000046594802220761107,
+0.013614562967342188,0.030992300077666106,0.047844296776494900,0.075406523698019003,0.083758898968882274,0.092360807758143690,0.093390853476657040,0.096384576051332962,0.089239085221123424,0.087190099388635761,0.071301472235465028,0.067816378261769131,-0.0027092921687036716,0.061890669611590716,0.023789627920623196,0.00054474094887412350,
+0.013595745389877631,0.031058410876185890,0.047713598592805006,0.075103107247022721,0.084171138376480919,0.091821299287079095,0.094082392154476057,0.095503705520172265,0.090372897140000629,0.085677673675605944,0.073497608046615013,0.063867425214121395,0.033676577570990367,0.062100616888343844,0.045670156663109669,0.0067881148529385237};
 
 initializer_list<double> lb={0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003877547703,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461123720529,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935585656443,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692531883301132,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122526857723,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938028225420036,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403531555198,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403333344607,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938027679422200,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122127735933,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692532133026079,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513866744923,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461219664102,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513836001130,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935552934972,0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003895390404};
 
@@ -270,10 +270,10 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<2,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.250000000000000000000000000000000,-0.0386751345948128822545743902509787,
-0.538675134594812882254574390250979,0.250000000000000000000000000000000};
+initializer_list<long double> la={0.250000000000000000000000000000000000L,-0.0386751345948128822545743902509787278L,
+0.538675134594812882254574390250978728L,0.250000000000000000000000000000000000L};
 
-initializer_list<double> lb={0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000,0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000};
+initializer_list<long double> lb={0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000L,0.5000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -281,11 +281,11 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<3,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.138888888888888888888888888888889,-0.0359766675249389034563954710966044,0.00978944401530832604958004222947557,
-0.300263194980864592438024947213156,0.222222222222222222222222222222222,-0.0224854172030868146602471694353778,
-0.267988333762469451728197735548302,0.480421111969383347900839915541049,0.138888888888888888888888888888889};
+initializer_list<long double> la={0.138888888888888888888888888888888889L,-0.0359766675249389034563954710966044185L,0.00978944401530832604958004222947556853L,
+0.300263194980864592438024947213155539L,0.222222222222222222222222222222222222L,-0.0224854172030868146602471694353777616L,
+0.267988333762469451728197735548302209L,0.480421111969383347900839915541048863L,0.138888888888888888888888888888888889L};
 
-initializer_list<double> lb={0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778,0.4444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444,0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778};
+initializer_list<long double> lb={0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778L,0.4444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444L,0.2777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777777778L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -293,12 +293,12 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<4,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0869637112843634643432659873054999,-0.0266041800849987933133851304769531,0.0126274626894047245150568805746181,-0.00355514968579568315691098184956959,
-0.188118117499868071650685545087171,0.163036288715636535656734012694500,-0.0278804286024708952241511064189974,0.00673550059453815551539866908570376,
-0.167191921974188773171133305525296,0.353953006033743966537619131807998,0.163036288715636535656734012694500,-0.0141906949311411429641535704761715,
-0.177482572254522611843442956460569,0.313445114741868346798411144814382,0.352676757516271864626853155865953,0.0869637112843634643432659873054999};
+initializer_list<long double> la={0.0869637112843634643432659873054998518L,-0.0266041800849987933133851304769531093L,0.0126274626894047245150568805746180936L,-0.00355514968579568315691098184956958860L,
+0.188118117499868071650685545087171160L,0.163036288715636535656734012694500148L,-0.0278804286024708952241511064189974107L,0.00673550059453815551539866908570375889L,
+0.167191921974188773171133305525295945L,0.353953006033743966537619131807997707L,0.163036288715636535656734012694500148L,-0.0141906949311411429641535704761714564L,
+0.177482572254522611843442956460569292L,0.313445114741868346798411144814382203L,0.352676757516271864626853155865953406L,0.0869637112843634643432659873054998518L};
 
-initializer_list<double> lb={0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719588,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719589,0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411};
+initializer_list<long double> lb={0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411L,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719588L,0.3260725774312730713134680253890002963823256520830532297537353402406240662670448241390081161338709202451009480476182489227877788748370091095714878508391651875703567614778180400986833130240782006636765930368559853676580128000053893605793789308766024668728280461528993206042295233904062487034213853722385719589L,0.1739274225687269286865319746109997036176743479169467702462646597593759337329551758609918838661290797548990519523817510772122211251629908904285121491608348124296432385221819599013166869759217993363234069631440146323419871999946106394206210691233975331271719538471006793957704766095937512965786146277614280411L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -306,13 +306,13 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<5,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0592317212640472718785660101799793,-0.0195703643590760374926432140508841,0.0112544008186429555527162442150907,0.00158811296786599853936524247059342,-0.00559379366081218487681772196447593,
-0.128151005670045283496166848329514,0.119657167624841617010322878708910,-0.0245921146196422003893182516860040,-0.00276899439876960304428263075887960,0.0103182806706833574089539450563558,
-0.113776288004224602528741273815366,0.260004651680641518592405895187574,0.142222222222222222222222222222222,0.00468715452386994122839074654459310,-0.0206903164309582845717601377697549,
-0.116875329560228545217766777889365,0.244908128910495418897463479382295,0.273190043625801488891728200229354,0.0592317212640472718785660101799793,0.258884699608759271513288971468703,
-0.121232436926864146801414651118838,0.228996054578999876611691812361463,0.309036559064086644833762696130448,-0.00968756314195073973903482796955514,0.119657167624841617010322878708910};
+initializer_list<long double> la={0.0592317212640472718785660101799793407L,-0.0195703643590760374926432140508840600L,0.0112544008186429555527162442150907488L,0.00158811296786599853936524247059341624L,-0.00559379366081218487681772196447592822L,
+0.128151005670045283496166848329513822L,0.119657167624841617010322878708909548L,-0.0245921146196422003893182516860040166L,-0.00276899439876960304428263075887959576L,0.0103182806706833574089539450563558395L,
+0.113776288004224602528741273815365577L,0.260004651680641518592405895187573979L,0.142222222222222222222222222222222222L,0.00468715452386994122839074654459310446L,-0.0206903164309582845717601377697548829L,
+0.116875329560228545217766777889365265L,0.244908128910495418897463479382295025L,0.273190043625801488891728200229353696L,0.0592317212640472718785660101799793407L,0.258884699608759271513288971468703156L,
+0.121232436926864146801414651118838277L,0.228996054578999876611691812361463257L,0.309036559064086644833762696130448461L,-0.00968756314195073973903482796955514087L,0.119657167624841617010322878708909548L};
 
-initializer_list<double> lb={0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290784,0.2844444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444446,0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290788};
+initializer_list<long double> lb={0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989L,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290784L,0.2844444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444444446L,0.1184634425280945437571320203599586813216300011062070077914139441108586442015215492899967152469757223880545673040716627906313826942511840667659767896400087242787267677997923561060269100106932615429966725346009416978348146320955363536457524959211020974511812831134713995185082911486960583374788694003121486989L,0.2393143352496832340206457574178190964561477766715707699863638336669191335762562284877810625308020553897232104737061149871463950835265937110118009881377690534990510099779854216717508677670845162347811052431768360799429631456822414241320252818566756803265964946643063782592694866290817194402989083774656290788L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -320,14 +320,14 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<6,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0428311230947925862600740355431832,-0.0147637259971974124753725910605207,0.00932505070647775119143888450800315,-0.00566885804948351190092125641621651,0.00285443331509933513092928583011602,-0.000812780171264762112299135651562540,
-0.0926734914303788631865122917633203,0.0901903932620346518924583784594290,-0.0203001022932395859524940805242725,0.0103631562402464237307199458065600,-0.00488719292803767146341420376578964,0.00135556105548506177551787075080011,
-0.0822479226128438738077716511411289,0.196032162333245006055759781563801,0.116978483643172761847467585997388,-0.0204825277456560976298590118654006,0.00798999189966233579720442148030827,-0.00207562578486633419359528915758165,
-0.0877378719744515067137433602439481,0.172390794624406967987712335438550,0.254439495032001621324794183860176,0.116978483643172761847467585997388,-0.0156513758091757022708430246449433,0.00341432357674129871237641994523753,
-0.0843066851341001107446302003355663,0.185267979452106975248330960684648,0.223593811046099099964215226188216,0.254257069579585109647429252519048,0.0901903932620346518924583784594290,-0.00701124524079369066636422067695387,
-0.0864750263608499346324472067379290,0.177526353208969968653987471088742,0.239625825335829035595856428410992,0.224631916579867772503496287486772,0.195144512521266716260289347979379,0.0428311230947925862600740355431832};
+initializer_list<long double> la={0.0428311230947925862600740355431832234L,-0.0147637259971974124753725910605206514L,0.00932505070647775119143888450800314859L,-0.00566885804948351190092125641621650656L,0.00285443331509933513092928583011602153L,-0.000812780171264762112299135651562540067L,
+0.0926734914303788631865122917633203161L,0.0901903932620346518924583784594290279L,-0.0203001022932395859524940805242724601L,0.0103631562402464237307199458065599779L,-0.00488719292803767146341420376578964407L,0.00135556105548506177551787075080010874L,
+0.0822479226128438738077716511411289216L,0.196032162333245006055759781563801383L,0.116978483643172761847467585997387749L,-0.0204825277456560976298590118654006438L,0.00798999189966233579720442148030827079L,-0.00207562578486633419359528915758164773L,
+0.0877378719744515067137433602439480945L,0.172390794624406967987712335438549785L,0.254439495032001621324794183860176141L,0.116978483643172761847467585997387749L,-0.0156513758091757022708430246449433270L,0.00341432357674129871237641994523752521L,
+0.0843066851341001107446302003355663380L,0.185267979452106975248330960684647700L,0.223593811046099099964215226188215520L,0.254257069579585109647429252519047958L,0.0901903932620346518924583784594290279L,-0.00701124524079369066636422067695386938L,
+0.0864750263608499346324472067379289868L,0.177526353208969968653987471088742034L,0.239625825335829035595856428410992004L,0.224631916579867772503496287486772349L,0.195144512521266716260289347979378707L,0.0428311230947925862600740355431832234L};
 
-initializer_list<double> lb={0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461046,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213883,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939998,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939993,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213892,0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461044};
+initializer_list<long double> lb={0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461046L,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213883L,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939998L,0.2339569672863455236949351719947754974058278028846052676558126599819571008101990635155550462923959911523831343948773985504641812770867514772967817796366933296682412963191279509015140636781751268120852309659129500498784935479502667370400373171884122159040866031845870517087137868720676152749508111193680939993L,0.1803807865240693037849167569188580558307609463733727411448696201185700189186308591604811009944096739715586045701853992949399451391821605353883936057042909461057251361262878885563000366184414295815801447555900258704068427735372412362430505916299657249086082012127933887691908831941502165467828465166324213892L,0.08566224618958517252014807108636644676341125074202199119931771989947288027117007732396385271319433487605826103493720215459587358373108798731482461465901572422603356755458416054218589970338344360633462427849702407971466367851249202671691209118162205918730519560261955952209532993378216817826634236399948461044L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -335,15 +335,15 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<7,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0323712415422174233176528581697705,-0.0114510172831838702881645824731459,0.00763320387242354492584664422163565,-0.00513373356322534498195629758233913,0.00317505877368563763683431730199470,-0.00160681903704610585560610128347643,0.000458109523749452982298319621634935,
-0.0700435413787260762729814536065897,0.0699263478723191669753669428559449,-0.0165900065788477711644699061373328,0.00934962278344333207631107766792938,-0.00539709193189613785462120177242070,0.00264584386673003737983031295579446,-0.000743850190171923617331065816899149,
-0.0621539357873498645358789291293530,0.152005522057830992561321708847833,0.0954575126262797362375924438722438,-0.0183752442154518373892046007271753,0.00871256259847518198378369475574952,-0.00395358015881043812088052856667313,0.00107671561562791673820514665018881,
-0.0663329286176847005521322620413143,0.133595769223882288417924053929659,0.207701880765970782089300497781520,0.104489795918367346938775510204082,-0.0167868555134113096141156100370328,0.00625692652075604553280983178223092,-0.00159044553324985391682654570177327,
-0.0636657674688069298971005696893522,0.143806275903448772071614414278563,0.182202462654084290491401192988738,0.227354836052186531266755621135339,0.0954575126262797362375924438722438,-0.0121528263131926586105878231359428,0.00258854729708498209942678721018804,
-0.0654863332746067702526367821564402,0.137206851877908296570903572756095,0.196312117184455610329806089516908,0.199629969053291361801239942740234,0.207505031831407243639654793881820,0.0699263478723191669753669428559449,-0.00530105829429122963767573726704867,
-0.0642843735606853936530073967179061,0.141459514781684439806339986995366,0.187739966478873834838350570442493,0.214113325399960038859507317990502,0.183281821380135927549338243522852,0.151303713027822204238898468185036,0.0323712415422174233176528581697705};
+initializer_list<long double> la={0.0323712415422174233176528581697705046L,-0.0114510172831838702881645824731458569L,0.00763320387242354492584664422163564864L,-0.00513373356322534498195629758233912827L,0.00317505877368563763683431730199470031L,-0.00160681903704610585560610128347643418L,0.000458109523749452982298319621634934577L,
+0.0700435413787260762729814536065896765L,0.0699263478723191669753669428559448956L,-0.0165900065788477711644699061373327737L,0.00934962278344333207631107766792937882L,-0.00539709193189613785462120177242069622L,0.00264584386673003737983031295579446430L,-0.000743850190171923617331065816899148836L,
+0.0621539357873498645358789291293529643L,0.152005522057830992561321708847832614L,0.0954575126262797362375924438722437835L,-0.0183752442154518373892046007271752992L,0.00871256259847518198378369475574952111L,-0.00395358015881043812088052856667312825L,0.00107671561562791673820514665018881250L,
+0.0663329286176847005521322620413142752L,0.133595769223882288417924053929658867L,0.207701880765970782089300497781520413L,0.104489795918367346938775510204081633L,-0.0167868555134113096141156100370328465L,0.00625692652075604553280983178223092438L,-0.00159044553324985391682654570177326599L,
+0.0636657674688069298971005696893521967L,0.143806275903448772071614414278562919L,0.182202462654084290491401192988738046L,0.227354836052186531266755621135338564L,0.0954575126262797362375924438722437835L,-0.0121528263131926586105878231359428231L,0.00258854729708498209942678721018804487L,
+0.0654863332746067702526367821564401580L,0.137206851877908296570903572756095327L,0.196312117184455610329806089516908263L,0.199629969053291361801239942740233886L,0.207505031831407243639654793881820341L,0.0699263478723191669753669428559448956L,-0.00530105829429122963767573726704866735L,
+0.0642843735606853936530073967179060746L,0.141459514781684439806339986995366225L,0.187739966478873834838350570442492867L,0.214113325399960038859507317990502394L,0.183281821380135927549338243522851918L,0.151303713027822204238898468185035648L,0.0323712415422174233176528581697705046L};
 
-initializer_list<double> lb={0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590650,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132896,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048930,0.2089795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918361,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048914,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132877,0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590471};
+initializer_list<long double> lb={0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590650L,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132896L,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048930L,0.2089795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918367346938775510204081632653061224489795918361L,0.1909150252525594724751848877444875669391825417669313673755417255153527732170648541743423296720224007251573358822926786672464478388191918781221593783186908497131756875154712561034524041096202983828577729083070105675220638337386945499143043250589986805925210482066158433554722001150802543961246619441569048914L,0.1398526957446383339507338857118897912434625326132993822685070163468094052152813384066204714505988093831616876066860257595678184897815599721856763289061684272781796012668454596321597416751246674133954639821431151054078010310846402444833814154107083600369182776994831059986251375004710230941620198915564132877L,0.06474248308443484663530571633954100916429370112997333198860431936232761748602115435781270908146042254474220100081721394053267244690945223132481735399963051892701205815645879446846948686831625869354268147689681310258033921680931826682680405544866030630933618429798268329896388687424464087706025693979688590471L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -351,16 +351,16 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<8,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0253071340725940647881328385774905,-0.00910594330597007502136365210466435,0.00628083114703047398060942073780760,-0.00448301561305475144191331423530155,0.00307849136832677988985383064911711,-0.00191767525463695234092563511949444,0.000972757664059263526724523824088790,-0.000277508327116919222898446613780209,
-0.0547593217675543202831907973850023,0.0555952586133436176360889986065602,-0.0136397962357816692530306620699761,0.00814970885836055053604042748372916,-0.00521535208914715338024336977463765,0.00313975298546366894234500690115627,-0.00156493491094894237579511140443043,0.000442802304342237815626944634681052,
-0.0485875359989128809431601473474389,0.120859524997173167441653743003485,0.0784266614694718218344905504966503,-0.0159751033618784314756701138556965,0.00837173272022616378691032206439061,-0.00464346586210447979012617007024473,0.00222571477528489971831530140789318,-0.000618805695250515367603304988539769,
-0.0518655209705812345653120779649669,0.106193490148348406878869450082582,0.170671134274553621284710784603994,0.0906709458445904957412876123192989,-0.0160210413210250131687052177938008,0.00724120656122226986180306301493881,-0.00319781431036077032248274309542093,0.000859236584264852689466901723348634,
-0.0497550315609232768867987754316325,0.114388331537048005594660740308541,0.149612116377721373807178037978362,0.197362933010206004651280442432399,0.0906709458445904957412876123192989,-0.0138178113356099776157296836106934,0.00499702707833882839330854713053803,-0.00125125282539310498904640080998583,
-0.0512330738404386449438689821435209,0.108964802451402335553862695805227,0.161496788801048123459107271063545,0.172970158968954827695664902574207,0.197316995051059422958245338494294,0.0784266614694718218344905504966503,-0.00966900777048593216947574579036441,0.00202673214627524863310552980754224,
-0.0501714658408458917606387325203000,0.112755452137636177647973108617551,0.153713569953479974726636094092144,0.186557243778328144862818594413235,0.173192182830820440946534797154869,0.170493119174725312922011763063277,0.0555952586133436176360889986065602,-0.00414505362236619070692512023002115,
-0.0508917764723050487991641237687613,0.110217759562627971745453473389032,0.158770998193580596009906736112795,0.178263400320854211592721393989481,0.185824907302235742924488538873899,0.150572491791913169688371680255493,0.120296460532657310293541649317785,0.0253071340725940647881328385774905};
+initializer_list<long double> la={0.0253071340725940647881328385774905475L,-0.00910594330597007502136365210466435047L,0.00628083114703047398060942073780759795L,-0.00448301561305475144191331423530154815L,0.00307849136832677988985383064911711521L,-0.00191767525463695234092563511949443856L,0.000972757664059263526724523824088790495L,-0.000277508327116919222898446613780209214L,
+0.0547593217675543202831907973850022483L,0.0555952586133436176360889986065602211L,-0.0136397962357816692530306620699760922L,0.00814970885836055053604042748372916327L,-0.00521535208914715338024336977463764924L,0.00313975298546366894234500690115627265L,-0.00156493491094894237579511140443043455L,0.000442802304342237815626944634681052323L,
+0.0485875359989128809431601473474388575L,0.120859524997173167441653743003484854L,0.0784266614694718218344905504966503283L,-0.0159751033618784314756701138556965134L,0.00837173272022616378691032206439061468L,-0.00464346586210447979012617007024473074L,0.00222571477528489971831530140789318480L,-0.000618805695250515367603304988539769375L,
+0.0518655209705812345653120779649669270L,0.106193490148348406878869450082582416L,0.170671134274553621284710784603994076L,0.0906709458445904957412876123192989030L,-0.0160210413210250131687052177938008272L,0.00724120656122226986180306301493880974L,-0.00319781431036077032248274309542092890L,0.000859236584264852689466901723348634160L,
+0.0497550315609232768867987754316324609L,0.114388331537048005594660740308541371L,0.149612116377721373807178037978361847L,0.197362933010206004651280442432398633L,0.0906709458445904957412876123192989030L,-0.0138178113356099776157296836106934193L,0.00499702707833882839330854713053802633L,-0.00125125282539310498904640080998583194L,
+0.0512330738404386449438689821435208644L,0.108964802451402335553862695805227257L,0.161496788801048123459107271063545387L,0.172970158968954827695664902574207191L,0.197316995051059422958245338494294320L,0.0784266614694718218344905504966503283L,-0.00966900777048593216947574579036441156L,0.00202673214627524863310552980754223760L,
+0.0501714658408458917606387325203000427L,0.112755452137636177647973108617550877L,0.153713569953479974726636094092144384L,0.186557243778328144862818594413235455L,0.173192182830820440946534797154868643L,0.170493119174725312922011763063276749L,0.0555952586133436176360889986065602211L,-0.00414505362236619070692512023002115321L,
+0.0508917764723050487991641237687613043L,0.110217759562627971745453473389031652L,0.158770998193580596009906736112795095L,0.178263400320854211592721393989480691L,0.185824907302235742924488538873899354L,0.150572491791913169688371680255493059L,0.120296460532657310293541649317784793L,0.0253071340725940647881328385774905475L};
 
-initializer_list<double> lb={0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923686,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244513,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271998,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781091084,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781090983,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271946,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244531,0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923785};
+initializer_list<long double> lb={0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923686L,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244513L,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271998L,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781091084L,0.1813418916891809914825752246385978060970730199471652702624115337833433673619533386621830210424142547751293849631483532764629107784947586922497788003931038421389175191431273152885503776686634857357447134164390215911389538923361482767774099800701243883752964488280496654505688713628868309491831949153781090983L,0.1568533229389436436689811009933006566301644995013674688451319725374781359710867484808490381169642780247137873205389043081236234161327808028445312138234879497311251559388281279731643611010760215813233897360801911300647638449326254861592578999176578031209875868486280211992854817066543249507056258607721271946L,0.1111905172266872352721779972131204422150654350256247823629546446468084072852245204268265711885989639210796330506061090615557187899262861209690913337266045288954306644768420201394699324438002192848601078741031626623597795114315785325659982794866772720302976409940335808322795168041735956177849676284942244531L,0.05061426814518812957626567715498109505769704552584247852950184903237008938173539243014136965202250327907719466570663335385774701544617438393659865205680367923452666044120253659881532878646027339807178897337762461643650275129964770449733384052554053647341832332928873251786613012628524848232621159535553923785L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -368,17 +368,17 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<9,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0203185970903936029929730395276309,-0.00739786856614878686542489503086324,0.00522200359210005389185584360564744,-0.00387345129174498055049537887338993,0.00283136945006983986354937012363709,0.00122660978881256074839466284462653,-0.000622964091648914481159571486571450,0.000177778462744798652780015293222430,-0.00196219418839121917026118745577622,
-0.0439655272265284041585412645645087,0.0451620401737143510146180078107282,-0.0113354640123350470465925464814319,0.00703476680173468143903695814226945,-0.00478827613101664029445945068615472,-0.00196440573995350861710011819853350,0.000987172103665947150853208009195396,-0.000280274237640940717284308546381075,0.00320336015198485576267209135093205,
-0.0390086533962843337053406260551850,0.0981815119598481585602972012795661,0.0651526741007338655796857173546582,-0.0137708339866085721988706377249966,0.00766417562464213864225207092504704,0.00277082889275901981606719881443306,-0.00136167198307300388077294236226989,0.000382532112918055676721205511905614,-0.00471358646779919455507145952426565,
-0.0416450870273228085684590957995216,0.0862554727725037766071341170647431,0.141795216041145464700711349265044,0.0780867692600007100171576016461109,-0.0146189578759125574286313738589815,-0.00393283991503873128187398305621736,0.00185268620082252394849783525333888,-0.000510573474928686025187960892672731,0.00730042826218022637446431145744470,
-0.0399403728698347433203974299378427,0.0929433722727170869747695620130788,0.124257110410775669930284959188188,0.170000445255253483576298037267459,0.0825598387503149407911312673217435,0.00604823779069206122908647552112829,-0.00261929192528838494553354639162238,0.000696821310952462665548649117419158,-0.0138269067352520635419828339752373,
-0.0402546620678691503092248735433562,0.0916857523305017059100089579837263,0.127534519308708711343304235894883,0.160887124987800614589386662816487,0.157455501875987742940010463718440,0.0651526741007338655796857173546582,-0.00785743161241945653106118565810966,0.00162854078450287228060545300007680,0.169944372506609992233185841017218,
-0.0409174684184281467032303876016429,0.0893369082437627548783828076122610,0.132269753941421239776471552907850,0.152970178368016564271643111941290,0.169907953631646521876721985329642,0.141640812213802778205963981190748,0.0451620401737143510146180078107282,-0.00332833304574119817259518550924687,0.149138771718266738595278245149952,
-0.0404594157180424073331660637620394,0.0909470444390776165103955871080279,0.129078738412655170410976771864690,0.158135732708392639204576390747998,0.162288308050560041718713164519850,0.125083344609367677267515591103669,0.0977219489135774888946609106523197,0.0203185970903936029929730395276309,0.160046989811746400584810582165612,
-0.0411477676557158920111340399479346,0.0884713941466061780807381803681175,0.134238188116506462441245417765534,0.148873110257821193659850891834777,0.179738635376542439010893908502469,-0.0114898678396777335413399145557277,0.00406860757492492542210189855671329,-0.00100789284653560258251301674425978,0.0780867692600007100171576016461109};
-
-initializer_list<double> lb={0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958263,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353767,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188599,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754460237,0.1651196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441912,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188832,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353150,0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958472,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754459123};
+initializer_list<long double> la={0.0203185970903936029929730395276309127L,-0.00739786856614878686542489503086324044L,0.00522200359210005389185584360564744209L,-0.00387345129174498055049537887338993231L,0.00283136945006983986354937012363708706L,0.00122660978881256074839466284462653376L,-0.000622964091648914481159571486571449880L,0.000177778462744798652780015293222429521L,-0.00196219418839121917026118745577621749L,
+0.0439655272265284041585412645645086966L,0.0451620401737143510146180078107282024L,-0.0113354640123350470465925464814319363L,0.00703476680173468143903695814226944775L,-0.00478827613101664029445945068615471818L,-0.00196440573995350861710011819853350231L,0.000987172103665947150853208009195396464L,-0.000280274237640940717284308546381074582L,0.00320336015198485576267209135093204985L,
+0.0390086533962843337053406260551850257L,0.0981815119598481585602972012795660674L,0.0651526741007338655796857173546582124L,-0.0137708339866085721988706377249965628L,0.00766417562464213864225207092504703631L,0.00277082889275901981606719881443305938L,-0.00136167198307300388077294236226989347L,0.000382532112918055676721205511905613511L,-0.00471358646779919455507145952426565082L,
+0.0416450870273228085684590957995216015L,0.0862554727725037766071341170647431131L,0.141795216041145464700711349265044104L,0.0780867692600007100171576016461109164L,-0.0146189578759125574286313738589815265L,-0.00393283991503873128187398305621736234L,0.00185268620082252394849783525333888043L,-0.000510573474928686025187960892672730788L,0.00730042826218022637446431145744469962L,
+0.0399403728698347433203974299378426671L,0.0929433722727170869747695620130787845L,0.124257110410775669930284959188188130L,0.170000445255253483576298037267459167L,0.0825598387503149407911312673217435122L,0.00604823779069206122908647552112829512L,-0.00261929192528838494553354639162237977L,0.000696821310952462665548649117419158261L,-0.0138269067352520635419828339752373342L,
+0.0402546620678691503092248735433562118L,0.0916857523305017059100089579837262982L,0.127534519308708711343304235894883366L,0.160887124987800614589386662816487484L,0.157455501875987742940010463718439988L,0.0651526741007338655796857173546582124L,-0.00785743161241945653106118565810966265L,0.00162854078450287228060545300007679967L,0.169944372506609992233185841017218396L,
+0.0409174684184281467032303876016428999L,0.0893369082437627548783828076122610083L,0.132269753941421239776471552907849927L,0.152970178368016564271643111941289783L,0.169907953631646521876721985329641743L,0.141640812213802778205963981190748361L,0.0451620401737143510146180078107282024L,-0.00332833304574119817259518550924687130L,0.149138771718266738595278245149952385L,
+0.0404594157180424073331660637620393958L,0.0909470444390776165103955871080278546L,0.129078738412655170410976771864689891L,0.158135732708392639204576390747998050L,0.162288308050560041718713164519849937L,0.125083344609367677267515591103668983L,0.0977219489135774888946609106523196452L,0.0203185970903936029929730395276309127L,0.160046989811746400584810582165611765L,
+0.0411477676557158920111340399479345561L,0.0884713941466061780807381803681175243L,0.134238188116506462441245417765533787L,0.148873110257821193659850891834777133L,0.179738635376542439010893908502468551L,-0.0114898678396777335413399145557276794L,0.00406860757492492542210189855671329168L,-0.00100789284653560258251301674425977620L,0.0780867692600007100171576016461109164L};
+
+initializer_list<long double> lb={0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958263L,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353767L,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188599L,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754460237L,0.1651196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441672965482489292013101536911060720584530108339632149155958679768203577727387251196775006298815822625346434870244394053917863441912L,0.1303053482014677311593714347093164248859201022186499759699985010598054078344456223238230465475087009136936927678188252566592019119179134353514649341351580883535426413412241186848366983562467365637561879471016372658946472489726208165400344195964288119115384062236832656096993377748448654782889874111191188832L,0.09032408034742870202923601562145640475716891086602024224916795323567864527247313488229748865159985207380373398012889686133981342303150636158950504023727886874064869824341393527781852161444302385742696151645127705510991092406069950287067474000326174379041199841004356361185802976382450506817270969271951353150L,0.04063719418078720598594607905526182533783086039120537535555383844034334315422603147278927735147128847889703665898151904729502439754697787976407068942237542688366698617478375366227906396906693415083369757862294840130561736984781583600166733738331829648764956763754215572385368484367608685041062300929274958472L,0.1561735385200014200343152032922218327993774306309523227770055827995719486620096582850609609440031769261477386590823486558195909049437635729800185450739202942786294545378822992029820677861188408273280761122711012484633190401372563867896895146068122614410374678899807001137978163503327990909079771909754459123L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -386,18 +386,18 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<10,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0166678360771720343983922024733329,-0.00612068029233502987025308987906619,0.00439200373028852221698614553887794,-0.00334535050882549470870888176133072,0.00254756897027876354904962225738170,-0.00188262038693525661085207791056827,0.00131081462770308391842832788419797,-0.000820986353138291127367521983463229,0.000417243835667835720457601113273652,-0.000119093958462027525114333774861831,
-0.0360661525781943304506967868615967,0.0373628372876451482864440849144243,-0.00953137359188965945260757183913681,0.00607228446174392218489428998019616,-0.00430404581295939200907563270911149,0.00306851861086753558695384716440183,-0.00209411395745032284831574789258204,0.00129624965549819963331444499418201,-0.000654328115142468560893715735581344,0.000186135539000451362540870049864093,
-0.0319991179775146101939898453822534,0.0812275701118607728515460679181319,0.0547715906289955109988837335570408,-0.0118776128915294264824282010922476,0.00687814639770714478385800606631069,-0.00450274329686185241607146970564758,0.00294087333141394952634963014459878,-0.00177613374657410074450312651393922,0.000884246091931209019529692891224078,-0.000249838753970020848317861205161996,
-0.0341639921791087090319388879631186,0.0713553690746355578848296638813347,0.119207290548758140477788951389364,0.0673166798274990887728067303923673,-0.0130965195471968997587876242976924,0.00694886598383539031062731500230080,-0.00414845352723169508779133417255612,0.00239281424177035654040595767259466,-0.00116229795133242643161918981684538,0.000324562105530182860167670403121262,
-0.0327609312912844373135061555894162,0.0769022997036484359436613608768349,0.104444079563094207185198585546974,0.146566245550415954620379616976850,0.0738810561786882175434732486628346,-0.0131122091695853752390419769315554,0.00633145505482068380026709671442490,-0.00333810079767527560194800163458398,0.00155179916885143634252135178552101,-0.000424726034358327350430438151576489,
-0.0337603981887023961472148430982424,0.0731738754064388602303668180433277,0.112881282055666297599715468748666,0.128301904600177493745346364070310,0.160874321526961810325988474257225,0.0738810561786882175434732486628346,-0.0119328858954177770747661561921157,0.00509910169489681481256888156710769,-0.00217662512835813937077319104798624,0.000574740863059631483278249357249694,
-0.0330111100488138859366167345435446,0.0758879725266227230045073596456940,0.107150367016220665457361509441487,0.138781813182229872633404794957291,0.140813246373541044776319182323368,0.160858631904573334845734121623362,0.0673166798274990887728067303923673,-0.00966410929076711848002148427528283,0.00337030550065473868805850594751399,-0.000828320024764640235154483016452740,
-0.0335855109083140896451022661518279,0.0738414284833590875533584769376246,0.111319315004565122742270593628021,0.131692486323584228019263830640136,0.152264855654238287503017967031317,0.140883965959669290303088491259358,0.146510972546527604028041661876982,0.0547715906289955109988837335570408,-0.00650189553657047627865789808928320,0.00133655417682945860279455956441249,
-0.0331495366153436174342435348968018,0.0753800026904327651337818855644300,0.108246931602492822364453022119900,0.136727473612448500393929208677317,0.144693593746508899499992650161267,0.152066158170335827096022130034781,0.128561075193254255360719170804539,0.119074554849880681450375038953218,0.0373628372876451482864440849144243,-0.00273048042385026165391238191493083,
-0.0334547661128060963218987387215277,0.0743084307396224608524305687155750,0.110364167611129313125134989097545,0.133322545027295093627185132900537,0.149644732744311691697798575236237,0.145214543387097671537896875068287,0.137978710163823672254322342546065,0.105151177527702499780781321575204,0.0808463548676253264431412597079149,0.0166678360771720343983922024733329};
-
-initializer_list<double> lb={0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689192214,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213795469,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104743126,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104384169,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500566581,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500571159,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104387458,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104745261,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213757273,0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689198219};
+initializer_list<long double> la={0.0166678360771720343983922024733329482L,-0.00612068029233502987025308987906618994L,0.00439200373028852221698614553887794232L,-0.00334535050882549470870888176133071930L,0.00254756897027876354904962225738170285L,-0.00188262038693525661085207791056827226L,0.00131081462770308391842832788419796950L,-0.000820986353138291127367521983463229040L,0.000417243835667835720457601113273652230L,-0.000119093958462027525114333774861831287L,
+0.0360661525781943304506967868615967267L,0.0373628372876451482864440849144243331L,-0.00953137359188965945260757183913681203L,0.00607228446174392218489428998019616301L,-0.00430404581295939200907563270911148656L,0.00306851861086753558695384716440183016L,-0.00209411395745032284831574789258203904L,0.00129624965549819963331444499418201221L,-0.000654328115142468560893715735581344379L,0.000186135539000451362540870049864092534L,
+0.0319991179775146101939898453822534051L,0.0812275701118607728515460679181318698L,0.0547715906289955109988837335570407981L,-0.0118776128915294264824282010922476133L,0.00687814639770714478385800606631068859L,-0.00450274329686185241607146970564757867L,0.00294087333141394952634963014459877599L,-0.00177613374657410074450312651393921515L,0.000884246091931209019529692891224077702L,-0.000249838753970020848317861205161996020L,
+0.0341639921791087090319388879631186359L,0.0713553690746355578848296638813346786L,0.119207290548758140477788951389364429L,0.0673166798274990887728067303923673382L,-0.0130965195471968997587876242976923820L,0.00694886598383539031062731500230079786L,-0.00414845352723169508779133417255611524L,0.00239281424177035654040595767259465511L,-0.00116229795133242643161918981684538012L,0.000324562105530182860167670403121261557L,
+0.0327609312912844373135061555894162021L,0.0769022997036484359436613608768349113L,0.104444079563094207185198585546973904L,0.146566245550415954620379616976850335L,0.0738810561786882175434732486628345824L,-0.0131122091695853752390419769315553601L,0.00633145505482068380026709671442489604L,-0.00333810079767527560194800163458397950L,0.00155179916885143634252135178552100626L,-0.000424726034358327350430438151576489169L,
+0.0337603981887023961472148430982423856L,0.0731738754064388602303668180433276599L,0.112881282055666297599715468748665576L,0.128301904600177493745346364070309780L,0.160874321526961810325988474257224525L,0.0738810561786882175434732486628345824L,-0.0119328858954177770747661561921156581L,0.00509910169489681481256888156710769229L,-0.00217662512835813937077319104798624505L,0.000574740863059631483278249357249694325L,
+0.0330111100488138859366167345435446349L,0.0758879725266227230045073596456940463L,0.107150367016220665457361509441486941L,0.138781813182229872633404794957290792L,0.140813246373541044776319182323368367L,0.160858631904573334845734121623361547L,0.0673166798274990887728067303923673382L,-0.00966410929076711848002148427528283278L,0.00337030550065473868805850594751398757L,-0.000828320024764640235154483016452739478L,
+0.0335855109083140896451022661518278924L,0.0738414284833590875533584769376245885L,0.111319315004565122742270593628020811L,0.131692486323584228019263830640135900L,0.152264855654238287503017967031316743L,0.140883965959669290303088491259358476L,0.146510972546527604028041661876982290L,0.0547715906289955109988837335570407981L,-0.00650189553657047627865789808928320360L,0.00133655417682945860279455956441249133L,
+0.0331495366153436174342435348968018039L,0.0753800026904327651337818855644300106L,0.108246931602492822364453022119899584L,0.136727473612448500393929208677316715L,0.144693593746508899499992650161267335L,0.152066158170335827096022130034780651L,0.128561075193254255360719170804538513L,0.119074554849880681450375038953218408L,0.0373628372876451482864440849144243331L,-0.00273048042385026165391238191493083031L,
+0.0334547661128060963218987387215277277L,0.0743084307396224608524305687155750140L,0.110364167611129313125134989097544825L,0.133322545027295093627185132900536707L,0.149644732744311691697798575236237437L,0.145214543387097671537896875068287462L,0.137978710163823672254322342546065396L,0.105151177527702499780781321575203654L,0.0808463548676253264431412597079148561L,0.0166678360771720343983922024733329482L};
+
+initializer_list<long double> lb={0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689192214L,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213795469L,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104743126L,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104384169L,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500566581L,0.1477621123573764350869464973256691647105233585134268006771540148779979691085761646351782978968771083613585822006262791934092453947760029130009681712470934833047813593244420840216156525307679337045415256353319326437419508734373632987579772253875794572782741541649931968029674561911783363295663897464500571159L,0.1346333596549981775456134607847346764298799692304418979002816381210767161595896383821133183546263803777979057251843491543464617346905726207782329423317211855828007216129980070864522264015172205648951488533571268767403142304199638287503455843374921407043144434266604021075209754440958176830309254227104387458L,0.1095431812579910219977674671140815962293859352613385449404782718175999553264756406213419965886010963932956084364064438173833134540334737844154605921658328338552634957661038768386326413335513939123425505104416086660032136741627378125334207942674710355806705113645782738884464156650344327072498447310104745261L,0.07472567457529029657288816982884866620127831983471368391773863437661932736331500547297363231736597595700287628052271816911722585337274880073568580059685547643990674144325593854767832198196668869699546008451023245419078093895787612891501717138926808784638210643962061414850750862954215051853862410493213757273L,0.03333567215434406879678440494666589642893241716007907256434744080670603204204355088839275484252943891054502735726020966574375356312720188106965249365849702081724768185320009350562115775219676312122531491635909935932374028302205893104323922461818927859035878460414751305255764407014926276161421599489689198219L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -405,19 +405,19 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<11,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0139171417790434166206884301106371,-0.00514325562983490553945482672729184,0.00373560374914085018725131470439065,-0.00290037905138315003781828070850379,0.00227274215264998537669600797675868,-0.00175240116264082742702346957094253,0.00130248911731822927183376576527350,-0.000909279657711640651057229985874300,0.000570136062283444316355989598062838,-0.000289875324978482038437992853765253,0.0000827488930845835189972911298261979,
-0.0301142391948244556850291647703452,0.0313950923662261561586735748059850,-0.00810562697907984411509038761874716,0.00526282127353501507194118571645874,-0.00383743668169242759363413819373032,0.00285354676447749860209788071218239,-0.00207783291714634649529155042045045,0.00143267781287657313277759445234306,-0.000891466711988145401994499020386626,0.000451184930916069171735273863699948,-0.000128498936996653753822983719663434,
-0.0267179838502661811451222492270490,0.0682542809171542158094247997671962,0.0465725527319335628565244103579140,-0.0102895248152872145428450144855953,0.00612667324766953732872518254748621,-0.00418053753704864073577283170383163,0.00291066795410457775012630543616084,-0.00195573987509097941918238015793114,0.00119821656507352216046396088240308,-0.000600947942995045366467377875974433,0.000170372117195620967172569989546359,
-0.0285266689062404033539906138636098,0.0599560307356048885110634313934399,0.101365041153570591950231026008482,0.0582984411479976199796309262107938,-0.0116536925866713892045122531529432,0.00643838129780483330857548404618236,-0.00409164865278154504328097688232838,0.00262061890572086323919627935494752,-0.00156237108006700551652476566069921,0.000771530960015176748020373869400951,-0.000217065390840345289252973780190160,
-0.0273528599993796140716452683309802,0.0646238924302517439343240111126972,0.0888021849343891269062705363844844,0.126937527092484729329395593358849,0.0657011361275616655451722174726273,-0.0121240615804220011533673101424194,0.00621926257425001908979939369156868,-0.00363063338386324112523093675663918,0.00206324037554684363328318467300617,-0.000992886275645834511167361281996532,0.000275899729894848114109410456411519,
-0.0281917210618671959125369757792893,0.0614771890632044979378652513022305,0.0959986109028957617417890032486379,0.111095774316370167736965659831943,0.143076752307042779412913905065101,0.0682312716944751576786208820840855,-0.0116744800519194483225694701198462,0.00550110797962507222229619258964432,-0.00285350543902863602874018253281001,0.00131299566924781437948189830973959,-0.000357437503780362671160115558014999,
-0.0275583838281919851272674497648628,0.0637830710080981468285145108939666,0.0910818650883202820797656360428218,0.120227515679858481084492789178227,0.125183009680873312000545041253686,0.148586604969372316510609074310591,0.0657011361275616655451722174726273,-0.0103406447964894893701337409372614,0.00434292052947799880677828433134351,-0.00183370769779943161697686150072715,0.000481423558707219169731591890294133,
-0.0280513489489271785306298340014644,0.0620186537724371355693267757425691,0.0947074765439341312295735863765272,0.113976263390274376720065573066640,0.135493920907904876133625411827583,0.130024162091145482048666280121989,0.143055964841794720294856688098198,0.0582984411479976199796309262107938,-0.00821993568970346623718220529265396,0.00283415399684742380628371821853018,-0.000692385348153570112613753642335545,
-0.0276639114408912122742042902317279,0.0633911326754473576838145274879445,0.0919468888987936035525848598334249,0.118552622171086219378444232579519,0.128491604301018753340218129509094,0.140643080925998956093014595872003,0.125275599007453793761619252397768,0.126886407111282454502106866907183,0.0465725527319335628565244103579140,-0.00546409618470190349207765015522619,0.00111629970782065209625461099422524,
-0.0279627824950834869951998439409377,0.0623389998015362431456118757482701,0.0940365721758552711150433197362146,0.115164204483118666826484257969245,0.133480105172269677585635985365705,0.133608996624472816755143883455989,0.135239708936815758683978573138985,0.111334061022460224887320666705129,0.101250732442946969828139208334575,0.0313950923662261561586735748059850,-0.00227995563673762244365230454907090,
-0.0277515346650022497223795690914481,0.0630800600574307943557851424657353,0.0925749694015836813966928311177651,0.117506161953706880610319082407462,0.130099783137805101818510669179981,0.138214944551591142784265233739114,0.129129530102473345713648426968496,0.119497261347378389997080133130091,0.0894095017147262755257975060114373,0.0679334403622872178568019763392619,0.0139171417790434166206884301106371};
-
-initializer_list<double> lb={0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838649929,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402346001,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914408754,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325724799,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276299487,0.1364625433889503153572417641681710945780209849473918737988002057266126530195794265058334322403586472850542114611378680642749906819170888434957699026963096227165491234755304019373283442547511811581075650339719603788867858131927395996660065924135188204452273716342980412244481508550772620036689300758564834854,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276297309,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325736902,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914500390,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402413194,0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838632041};
+initializer_list<long double> la={0.0139171417790434166206884301106371447L,-0.00514325562983490553945482672729184045L,0.00373560374914085018725131470439064860L,-0.00290037905138315003781828070850378845L,0.00227274215264998537669600797675868059L,-0.00175240116264082742702346957094252802L,0.00130248911731822927183376576527350429L,-0.000909279657711640651057229985874299567L,0.000570136062283444316355989598062837961L,-0.000289875324978482038437992853765252866L,0.0000827488930845835189972911298261978440L,
+0.0301142391948244556850291647703451896L,0.0313950923662261561586735748059850250L,-0.00810562697907984411509038761874715570L,0.00526282127353501507194118571645873830L,-0.00383743668169242759363413819373031857L,0.00285354676447749860209788071218239354L,-0.00207783291714634649529155042045045063L,0.00143267781287657313277759445234305707L,-0.000891466711988145401994499020386626138L,0.000451184930916069171735273863699947886L,-0.000128498936996653753822983719663433772L,
+0.0267179838502661811451222492270490524L,0.0682542809171542158094247997671962366L,0.0465725527319335628565244103579139729L,-0.0102895248152872145428450144855952663L,0.00612667324766953732872518254748620572L,-0.00418053753704864073577283170383163272L,0.00291066795410457775012630543616083897L,-0.00195573987509097941918238015793113950L,0.00119821656507352216046396088240307698L,-0.000600947942995045366467377875974433020L,0.000170372117195620967172569989546358959L,
+0.0285266689062404033539906138636098345L,0.0599560307356048885110634313934398659L,0.101365041153570591950231026008481907L,0.0582984411479976199796309262107937849L,-0.0116536925866713892045122531529432482L,0.00643838129780483330857548404618236085L,-0.00409164865278154504328097688232838435L,0.00262061890572086323919627935494752220L,-0.00156237108006700551652476566069921104L,0.000771530960015176748020373869400951137L,-0.000217065390840345289252973780190159994L,
+0.0273528599993796140716452683309801568L,0.0646238924302517439343240111126972040L,0.0888021849343891269062705363844844304L,0.126937527092484729329395593358848939L,0.0657011361275616655451722174726272988L,-0.0121240615804220011533673101424194409L,0.00621926257425001908979939369156867823L,-0.00363063338386324112523093675663918347L,0.00206324037554684363328318467300616839L,-0.000992886275645834511167361281996532287L,0.000275899729894848114109410456411519054L,
+0.0281917210618671959125369757792892881L,0.0614771890632044979378652513022304569L,0.0959986109028957617417890032486379567L,0.111095774316370167736965659831943248L,0.143076752307042779412913905065100758L,0.0682312716944751576786208820840855473L,-0.0116744800519194483225694701198461608L,0.00550110797962507222229619258964432127L,-0.00285350543902863602874018253281001088L,0.00131299566924781437948189830973959321L,-0.000357437503780362671160115558014998725L,
+0.0275583838281919851272674497648627703L,0.0637830710080981468285145108939665824L,0.0910818650883202820797656360428217775L,0.120227515679858481084492789178226753L,0.125183009680873312000545041253685919L,0.148586604969372316510609074310590536L,0.0657011361275616655451722174726272988L,-0.0103406447964894893701337409372613689L,0.00434292052947799880677828433134351540L,-0.00183370769779943161697686150072715393L,0.000481423558707219169731591890294132577L,
+0.0280513489489271785306298340014644494L,0.0620186537724371355693267757425690990L,0.0947074765439341312295735863765271569L,0.113976263390274376720065573066640048L,0.135493920907904876133625411827582982L,0.130024162091145482048666280121988734L,0.143055964841794720294856688098197846L,0.0582984411479976199796309262107937849L,-0.00821993568970346623718220529265396100L,0.00283415399684742380628371821853018421L,-0.000692385348153570112613753642335545165L,
+0.0276639114408912122742042902317279304L,0.0633911326754473576838145274879444831L,0.0919468888987936035525848598334248689L,0.118552622171086219378444232579518709L,0.128491604301018753340218129509093759L,0.140643080925998956093014595872002727L,0.125275599007453793761619252397768392L,0.126886407111282454502106866907182836L,0.0465725527319335628565244103579139729L,-0.00546409618470190349207765015522618649L,0.00111629970782065209625461099422523695L,
+0.0279627824950834869951998439409377231L,0.0623389998015362431456118757482701022L,0.0940365721758552711150433197362145720L,0.115164204483118666826484257969244513L,0.133480105172269677585635985365705048L,0.133608996624472816755143883455988701L,0.135239708936815758683978573138984916L,0.111334061022460224887320666705128831L,0.101250732442946969828139208334575102L,0.0313950923662261561586735748059850250L,-0.00227995563673762244365230454907090028L,
+0.0277515346650022497223795690914480915L,0.0630800600574307943557851424657353030L,0.0925749694015836813966928311177651079L,0.117506161953706880610319082407461869L,0.130099783137805101818510669179981093L,0.138214944551591142784265233739113623L,0.129129530102473345713648426968495917L,0.119497261347378389997080133130091358L,0.0894095017147262755257975060114372972L,0.0679334403622872178568019763392618905L,0.0139171417790434166206884301106371447L};
+
+initializer_list<long double> lb={0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838649929L,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402346001L,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914408754L,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325724799L,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276299487L,0.1364625433889503153572417641681710945780209849473918737988002057266126530195794265058334322403586472850542114611378680642749906819170888434957699026963096227165491234755304019373283442547511811581075650339719603788867858131927395996660065924135188204452273716342980412244481508550772620036689300758564834854L,0.1314022722551233310903444349452545976863823388015722781900276857427564016697726267762084985085133529795661676174452842965407829979694110243258331138561076703003782281711144423407123132558598793145555357937587807020563458413423137226307761851043295500100566805803589548995366258893070623819371691932276297309L,0.1165968822959952399592618524215875697158990861584792545136598610609661066094404979770199742191308422082755545958393659056460075397530405066716801900686948907456050545001272966885358112865536710540720609396623450418616930633944786983404616712861527978233867875944031287023021734156805703631246159429325736902L,0.09314510546386712571304882071582794584564237402010170589075320208693617400439275123466537925898979306555048226948316771578090858914929762220299383065939347312280624209515840934905415742775842642556421894044185756202981543499482980755215591384366794265870062953223864741002051729105634796951304991090914500390L,0.06279018473245231231734714961197005009880789569770175033196700540895728756623563881734382085702726519893252927254226096799205344196887530366454421736818783845029627373137946730275761132329961154549923116484756244185944799397352964047644813684119746638522545362702622816993328385577088305572474624500402413194L,0.02783428355808683324137686022127428936425781284844907417419214283707770364036877194184561103615942290514816051412098708190275209020083112138706369669946131602263963976445518335027593457915282108125517064430347406274930475969847833116715479671789283290001676284882402020598332412064650522786595366999838632041L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -425,20 +425,20 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<12,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0117938340966279567986539903712543,-0.00437990215767931650940188692918276,0.00321056964125654262004469232623711,-0.00252868076291527559325483047108311,0.00202324519894856845571760672436639,0.00124774475192659582311909076184889,-0.000930499836629974148333740147760258,0.000650624788775465133900270947845369,-0.000408237882558168112866492596697974,0.000207615108480287514624040502392411,-0.0000592710487056506905538129963004732,-0.00160735902088665663692347356756028,
-0.0255198232326244639441836509717834,0.0267348314988296077400636795484991,-0.00696570366255593528084233870896311,0.00458737722346434400703031480933751,-0.00341487831325726315216580833366991,-0.00198873604147400184383034336299982,0.00146425936525797332056119445694672,-0.00101552961889071285353932174117125,0.000633880729666708085426064346671315,-0.000321341337251878490974152992793925,0.0000915875660363567404988113849493164,0.00261580117231290944435531656186262,
-0.0226415082464546978695105146203535,0.0581230577546837157157340098137834,0.0400195821358365565836631323858398,-0.00896632804601375189900412174147714,0.00544880489816575571543655014114527,0.00278156916561874812407426225463822,-0.00199435710192794323160270551931218,0.00136062625076553272030386945228062,-0.000840553839984532063258567090571879,0.000423460056141347174662230642939509,-0.000120308349110379280703786321047807,-0.00382839826778209094726230524498038,
-0.0241748261226971991223159086687208,0.0510550484293886763756662871780821,0.0871038538724015915546922006176071,0.0507918566807664804372661139524496,-0.0103577470216968143616942058302073,-0.00390204370620793343508578200225354,0.00266388699069817929130618710749775,-0.00176593366081374114507112195757116,0.00107205559231517493201514834145065,-0.000534534766345622524447744620771830,0.000151074627300977163206610358729114,0.00588867969618710894147918871599956,
-0.0231788873633936492342183449770824,0.0550336735248898118758263652719249,0.0763035605834845887509628990891626,0.110596236160954295848669502387033,0.0583731341345887021902124747312195,0.00591690882965931097780777409955512,-0.00367597498519267301626859146921164,0.00231791162580606885793696566969272,-0.00136729574370243207975475896064002,0.000670629185517022286304630351349835,-0.000188000196714650100120473944846696,-0.0110754199817737917021409005241805,
-0.0233514110134668871562570409586137,0.0543232717216298316487578493835701,0.0782519909929121000782088530511676,0.104765642234753235587278744603025,0.111201133079663467133798800192759,0.0622867614533506962501406090107378,-0.0103795246551256818945668362263593,0.00480193492467387405421263983863473,-0.00245976665588796403560160874505178,0.00112275870416866186970650353585504,-0.000304349193692679899622505931686133,0.135655440635822029787650595060661,
-0.0237756683899705636974284546873552,0.0527990338121421931938227287456483,0.0814064600153755452470810237323196,0.0992658017357268920165952622352065,0.120422243254370077396693540931651,0.135648942888475184202422118545656,0.0583731341345887021902124747312195,-0.00901252279942133497413727448213377,0.00373560368818852441636336568251690,-0.00156401052723059639569900617492683,0.000408780829862264363089635765426139,0.118656614077042081522473443921920,
-0.0234365935659549364341013703837794,0.0540041977640048380045751037177699,0.0789671086793579382353111164302289,0.103349647022346702019603349862470,0.114082381278479225089118762354941,0.118684843210514283558802029305476,0.127104015290874218742119155292646,0.0507918566807664804372661139524496,-0.00706468960072847838736593584592755,0.00241461456827053910446107191891601,-0.000587157929441285525007927926212295,0.128475566612909325935367000023729,
-0.0237079765423662928780117670635563,0.0530462029415178683054651284540586,0.0808797181116576452305848318622514,0.100223087110767428154228358452619,0.118740625371105347612027654981751,0.128401921174483483447543523266456,0.111297463371011648664988399321294,0.110550041407546712773536349646376,0.0400195821358365565836631323858398,-0.00465339475702450023560665071678529,0.000946159946801215727797466122154982,0.121791953741082644376206955766837,
-0.0234960806272195568568091693575592,0.0537910043349110939711015120897920,0.0794052835420064050819002004250082,0.102599242980423673728071549646070,0.115282008903919431059863755005492,0.121957721734388483055925901459613,0.120161146582434667532590757796109,0.0969963361380686168675019130955617,0.0870048679342290484481686034806426,0.0267348314988296077400636795484991,-0.00193215503936855034687567022927485,0.126562258948175394344111561384475,
-0.0236469392419615642878617937388090,0.0532620478891789279655033185946057,0.0804474021542312812801927573683775,0.100933088572757495740631956957054,0.117676768105807378528758689610199,0.126180881927588049137204691589036,0.114723023070228835924707342738073,0.104112394124448236467787058375982,0.0768285946304165705472815724454424,0.0578495651553385319895292460261809,0.0117938340966279567986539903712543,0.123325778154774796677162127259627,
-0.0238920173869485934969304866741947,0.0523469042934905536104208555611431,0.0824989309275610772029278735167313,0.0967817784368590868203195880662645,0.127125792924303086274991785688798,-0.0110819177291206372873693770391854,0.00554513518951393724662614926968001,-0.00318192887322027471274651669812568,0.00178717327876101308911741172051196,-0.000853608723970616168630490286571955,0.000236257179789026441050939783894818,0.0622867614533506962501406090107378};
-
-initializer_list<double> lb={0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952049363,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933437884,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485193300,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511860996273,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579509954,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622278147,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579580542,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511861010094,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485555961,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933242592,0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952155014,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622334800};
+initializer_list<long double> la={0.0117938340966279567986539903712542651L,-0.00437990215767931650940188692918275993L,0.00321056964125654262004469232623711363L,-0.00252868076291527559325483047108311481L,0.00202324519894856845571760672436639500L,0.00124774475192659582311909076184889173L,-0.000930499836629974148333740147760257765L,0.000650624788775465133900270947845369231L,-0.000408237882558168112866492596697974287L,0.000207615108480287514624040502392410963L,-0.0000592710487056506905538129963004732149L,-0.00160735902088665663692347356756027710L,
+0.0255198232326244639441836509717833773L,0.0267348314988296077400636795484990561L,-0.00696570366255593528084233870896311220L,0.00458737722346434400703031480933751183L,-0.00341487831325726315216580833366990735L,-0.00198873604147400184383034336299982346L,0.00146425936525797332056119445694672482L,-0.00101552961889071285353932174117125146L,0.000633880729666708085426064346671314546L,-0.000321341337251878490974152992793925156L,0.0000915875660363567404988113849493163662L,0.00261580117231290944435531656186262248L,
+0.0226415082464546978695105146203535484L,0.0581230577546837157157340098137834039L,0.0400195821358365565836631323858397680L,-0.00896632804601375189900412174147713714L,0.00544880489816575571543655014114527512L,0.00278156916561874812407426225463821671L,-0.00199435710192794323160270551931218004L,0.00136062625076553272030386945228062454L,-0.000840553839984532063258567090571879102L,0.000423460056141347174662230642939508805L,-0.000120308349110379280703786321047807113L,-0.00382839826778209094726230524498038005L,
+0.0241748261226971991223159086687208256L,0.0510550484293886763756662871780821004L,0.0871038538724015915546922006176070844L,0.0507918566807664804372661139524495941L,-0.0103577470216968143616942058302072881L,-0.00390204370620793343508578200225354134L,0.00266388699069817929130618710749775481L,-0.00176593366081374114507112195757116340L,0.00107205559231517493201514834145065328L,-0.000534534766345622524447744620771830372L,0.000151074627300977163206610358729114440L,0.00588867969618710894147918871599955609L,
+0.0231788873633936492342183449770823910L,0.0550336735248898118758263652719249436L,0.0763035605834845887509628990891626352L,0.110596236160954295848669502387032959L,0.0583731341345887021902124747312195141L,0.00591690882965931097780777409955511827L,-0.00367597498519267301626859146921163613L,0.00231791162580606885793696566969271786L,-0.00136729574370243207975475896064002278L,0.000670629185517022286304630351349835233L,-0.000188000196714650100120473944846696023L,-0.0110754199817737917021409005241805401L,
+0.0233514110134668871562570409586137122L,0.0543232717216298316487578493835700671L,0.0782519909929121000782088530511675768L,0.104765642234753235587278744603024865L,0.111201133079663467133798800192759023L,0.0622867614533506962501406090107378027L,-0.0103795246551256818945668362263593418L,0.00480193492467387405421263983863473112L,-0.00245976665588796403560160874505178435L,0.00112275870416866186970650353585503970L,-0.000304349193692679899622505931686132681L,0.135655440635822029787650595060661006L,
+0.0237756683899705636974284546873552262L,0.0527990338121421931938227287456482769L,0.0814064600153755452470810237323195587L,0.0992658017357268920165952622352064704L,0.120422243254370077396693540931650664L,0.135648942888475184202422118545656146L,0.0583731341345887021902124747312195141L,-0.00901252279942133497413727448213377095L,0.00373560368818852441636336568251690074L,-0.00156401052723059639569900617492683150L,0.000408780829862264363089635765426139177L,0.118656614077042081522473443921920487L,
+0.0234365935659549364341013703837794157L,0.0540041977640048380045751037177699425L,0.0789671086793579382353111164302288827L,0.103349647022346702019603349862470352L,0.114082381278479225089118762354941273L,0.118684843210514283558802029305476049L,0.127104015290874218742119155292646316L,0.0507918566807664804372661139524495941L,-0.00706468960072847838736593584592754842L,0.00241461456827053910446107191891601171L,-0.000587157929441285525007927926212295399L,0.128475566612909325935367000023729147L,
+0.0237079765423662928780117670635563373L,0.0530462029415178683054651284540586033L,0.0808797181116576452305848318622514150L,0.100223087110767428154228358452618564L,0.118740625371105347612027654981751208L,0.128401921174483483447543523266455985L,0.111297463371011648664988399321293753L,0.110550041407546712773536349646376325L,0.0400195821358365565836631323858397680L,-0.00465339475702450023560665071678529182L,0.000946159946801215727797466122154981770L,0.121791953741082644376206955766837389L,
+0.0234960806272195568568091693575592138L,0.0537910043349110939711015120897920373L,0.0794052835420064050819002004250082214L,0.102599242980423673728071549646070440L,0.115282008903919431059863755005492303L,0.121957721734388483055925901459612983L,0.120161146582434667532590757796108935L,0.0969963361380686168675019130955616764L,0.0870048679342290484481686034806426481L,0.0267348314988296077400636795484990561L,-0.00193215503936855034687567022927484711L,0.126562258948175394344111561384475429L,
+0.0236469392419615642878617937388090034L,0.0532620478891789279655033185946057011L,0.0804474021542312812801927573683775102L,0.100933088572757495740631956957053819L,0.117676768105807378528758689610199286L,0.126180881927588049137204691589035883L,0.114723023070228835924707342738072633L,0.104112394124448236467787058375982303L,0.0768285946304165705472815724454424223L,0.0578495651553385319895292460261808720L,0.0117938340966279567986539903712542651L,0.123325778154774796677162127259626714L,
+0.0238920173869485934969304866741946628L,0.0523469042934905536104208555611430724L,0.0824989309275610772029278735167313203L,0.0967817784368590868203195880662644571L,0.127125792924303086274991785688798370L,-0.0110819177291206372873693770391854009L,0.00554513518951393724662614926968000520L,-0.00318192887322027471274651669812567677L,0.00178717327876101308911741172051195909L,-0.000853608723970616168630490286571954991L,0.000236257179789026441050939783894818005L,0.0622867614533506962501406090107378027L};
+
+initializer_list<long double> lb={0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952049363L,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933437884L,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485193300L,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511860996273L,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579509954L,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622278147L,0.1167462682691774043804249494624390281297049860998774373652617489107460000397058376403395132542818452333693782198544344169492713942044580483098751942369037676662407258974437519440608139640152124479915439114678864539582211551500939765327353657687904635420334994509445640978376565411882027708071828275579580542L,0.1015837133615329608745322279048991882532590736372950731992972828988228162552364218975721975323026162155802146684316299824806856759510506645395521009479971184282844512263036914013842622285192334062003237906703194993765260763086402967227078611639639816697787726307117503919496430322080719716015841511861010094L,0.08003916427167311316732626477167953593600586524543208895494977207897711258664557534082827631852886526353743854840640131362188193044132452233751550121704755606839934510329989639280049023187956999193622469436293168029530833871431912276492224352291981419423054702333644373883129114799256420125015717268485555961L,0.05346966299765921548012735909699811210728508673516244000256302105140949681374878827026865904815822870678817966657057208058516525848177542242400432616345980025057195223824602414677757679288039553526246090355168977352124478564154654839032337991792586494517680687259140445064114056862149091434004043401933242592L,0.02358766819325591359730798074250853015851453699742354478025267350190486057601935533541295353770726804830805083779836928983374020411956649836923182554954904287898983942924799482987843527447262899850134759596589655622699535535471062660618413315900801711163516844413331872839165251841905557280534747658952155014L,0.1245735229067013925002812180214756054152304512848094156976755015581397137286440215155784003090211765324167380589385929165292555368018248440198210518850427147075136861054586412850984215082329596201080991039812760366217042888306894289831270164673918585371452055782825185923486161915706145691956879379622334800L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -446,21 +446,21 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<13,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.0101210011913289698800053980502465,-0.00377307158532573117639653956478696,0.00278561575606280540506391769715011,-0.00221827038404612727470909369006428,0.00180306469115291924767648064980046,-0.00146428618397597206373219195398718,0.00117219434523376612789533432940761,-0.000913582925476946914279833786076516,0.000682707775014527070994806526617237,-0.000477846825328057044954904151545178,0.000299962625259445461030372797434857,-0.000152576299212045336495614490534017,0.0000435604600183718814871431827825288,
-0.0219001283175295116522258243792181,0.0230303749594321119786054439884493,-0.00604331982544823445948205359739159,0.00402367675567341024867616113409459,-0.00304249472622634548710370846496858,0.00238203498776763745077474812162596,-0.00186724640081131399249109864113950,0.00143647464828385926714290321692637,-0.00106442244601130699290888262870222,0.000740852231417186149520785772376544,-0.000463345539787940887382989363911043,0.000235139088196600369947814289646073,-0.0000670516615041579007988664565837295,
-0.0194299477196462080138986265725847,0.0500695755432635923426235131209137,0.0347183775549468096159004442172179,-0.00786303206730868570634754109820751,0.00485274615855356234460137723834130,-0.00348400333660768447587493382716106,0.00260906242967983428705086502545689,-0.00195372076841097163727673691924709,0.00142329508753345627404375086579584,-0.000979733532987650877168571875648996,0.000608355059029741647181307412082681,-0.000307359452503456643979932083820092,0.0000874442385102884182445865602618302,
-0.0207461084445201329864662811434272,0.0439800566806027462386107262155192,0.0755663734121840834838611362790007,0.0445364951904864345700116729990245,-0.00922091684260183471157923038803508,0.00535465088568774835817836341051524,-0.00365522679985131663224119457647232,0.00260442900234894375524301082650519,-0.00184200989476170492739286362165069,0.00124460812210767416235581390797846,-0.000763750235756611259863351602996257,0.000383103892798337037853784379416009,-0.000108591577934743383496452469989929,
-0.0198907528982510605465179672081930,0.0474094387268283867543203296582884,0.0661938972977494572894970911918178,0.0969774293976857866965958632022815,0.0519540118842221255781308048265132,-0.0100633070332503760077136218506629,0.00553442491474951858506263543603369,-0.00358522008285720277410984531537971,0.00240894627535956901766224577323685,-0.00157902463820694369584986417058936,0.000951119931434866800772660663683767,-0.000471841291130799781952598265558731,0.000132996200941124552109905578322486,
-0.0205039757594727670060681545998433,0.0450910064519209141654412218524936,0.0715749421921594625399608006277203,0.0848574338709379334336662073674475,0.113150057093106559270427818381431,0.0565707950657243096030225465099442,-0.0103514560922495229752504808065757,0.00539400389969417161174279062738912,-0.00329262769907881380106091466035036,0.00205038906740336088057757139497844,-0.00119902884864579980320098025955255,0.000584799095209111448818836774843047,-0.000163447833221850412977632958606346,
-0.0200379395811026762773049698442838,0.0468004290851373722985012660116026,0.0678786934544959035977382705879556,0.0918730747240793403196288054251039,0.0989622717612276794983509717814398,0.123214025135056194245784393996810,0.0581378883077184775486473788172090,-0.0100724350036075750397393009769219,0.00494575200721657165791063787158657,-0.00280008434310647117960545942705492,0.00155806165539771563406261784648011,-0.000739679166273148341290378034704055,0.000204062801555263482705826256209194,
-0.0204054502158797901729884290590994,0.0454759508236551125083920512020555,0.0706357839585394190350018686939883,0.0870226013135695082594457746030706,0.107200651467523064957322524313377,0.107747586231754447594302302392499,0.126627232707686478072545238440994,0.0565707950657243096030225465099442,-0.00924203332466230811416620872840460,0.00421555651003493570635713863060150,-0.00213818708226584330815991219328461,0.000969743466943309791769666124404934,-0.000261973376814827246057358499350264,
-0.0201090061817168152079008905221705,0.0465325912099950237391634862424573,0.0684856351784587524310282277707520,0.0906520150191798128358732101686384,0.101499077493084682138599363879790,0.116726810214305821980154938335268,0.110741351700687436512232122198384,0.123204897164698995213758714870551,0.0519540118842221255781308048265132,-0.00790443901671291755657251720423246,0.00324285781214416194230379724261791,-0.00134868880796416279710944168138988,0.000351249484406879213492828892300010,
-0.0203505939605926831435072485704830,0.0456776460260658869193571035974826,0.0702005053456502304916642400374320,0.0878283822588651949776675320900705,0.105750033663205956083654473274677,0.110537161129099675450802082193383,0.119931003415288271729535952210890,0.107786939245760870847866729609373,0.113128940611046085867840840041061,0.0445364951904864345700116729990245,-0.00612961830229046425206024784456496,0.00208069323826147771860016176137939,-0.000504106061862193226455485042934161,
-0.0201545581441476513417662095402312,0.0463681093713676806011908200607187,0.0688284000508638775846195810223531,0.0900527239139605200171919178736980,0.102484728680910794882217858787231,0.115095310899859590843321829939135,0.113666714185757120810243892608961,0.116625593468056303681920026847049,0.0990552776098906888116602324146851,0.0969360224482815548463708870962565,0.0347183775549468096159004442172179,-0.00400882562439936838541262514401512,0.000812054663011731746112169527908313,
-0.0203090540441620976608096625570768,0.0458256108306676235872630736872525,0.0699001006496815601191838777983468,0.0883321381495556829905025602256725,0.104972446214455558149170492281729,0.111705115483164759938902189802962,0.118143023016248269089785856275557,0.110759555143680981755270344898262,0.106950518494670596643365318117995,0.0850493136252994588913471848639544,0.0754800749353418536912829420318273,0.0230303749594321119786054439884493,-0.00165812593487157189221502827872504,
-0.0201984419226395678785236529177105,0.0462133262180762692937065024674326,0.0691367924846341737707705156370009,0.0895508372063009261849782501495942,0.103225315993429724085266803126409,0.114055173056925566120324926805965,0.115103582270203188969399423305010,0.114605876315424591269777284973875,0.102104959077291331908585129003226,0.0912912607650189964147324396881133,0.0666511393538308138267369707372856,0.0498338215041899551336074275416855,0.0101210011913289698800053980502465};
-
-initializer_list<double> lb={0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123803064,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309061141179,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547440614369,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706180743704,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196847519,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765327175824,0.1162757766154369550972947576344179740783137386533989930593327196723800120403517006913610310213706817103420500023896627293230689834086437483040879644276247672851069454466057862661259264655868052471449074845678242281638885035488432091828695225298621902018505415108811712208315604919001522398125794729191249933,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765326548185,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196999882,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706179183318,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547443278613,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309060101292,0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123836934};
+initializer_list<long double> la={0.0101210011913289698800053980502465150L,-0.00377307158532573117639653956478696193L,0.00278561575606280540506391769715011401L,-0.00221827038404612727470909369006427729L,0.00180306469115291924767648064980045682L,-0.00146428618397597206373219195398717809L,0.00117219434523376612789533432940761431L,-0.000913582925476946914279833786076515647L,0.000682707775014527070994806526617236474L,-0.000477846825328057044954904151545177999L,0.000299962625259445461030372797434856758L,-0.000152576299212045336495614490534016786L,0.0000435604600183718814871431827825288257L,
+0.0219001283175295116522258243792180731L,0.0230303749594321119786054439884492802L,-0.00604331982544823445948205359739158619L,0.00402367675567341024867616113409458785L,-0.00304249472622634548710370846496857898L,0.00238203498776763745077474812162595974L,-0.00186724640081131399249109864113949578L,0.00143647464828385926714290321692637441L,-0.00106442244601130699290888262870221566L,0.000740852231417186149520785772376544082L,-0.000463345539787940887382989363911042814L,0.000235139088196600369947814289646073319L,-0.0000670516615041579007988664565837294570L,
+0.0194299477196462080138986265725847167L,0.0500695755432635923426235131209136839L,0.0347183775549468096159004442172178669L,-0.00786303206730868570634754109820751323L,0.00485274615855356234460137723834130528L,-0.00348400333660768447587493382716106157L,0.00260906242967983428705086502545688635L,-0.00195372076841097163727673691924708768L,0.00142329508753345627404375086579583538L,-0.000979733532987650877168571875648996128L,0.000608355059029741647181307412082680916L,-0.000307359452503456643979932083820092164L,0.0000874442385102884182445865602618302398L,
+0.0207461084445201329864662811434271910L,0.0439800566806027462386107262155191694L,0.0755663734121840834838611362790006987L,0.0445364951904864345700116729990244989L,-0.00922091684260183471157923038803508196L,0.00535465088568774835817836341051523823L,-0.00365522679985131663224119457647231753L,0.00260442900234894375524301082650519118L,-0.00184200989476170492739286362165069348L,0.00124460812210767416235581390797845698L,-0.000763750235756611259863351602996257220L,0.000383103892798337037853784379416009442L,-0.000108591577934743383496452469989928634L,
+0.0198907528982510605465179672081930197L,0.0474094387268283867543203296582884403L,0.0661938972977494572894970911918178246L,0.0969774293976857866965958632022814602L,0.0519540118842221255781308048265131908L,-0.0100633070332503760077136218506628776L,0.00553442491474951858506263543603369418L,-0.00358522008285720277410984531537970665L,0.00240894627535956901766224577323685334L,-0.00157902463820694369584986417058935531L,0.000951119931434866800772660663683767432L,-0.000471841291130799781952598265558730971L,0.000132996200941124552109905578322485997L,
+0.0205039757594727670060681545998432938L,0.0450910064519209141654412218524936268L,0.0715749421921594625399608006277203448L,0.0848574338709379334336662073674475002L,0.113150057093106559270427818381430986L,0.0565707950657243096030225465099441546L,-0.0103514560922495229752504808065756726L,0.00539400389969417161174279062738911580L,-0.00329262769907881380106091466035035604L,0.00205038906740336088057757139497844036L,-0.00119902884864579980320098025955255173L,0.000584799095209111448818836774843046552L,-0.000163447833221850412977632958606346249L,
+0.0200379395811026762773049698442838362L,0.0468004290851373722985012660116026155L,0.0678786934544959035977382705879556255L,0.0918730747240793403196288054251039197L,0.0989622717612276794983509717814398124L,0.123214025135056194245784393996810253L,0.0581378883077184775486473788172089870L,-0.0100724350036075750397393009769219437L,0.00494575200721657165791063787158656928L,-0.00280008434310647117960545942705492198L,0.00155806165539771563406261784648010832L,-0.000739679166273148341290378034704055070L,0.000204062801555263482705826256209193810L,
+0.0204054502158797901729884290590993763L,0.0454759508236551125083920512020555139L,0.0706357839585394190350018686939882855L,0.0870226013135695082594457746030705574L,0.107200651467523064957322524313376738L,0.107747586231754447594302302392499193L,0.126627232707686478072545238440993647L,0.0565707950657243096030225465099441546L,-0.00924203332466230811416620872840460429L,0.00421555651003493570635713863060149753L,-0.00213818708226584330815991219328461101L,0.000969743466943309791769666124404933687L,-0.000261973376814827246057358499350263821L,
+0.0201090061817168152079008905221705440L,0.0465325912099950237391634862424572914L,0.0684856351784587524310282277707519664L,0.0906520150191798128358732101686383531L,0.101499077493084682138599363879789528L,0.116726810214305821980154938335268016L,0.110741351700687436512232122198384280L,0.123204897164698995213758714870551187L,0.0519540118842221255781308048265131908L,-0.00790443901671291755657251720423246240L,0.00324285781214416194230379724261790919L,-0.00134868880796416279710944168138987987L,0.000351249484406879213492828892300010285L,
+0.0203505939605926831435072485704829587L,0.0456776460260658869193571035974825510L,0.0702005053456502304916642400374319910L,0.0878283822588651949776675320900705408L,0.105750033663205956083654473274677075L,0.110537161129099675450802082193383118L,0.119931003415288271729535952210890292L,0.107786939245760870847866729609373071L,0.113128940611046085867840840041061464L,0.0445364951904864345700116729990244989L,-0.00612961830229046425206024784456496487L,0.00208069323826147771860016176137939103L,-0.000504106061862193226455485042934160941L,
+0.0201545581441476513417662095402311998L,0.0463681093713676806011908200607186526L,0.0688284000508638775846195810223530529L,0.0900527239139605200171919178736979939L,0.102484728680910794882217858787230546L,0.115095310899859590843321829939135397L,0.113666714185757120810243892608961088L,0.116625593468056303681920026847049371L,0.0990552776098906888116602324146850764L,0.0969360224482815548463708870962565110L,0.0347183775549468096159004442172178669L,-0.00400882562439936838541262514401512339L,0.000812054663011731746112169527908313329L,
+0.0203090540441620976608096625570767595L,0.0458256108306676235872630736872524871L,0.0699001006496815601191838777983467766L,0.0883321381495556829905025602256724537L,0.104972446214455558149170492281728597L,0.111705115483164759938902189802961935L,0.118143023016248269089785856275557470L,0.110759555143680981755270344898262349L,0.106950518494670596643365318117994961L,0.0850493136252994588913471848639544099L,0.0754800749353418536912829420318273200L,0.0230303749594321119786054439884492802L,-0.00165812593487157189221502827872504303L,
+0.0201984419226395678785236529177105012L,0.0462133262180762692937065024674325772L,0.0691367924846341737707705156370008771L,0.0895508372063009261849782501495941758L,0.103225315993429724085266803126409145L,0.114055173056925566120324926805964825L,0.115103582270203188969399423305010360L,0.114605876315424591269777284973875487L,0.102104959077291331908585129003225925L,0.0912912607650189964147324396881132750L,0.0666511393538308138267369707372856198L,0.0498338215041899551336074275416855224L,0.0101210011913289698800053980502465150L};
+
+initializer_list<long double> lb={0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123803064L,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309061141179L,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547440614369L,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706180743704L,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196847519L,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765327175824L,0.1162757766154369550972947576344179740783137386533989930593327196723800120403517006913610310213706817103420500023896627293230689834086437483040879644276247672851069454466057862661259264655868052471449074845678242281638885035488432091828695225298621902018505415108811712208315604919001522398125794729191249933L,0.1131415901314486192060450930198883092173788688077785099324842743857878315602499855209131593331569648605632944553763418213278984039381714451247719075936011618720533013628467937573570258930580934698804320475423366869493356175836449191057496742720295584806874474461320207827947718598384769971661555765326548185L,0.1039080237684442511562616096530263816932913045997517746095555599582692717825422161302977640233059632879913203525845364208391315623438849799929464533098355974741793639737843471215412226948692092224736373838674240303060252449148286617938654119687184863925650297407115420233940855454854403250101484847196999882L,0.08907299038097286914002334599804899775640632533050825149339722014457253474937436174735847561115635075348352486003719730489174416209469371209588087083016935391997226609884624983801453498885147006101991862149767967272890365366640366758806541268481095589057487164392255566414840896418064427859280742706179183318L,0.06943675510989361923180088843443573381093135913164911382317750825288626076744476786259077142730281293120484213806299496579198091119620002807017459072511229099210219098216616789689231701182646332857409924459621425573667123234008772141813304105504691015605753990636549243846714887332099786266680517547443278613L,0.04606074991886422395721088797689856046184199993111841954419577366979686486381646314594890787786598643442321030901405577026403779110306650662875127274655613997643891316892901300482977236198562381364960875264334990244393961533209879827810468788136014759300074413146820910935306051339159966328620881309060101292L,0.02024200238265793976001079610049303002099327287249443406752330375249723025639635524721040621652658087716278288373004235222367267761966145393543092258091307212270049169012453524830216381661573748082985020756908333775318038438851462722464701087310284638618909637595959437142674399783276475337158478666123836934L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -468,22 +468,22 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<14,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.00877986508293796575795821903454795,-0.00328311623042934086798688316216252,0.00243769977190523648369753867532496,-0.00195809929677580446849837789111997,0.00161116775847946349648444265711885,-0.00133052156270291506772693351446155,0.00108963888466220974785039375877712,-0.000876302005740451815114376127002123,0.000684693691039925453930883284840597,-0.000512348412842921048968187481164774,0.000358848231298344463716262218571774,-0.000225331048392672084870452601877430,0.000114628208600992289517695941405055,-0.0000327274204462017607888581448243350,
-0.0189981535901935692032565753457345,0.0200395217899400524514083192657136,-0.00528828692877905772827154588731698,0.00355141173896972234311116783155499,-0.00271822648688944300089230331346735,0.00216386043522498030367910884029325,-0.00173506996416364108314035850590390,0.00137711257617749357667294331528682,-0.00106673647746380315042748249637517,0.000793568026138729677545338924362882,-0.000553593219336437327016306954809997,0.000346681281269539277437669257943583,-0.000176059960671760509587943072474205,0.0000502217676032972980292477605208439,
-0.0168552230279503139456460219204252,0.0435673907696408731646233759168512,0.0303796426719757961723537022681192,-0.00693923175519035119345305019603769,0.00433440470550090540006755914465584,-0.00316351532295943580063171436089832,0.00242277289054359102627535965473214,-0.00187121355051888424772368728276770,0.00142453006383964222688942439349999,-0.00104760430312298289632470226583768,0.000725153252625853259256047396927371,-0.000451771845981418753779397766857358,0.000228683634142081114593321789361646,-0.0000651217733284800126896319373713546,
-0.0179971729465900660094843746827399,0.0382681743915636711701172340552138,0.0661233345536871905749021814089698,0.0393007917895483836424004846559605,-0.00823373536491335826742210350287508,0.00485948742725785845997735856907124,-0.00339128378072244485517029851665092,0.00249119959912946624822510381855310,-0.00184021037875169195812940290871736,0.00132745819947615736530485315118822,-0.000907277121182312713726071572431614,0.000560545874372256964826230090779137,-0.000282277859465565741926729500486366,0.0000801673175675880271268840590184610,
-0.0172547617984066298930832342738616,0.0412533979917853903899376777087094,0.0579204623738544047817452791920076,0.0855778714769197311989090537154116,0.0463845993694844534354291475312893,-0.00912812000306882147124445709482786,0.00512982390658682692428320009930379,-0.00342399508689323368479917773962021,0.00240100771220400841219767118394390,-0.00167859385926087166843659137677713,0.00112473016941185443769237507083812,-0.000686129552116775559003003408177509,0.000342844909038254845086894540875276,-0.0000969793854288979175266629724320737,
-0.0177874472666498987219915789897631,0.0392337598958662474135725228744003,0.0626327197421615393472331900914912,0.0748787154811760310330609299933730,0.101022753500743341641028589080367,0.0512996159303239009914810164153045,-0.00958636975953160870951134850919731,0.00514289425654003773414845707324228,-0.00327298200285945016047811109921003,0.00217096714651606515875789781947959,-0.00140979076807348690067732075971781,0.000843606984771863475085728612171211,-0.000416706606795931371592766062971839,0.000117184468566671408063723397267082,
-0.0173819598204594481529414082955742,0.0407251338880214787650397745445252,0.0593916061259882977498028646063490,0.0810781747135810532747494681898616,0.0883477443625841108910902653689403,0.111737358469799304747462009589509,0.0538159633657894475489691108290650,-0.00958944502746706154293216025288384,0.00490242083631428848742035750691602,-0.00295118084701215774738375533809831,0.00181927648653469995209335198496095,-0.00105631852469745200915360223396650,0.000512797239918080511166826616528849,-0.000142965263485369814388244817198644,
-0.0177026954293613013303046828862945,0.0395662463399620243916498119148983,0.0618156038686490443538610067702048,0.0767823070925620673327076173269601,0.0957203795859810646182420504006768,0.0976968110243335134955416753236930,0.117221371759045956640870381911014,0.0538159633657894475489691108290650,-0.00913812660915150276449997675889980,0.00442145437638479597976802969363824,-0.00247659113448428598994849887794055,0.00136767921796329459490453992988933,-0.000646090308141373862223136013098015,0.000177770345416483362975029773521681,
-0.0174425456973092601078527146718288,0.0404957501866760362744094045943990,0.0599156783591797288696216759240671,0.0800113743471702541854782900716389,0.0905982315924528417121003972430989,0.105872213863507252143440143929819,0.102489032475038857363789764584888,0.117218296491110503807449570167327,0.0512996159303239009914810164153045,-0.00825355476177443477017029401778844,0.00372286809792073625174003931854807,-0.00187343439820994700252578555525291,0.000845283684013857489244115657026879,-0.000227717100773967206075140920667221,
-0.0176567095513048294334431010415280,0.0397361986708418500577297439905519,0.0614454148960683679037104079444158,0.0774768534096849128471085942410829,0.0944477925982297785392948864393556,0.100198224148443793570764361646665,0.111055921818472128782737399397750,0.102502102824992068173655021558826,0.111727351863716623454206489925437,0.0463845993694844534354291475312893,-0.00697628789782296391410808440349049,0.00283882297009718756296212534423074,-0.00117435441190528548712103917728224,0.000304968367469301622833203795234327,
-0.0174795628483083434887895540100774,0.0403613214393456706447433680319135,0.0601987394695793353798811744454592,0.0795088607002790799985270408843527,0.0914417405394927495055534419113903,0.104439442239399493941091435739326,0.105140727132449428849713117839577,0.111023210512301339953108520174781,0.0977397444333899435229846742615378,0.101002934103882265138280398565454,0.0393007917895483836424004846559605,-0.00536404920973559823019477687273153,0.00181086918831643373269940447621332,-0.000437442780714134493567936613643993,
-0.0176248519392044115286060700064672,0.0398503599457380237882233167420655,0.0612110571899330110984868023030957,0.0778764303264709140255449219149937,0.0938168030420918897671829973284162,0.101174701796808159756072608437109,0.109503140282097779345661908940898,0.105209153841035304071662862003398,0.105762747183607237783593747191507,0.0884347940334680014707907359179227,0.0855408153342871184782540195079588,0.0303796426719757961723537022681192,-0.00348834718976076826180673738542408,0.000704507137925617570270416148670639,
-0.0175095083982726342178871903085750,0.0402551035405518654124045816039014,0.0604126040626820530672697352782947,0.0791551767984332046118172762667311,0.0919756307128301771933129561382156,0.103665968338111605133389515326984,0.106254814155401401521265278342843,0.109366996695742536181078580164034,0.100435371425422821679282923990316,0.0954874252258583498717505983760459,0.0750501718401270449416898014803661,0.0660475722727306500729789504235553,0.0200395217899400524514083192657136,-0.00143842342431763768734013727663862,
-0.0175924575863221332767052962139202,0.0399644153712791126132989425900221,0.0609846163923442644295778571381157,0.0782427353477984228210847070933493,0.0932815471518118279198264825437433,0.101914538169607876529031149545768,0.108508228737319346913052597785132,0.106542287846916685350087827899353,0.103929753423350717050688966345071,0.0911580309804894433743738524054597,0.0805596828758725717532993472030411,0.0583215855720463558610098658609134,0.0433621598103094457708035216935897,0.00877986508293796575795821903454795};
-
-initializer_list<double> lb={0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060882729124,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161732825403,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278127732180,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276041950345,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799226224416,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698742602854,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843661072667,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843659468872,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698741354404,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799221578134,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276015196586,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278148536558,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161726341104,0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060883202379};
+initializer_list<long double> la={0.00877986508293796575795821903454794515L,-0.00328311623042934086798688316216251819L,0.00243769977190523648369753867532495567L,-0.00195809929677580446849837789111997350L,0.00161116775847946349648444265711884835L,-0.00133052156270291506772693351446154731L,0.00108963888466220974785039375877712463L,-0.000876302005740451815114376127002122702L,0.000684693691039925453930883284840597115L,-0.000512348412842921048968187481164774195L,0.000358848231298344463716262218571774339L,-0.000225331048392672084870452601877430245L,0.000114628208600992289517695941405055016L,-0.0000327274204462017607888581448243349693L,
+0.0189981535901935692032565753457345144L,0.0200395217899400524514083192657135774L,-0.00528828692877905772827154588731698120L,0.00355141173896972234311116783155499336L,-0.00271822648688944300089230331346734540L,0.00216386043522498030367910884029325324L,-0.00173506996416364108314035850590389776L,0.00137711257617749357667294331528681622L,-0.00106673647746380315042748249637516965L,0.000793568026138729677545338924362882019L,-0.000553593219336437327016306954809997204L,0.000346681281269539277437669257943582985L,-0.000176059960671760509587943072474204498L,0.0000502217676032972980292477605208438626L,
+0.0168552230279503139456460219204252509L,0.0435673907696408731646233759168512343L,0.0303796426719757961723537022681191565L,-0.00693923175519035119345305019603768894L,0.00433440470550090540006755914465583846L,-0.00316351532295943580063171436089831878L,0.00242277289054359102627535965473213562L,-0.00187121355051888424772368728276770152L,0.00142453006383964222688942439349998926L,-0.00104760430312298289632470226583768067L,0.000725153252625853259256047396927371364L,-0.000451771845981418753779397766857358002L,0.000228683634142081114593321789361645544L,-0.0000651217733284800126896319373713545773L,
+0.0179971729465900660094843746827398833L,0.0382681743915636711701172340552138376L,0.0661233345536871905749021814089698473L,0.0393007917895483836424004846559605392L,-0.00823373536491335826742210350287508172L,0.00485948742725785845997735856907123959L,-0.00339128378072244485517029851665091606L,0.00249119959912946624822510381855309872L,-0.00184021037875169195812940290871735664L,0.00132745819947615736530485315118822208L,-0.000907277121182312713726071572431613473L,0.000560545874372256964826230090779136722L,-0.000282277859465565741926729500486366350L,0.0000801673175675880271268840590184609994L,
+0.0172547617984066298930832342738615636L,0.0412533979917853903899376777087093939L,0.0579204623738544047817452791920075726L,0.0855778714769197311989090537154115695L,0.0463845993694844534354291475312892591L,-0.00912812000306882147124445709482785799L,0.00512982390658682692428320009930378979L,-0.00342399508689323368479917773962021367L,0.00240100771220400841219767118394390246L,-0.00167859385926087166843659137677712729L,0.00112473016941185443769237507083812336L,-0.000686129552116775559003003408177508809L,0.000342844909038254845086894540875276072L,-0.0000969793854288979175266629724320736937L,
+0.0177874472666498987219915789897631110L,0.0392337598958662474135725228744002760L,0.0626327197421615393472331900914912215L,0.0748787154811760310330609299933730068L,0.101022753500743341641028589080366963L,0.0512996159303239009914810164153045139L,-0.00958636975953160870951134850919731181L,0.00514289425654003773414845707324228046L,-0.00327298200285945016047811109921003072L,0.00217096714651606515875789781947958958L,-0.00140979076807348690067732075971780664L,0.000843606984771863475085728612171211046L,-0.000416706606795931371592766062971839053L,0.000117184468566671408063723397267081730L,
+0.0173819598204594481529414082955742093L,0.0407251338880214787650397745445251694L,0.0593916061259882977498028646063489858L,0.0810781747135810532747494681898616261L,0.0883477443625841108910902653689402793L,0.111737358469799304747462009589508828L,0.0538159633657894475489691108290650088L,-0.00958944502746706154293216025288384245L,0.00490242083631428848742035750691601998L,-0.00295118084701215774738375533809831345L,0.00181927648653469995209335198496094766L,-0.00105631852469745200915360223396649682L,0.000512797239918080511166826616528848924L,-0.000142965263485369814388244817198643839L,
+0.0177026954293613013303046828862945341L,0.0395662463399620243916498119148983059L,0.0618156038686490443538610067702048098L,0.0767823070925620673327076173269601306L,0.0957203795859810646182420504006768316L,0.0976968110243335134955416753236930079L,0.117221371759045956640870381911013860L,0.0538159633657894475489691108290650088L,-0.00913812660915150276449997675889979966L,0.00442145437638479597976802969363823886L,-0.00247659113448428598994849887794054776L,0.00136767921796329459490453992988932720L,-0.000646090308141373862223136013098014634L,0.000177770345416483362975029773521680991L,
+0.0174425456973092601078527146718288086L,0.0404957501866760362744094045943989938L,0.0599156783591797288696216759240671019L,0.0800113743471702541854782900716388849L,0.0905982315924528417121003972430989285L,0.105872213863507252143440143929819059L,0.102489032475038857363789764584887737L,0.117218296491110503807449570167327329L,0.0512996159303239009914810164153045139L,-0.00825355476177443477017029401778844466L,0.00372286809792073625174003931854807155L,-0.00187343439820994700252578555525290850L,0.000845283684013857489244115657026878755L,-0.000227717100773967206075140920667220704L,
+0.0176567095513048294334431010415279640L,0.0397361986708418500577297439905518787L,0.0614454148960683679037104079444158218L,0.0774768534096849128471085942410829549L,0.0944477925982297785392948864393556454L,0.100198224148443793570764361646665125L,0.111055921818472128782737399397750231L,0.102502102824992068173655021558826228L,0.111727351863716623454206489925436886L,0.0463845993694844534354291475312892591L,-0.00697628789782296391410808440349049115L,0.00283882297009718756296212534423074039L,-0.00117435441190528548712103917728223908L,0.000304968367469301622833203795234326678L,
+0.0174795628483083434887895540100774293L,0.0403613214393456706447433680319135211L,0.0601987394695793353798811744454591763L,0.0795088607002790799985270408843526918L,0.0914417405394927495055534419113902960L,0.104439442239399493941091435739326384L,0.105140727132449428849713117839576919L,0.111023210512301339953108520174780934L,0.0977397444333899435229846742615377883L,0.101002934103882265138280398565453600L,0.0393007917895483836424004846559605392L,-0.00536404920973559823019477687273153430L,0.00181086918831643373269940447621331719L,-0.000437442780714134493567936613643993019L,
+0.0176248519392044115286060700064672449L,0.0398503599457380237882233167420655092L,0.0612110571899330110984868023030956710L,0.0778764303264709140255449219149937069L,0.0938168030420918897671829973284161988L,0.101174701796808159756072608437109039L,0.109503140282097779345661908940897719L,0.105209153841035304071662862003397882L,0.105762747183607237783593747191507347L,0.0884347940334680014707907359179226797L,0.0855408153342871184782540195079587672L,0.0303796426719757961723537022681191565L,-0.00348834718976076826180673738542407950L,0.000704507137925617570270416148670639371L,
+0.0175095083982726342178871903085750464L,0.0402551035405518654124045816039013593L,0.0604126040626820530672697352782947300L,0.0791551767984332046118172762667310755L,0.0919756307128301771933129561382156361L,0.103665968338111605133389515326984198L,0.106254814155401401521265278342843201L,0.109366996695742536181078580164033915L,0.100435371425422821679282923990315775L,0.0954874252258583498717505983760458635L,0.0750501718401270449416898014803660849L,0.0660475722727306500729789504235552942L,0.0200395217899400524514083192657135774L,-0.00143842342431763768734013727663862408L,
+0.0175924575863221332767052962139202253L,0.0399644153712791126132989425900220998L,0.0609846163923442644295778571381157432L,0.0782427353477984228210847070933493040L,0.0932815471518118279198264825437432923L,0.101914538169607876529031149545768431L,0.108508228737319346913052597785132140L,0.106542287846916685350087827899352893L,0.103929753423350717050688966345070575L,0.0911580309804894433743738524054596698L,0.0805596828758725717532993472030410518L,0.0583215855720463558610098658609133573L,0.0433621598103094457708035216935896730L,0.00877986508293796575795821903454794515L};
+
+initializer_list<long double> lb={0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060882729124L,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161732825403L,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278127732180L,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276041950345L,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799226224416L,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698742602854L,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843661072667L,0.1076319267315788950979382216581300176374987790270644001098881962718093936769973020005122207054097891186283361662183854964740829882324650945178009540254907140208789013457825411438132086827245964731406018310166726882302612821553172064563273491747436332813654487561968582747125775543136881231782450843659468872L,0.1025992318606478019829620328306090278551695306547097258584486451416835724126248601697159199959454478621846347212247143642267428066925322432959351151070158335708936664967374139195690556628424064127198380104525264882677124865618776625734596425949036197353524982360515886646128482750418314868365103698741354404L,0.09276919873896890687085829506257851812446130146866582951001746253454917513176272221277636557335611149128056075286445944953894824871260804475427626207641821803643202030013616189848570692537672804666561394522496942619224268319696130896093991238030751372574677785064549447515336782318788732728214529799221578134L,0.07860158357909676728480096931192107830283401866866168748465852193738408818480414925697904668120903813842657599954059425094271874603232881337446214551863230099350051109782372955392116140280534305845385660923346758006918872141925113294496193422195423425114324525620482851079333665449047681553822187276015196586L,0.06075928534395159234470740453623831297833467284503733614553769627157987194626324615940995313518750357445777532652962849714057871567044342740482106285722730401445927053077103931002823377281466480127030511981835899270295037750248645249462050650955361786709105416648319337324109337606520468779147684278148536558L,0.04007904357988010490281663853142715479184889269729738260069953274478573722864358493176809540956887798431125079540194237439765456912863022171883775599223704738986938618502683052885892613269772745615677733124855797322883267882608004687446770638554687675994193246397378142367581893645469507593959641161726341104L,0.01755973016587593151591643806909589030985280463856363829074994509820816141890413526883839849932323183071086623822027556727927392553099215493386670442297858197396624404372228364532370742073853375159300715300544685130881177033802618969522294873299050437935904327044425527781095738044621648343380412060883202379L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -491,23 +491,23 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<15,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.00768831049902931708865709839430110,-0.00288207652296439580063546956640496,0.00214977135688850644287947195441230,-0.00173884965380298083558788216578044,0.00144470413915726138708869767716335,-0.00120875124593688546658128485877837,-0.000829198279957270056165475383330968,0.000668820975529917187940369682561850,-0.000523450351172725058136595675165461,0.000392046730691602014114395777496628,-0.000274715621754918118582794977518628,0.000172538127706577039763717164693461,-0.0000877790602645868752966820187805339,0.0000250623437545120994878446872165364,0.00100730755285335470627173001460784,
-0.0166362227509783404984961450415114,0.0175915118720270311773168541126668,-0.00466351386567139920910945192640114,0.00315354205167060177481027904195496,-0.00243709364541861248927066133075671,0.00196545995211755642319833638016242,0.00130260473646139385678049832465133,-0.00104148556214203561932207449711480,0.000810228194455859749132304352513766,-0.000604288995041522705160129596905066,0.000422194068522064401364461722620928,-0.000264629686030523967638173133559916,0.000134457272941865614537600421636876,-0.0000383635400718623012778712595397459,-0.00160354180515170935773759150854591,
-0.0147596657935835599495579379109451,0.0382453177464055777555361371553767,0.0267898051167929837529673866714673,-0.00616125782189826452701945604676958,0.00388540778485748995650797025288780,-0.00287258727158500903381330889237036,-0.00176882660434387913394492107044070,0.00138957805663066645209914875567541,-0.00106833441025736725849353335977303,0.000790333943391873816513817513980545,-0.000549070190929407584415480432400551,0.000342837152366744899109634183981507,-0.000173768948419062931349295607481126,0.0000495161011043642971631230913928475,0.00223809184708612148925667948641971,
-0.0157597621061541406071917707671331,0.0335931318479854185736211582802462,0.0583100851091268661824035925215984,0.0348926694815385786119511986277571,-0.00737940946173976384827296895623885,0.00441096801812590706555516092206085,0.00235280924473860437078970068009314,-0.00179283158915975579588626926021054,0.00135144263633254211230345864810751,-0.000986609667339780165472251839726848,0.000679266000451239434163117754700047,-0.000421563716075716397819728976520931,0.000212853647458382933211580026679770,-0.0000605313101682632124896863746739518,-0.00313090802751342417934286012797411,
-0.0151094077411841340124542675513073,0.0362144152536475076570565761402277,0.0510754948901790939145299350867404,0.0759798064004408833045786853890249,0.0415673014542484833883002151203022,-0.00828277336540880503184844886533352,-0.00323039674394951171049944257284989,0.00233558196615176564298443910486194,-0.00170522856069432033507452748948227,0.00121948195415413587624329276381805,-0.000828185709088390761404758010888066,0.000509364129493923943341426134730871,-0.000255738444847295467362462157213771,0.0000725131747848474283504476134943536,0.00473286955543412436973698556430448,
-0.0155763030989084244329229244789970,0.0344401095551792856353578159705013,0.0552331478312634465959558708141656,0.0664782993761123615184061906266898,0.0905323400785462625916172751622854,0.0465402500038905527567001404666057,0.00484679298140696426300794637272217,-0.00317822423571163094902465918219191,0.00219973318684740140886793973388926,-0.00152302038826284084666941590870139,0.00101321847710032825541555137730759,-0.000614961686883209505797295930784541,0.000306254025292725873549587624150750,-0.0000864724368757241202958614665039038,-0.00883944340559603285861769562965557,
-0.0155025009302956829281881053093292,0.0347305608049307295822013036311998,0.0545152787351061594892301878123766,0.0681643199523595268233594122982296,0.0857860006893487479412995056538336,0.0886264983355843505212644083221176,0.0506445604813903182201550499918798,-0.00884395744970946354663335487841734,0.00445400167219675499213587261109381,-0.00265139778085178116469907541322919,0.00162101901071763040054298495728458,-0.000935668501520191983295414469441973,0.000452462939123332772432404594133889,-0.000125879932237048750873908520726956,0.108059700113265251774692518100337,
-0.0152729660096446532887154273776346,0.0355523462958812372687600312419467,0.0528291945367959129786560876927991,0.0710463622321110828606712156060207,0.0811775780039442352442256266787681,0.0960621911492772619098913177211643,0.110317896556901683222398533330108,0.0496078713317778941140295816109598,-0.00829283528898673480148119897698628,0.00396575402799720493942905295023015,-0.00220218558160831593772050076925001,0.00120863973412445964285627893313716,-0.000568634048293621479668241547644885,0.000156114201767673815646320252275934,0.0944637878373826340839046195961349,
-0.0154630934349343582976100582551061,0.0348767697187613364810841206011829,0.0541945719204691770117320692737192,0.0687721204859768289684868458782066,0.0846576232967598076232698461493058,0.0908807668209337041045323411993222,0.0964423279813736721773021536110375,0.108055186069151821086676858851575,0.0465402500038905527567001404666057,-0.00739773717004929581501684492168096,0.00330703958696479570549620662882437,-0.00165353759767747909002109747123093,0.000742914188874776719275892254832318,-0.000199682100849790255608727690394819,0.102393966899267419177083822404112,
-0.0153041078232737867489637491751079,0.0354387621889013578219961703825474,0.0530702461040920435625933472082038,0.0706135246721655479853071552664022,0.0819151209543428309003571374767864,0.0947857285684754258484748084226937,0.104519517706730148150809542556610,0.0944828731081216638583221776576152,0.101363273373189910545248729798545,0.0415673014542484833883002151203022,-0.00619446743736372608067628813351075,0.00250411534340687359140483825619426,-0.00103139150959344530242286791489404,0.000267213256874500164859929237294932,0.0968801606974040225850747241170577,
-0.0154371523082268973898038831632762,0.0349701700965956794214221281986539,0.0540011739496616839037545023194556,0.0691060729626259177897392795008141,0.0841212125758367469420726820803313,0.0917290573714485634010968222851039,0.0989363117180420320695203993036665,0.102346650691069212407402023349894,0.0886695319896551984478451200111506,0.0905140123702367306248733991968433,0.0348926694815385786119511986277571,-0.00473047487554089867646881917866378,0.00158989189606864378101254994508743,-0.000383141108095506429877573978530933,0.101008574252715544023945432482130,
-0.0153271048969542698801510736972094,0.0353567926924731252859830038328148,0.0532367730812192226068251391589531,0.0703344091540065648083178776879147,0.0823442689651050929600866127266239,0.0941488344180384727718938142929845,0.103057947567124515574255021054200,0.0969776508164696667388024837354999,0.0959530872793661145472135898255818,0.0792491951236394768200924599877166,0.0759465967849754217509218533022837,0.0267898051167929837529673866714673,-0.00306229400235151540090242893004299,0.000616955204475074227756258877657089,0.0978261646069251217759600144662443,
-0.0154149845381304964785920680481420,0.0350485664711121967400961078036968,0.0538442399196164914735729464764946,0.0693631448945550928225379355328932,0.0837388919035384894817605598375095,0.0922702718133252457642679765806976,0.0999865162263192425835296016591083,0.100819284468707497585796754730466,0.0911150400556635490902019445530490,0.0855716965539155792658710915713611,0.0666317969114065554490921182135592,0.0582431240992573667150442252693358,0.0175915118720270311773168541126668,-0.00125960175291970632118194825290922,0.100257228225697823847381237719034,
-0.0153515586543041220778263521013857,0.0352708028043186492299303902441142,0.0534070721058793904661710561782412,0.0700600545848320753424851922330328,0.0827425561778053647624860344631078,0.0936039503589538305715368766083769,0.102118319242737906496475575367091,0.0982084351107024335217874332073118,0.0942892512537179909799815657919898,0.0816898987693397053895117325634411,0.0715241886168801380594902794212946,0.0514298388766974610630553013885224,0.0380651002670184581552691777917386,0.00768831049902931708865709839430110,0.0985469216880258710401187935393578,
-0.0152205067962909603616678765363263,0.0357516577923476838343019497729786,0.0523709704994615078630784944097975,0.0719875245446854731616228980247642,0.0791688488804997618371713772903743,0.101373335296767840314881479910198,-0.00902877559412104678208843334634815,0.00475195482617315414415454362578481,-0.00298169114149615639649103678795289,0.00195702490455273153237480356183629,-0.00126102326903392563676881835050655,0.000750415696790054527278685650135590,-0.000369322551827174914126323016613038,0.000103654988413980888598769410967572,0.0496078713317778941140295816109598};
-
-initializer_list<double> lb={0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682830460390,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588209219898,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708189811013,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498954293869,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029809258764,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924637160946,0.1012891209627806364403100999837596574193310790047386783983520580257176993773730370466967203563940160676757413354149950886547623144359741096337832934569531306128042724779321515918252514989111725708462305198901935498672095408692145288881885618482355079091675828272564869301466038062774659511256247852975994681,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302649829266,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924593310703,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029790738017,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498847014021,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708140197696,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588143487435,0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682840107698,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302625108573};
+initializer_list<long double> la={0.00768831049902931708865709839430110443L,-0.00288207652296439580063546956640496347L,0.00214977135688850644287947195441229999L,-0.00173884965380298083558788216578044241L,0.00144470413915726138708869767716335303L,-0.00120875124593688546658128485877836839L,-0.000829198279957270056165475383330967556L,0.000668820975529917187940369682561850343L,-0.000523450351172725058136595675165461138L,0.000392046730691602014114395777496627541L,-0.000274715621754918118582794977518628417L,0.000172538127706577039763717164693460740L,-0.0000877790602645868752966820187805339163L,0.0000250623437545120994878446872165363854L,0.00100730755285335470627173001460784226L,
+0.0166362227509783404984961450415114334L,0.0175915118720270311773168541126668346L,-0.00466351386567139920910945192640113537L,0.00315354205167060177481027904195496002L,-0.00243709364541861248927066133075671129L,0.00196545995211755642319833638016241777L,0.00130260473646139385678049832465133300L,-0.00104148556214203561932207449711480351L,0.000810228194455859749132304352513766042L,-0.000604288995041522705160129596905066471L,0.000422194068522064401364461722620928240L,-0.000264629686030523967638173133559915681L,0.000134457272941865614537600421636875843L,-0.0000383635400718623012778712595397459370L,-0.00160354180515170935773759150854590632L,
+0.0147596657935835599495579379109451200L,0.0382453177464055777555361371553766612L,0.0267898051167929837529673866714673259L,-0.00616125782189826452701945604676957891L,0.00388540778485748995650797025288780267L,-0.00287258727158500903381330889237036409L,-0.00176882660434387913394492107044069624L,0.00138957805663066645209914875567540745L,-0.00106833441025736725849353335977303408L,0.000790333943391873816513817513980544700L,-0.000549070190929407584415480432400550875L,0.000342837152366744899109634183981507453L,-0.000173768948419062931349295607481125925L,0.0000495161011043642971631230913928475376L,0.00223809184708612148925667948641970761L,
+0.0157597621061541406071917707671331421L,0.0335931318479854185736211582802462394L,0.0583100851091268661824035925215984333L,0.0348926694815385786119511986277570806L,-0.00737940946173976384827296895623884673L,0.00441096801812590706555516092206084837L,0.00235280924473860437078970068009314400L,-0.00179283158915975579588626926021053597L,0.00135144263633254211230345864810751194L,-0.000986609667339780165472251839726847938L,0.000679266000451239434163117754700047455L,-0.000421563716075716397819728976520931527L,0.000212853647458382933211580026679769804L,-0.0000605313101682632124896863746739517910L,-0.00313090802751342417934286012797410777L,
+0.0151094077411841340124542675513072773L,0.0362144152536475076570565761402277098L,0.0510754948901790939145299350867403911L,0.0759798064004408833045786853890249113L,0.0415673014542484833883002151203022028L,-0.00828277336540880503184844886533352108L,-0.00323039674394951171049944257284989172L,0.00233558196615176564298443910486194492L,-0.00170522856069432033507452748948226817L,0.00121948195415413587624329276381805406L,-0.000828185709088390761404758010888066259L,0.000509364129493923943341426134730871444L,-0.000255738444847295467362462157213771276L,0.0000725131747848474283504476134943535789L,0.00473286955543412436973698556430448152L,
+0.0155763030989084244329229244789970278L,0.0344401095551792856353578159705013510L,0.0552331478312634465959558708141655783L,0.0664782993761123615184061906266897868L,0.0905323400785462625916172751622853638L,0.0465402500038905527567001404666057061L,0.00484679298140696426300794637272216725L,-0.00317822423571163094902465918219190558L,0.00219973318684740140886793973388925824L,-0.00152302038826284084666941590870139391L,0.00101321847710032825541555137730759152L,-0.000614961686883209505797295930784540821L,0.000306254025292725873549587624150749981L,-0.0000864724368757241202958614665039038183L,-0.00883944340559603285861769562965557085L,
+0.0155025009302956829281881053093291644L,0.0347305608049307295822013036311997803L,0.0545152787351061594892301878123766249L,0.0681643199523595268233594122982295770L,0.0857860006893487479412995056538335978L,0.0886264983355843505212644083221175991L,0.0506445604813903182201550499918798287L,-0.00884395744970946354663335487841733652L,0.00445400167219675499213587261109381320L,-0.00265139778085178116469907541322919224L,0.00162101901071763040054298495728458424L,-0.000935668501520191983295414469441973224L,0.000452462939123332772432404594133888908L,-0.000125879932237048750873908520726955507L,0.108059700113265251774692518100336999L,
+0.0152729660096446532887154273776346371L,0.0355523462958812372687600312419467072L,0.0528291945367959129786560876927990620L,0.0710463622321110828606712156060207100L,0.0811775780039442352442256266787681126L,0.0960621911492772619098913177211642999L,0.110317896556901683222398533330107809L,0.0496078713317778941140295816109598312L,-0.00829283528898673480148119897698627793L,0.00396575402799720493942905295023015349L,-0.00220218558160831593772050076925000842L,0.00120863973412445964285627893313716477L,-0.000568634048293621479668241547644884756L,0.000156114201767673815646320252275934211L,0.0944637878373826340839046195961348531L,
+0.0154630934349343582976100582551061127L,0.0348767697187613364810841206011829193L,0.0541945719204691770117320692737191925L,0.0687721204859768289684868458782065697L,0.0846576232967598076232698461493057995L,0.0908807668209337041045323411993221540L,0.0964423279813736721773021536110374902L,0.108055186069151821086676858851575233L,0.0465402500038905527567001404666057061L,-0.00739773717004929581501684492168095820L,0.00330703958696479570549620662882437450L,-0.00165353759767747909002109747123092664L,0.000742914188874776719275892254832318249L,-0.000199682100849790255608727690394818971L,0.102393966899267419177083822404111568L,
+0.0153041078232737867489637491751078553L,0.0354387621889013578219961703825474405L,0.0530702461040920435625933472082037803L,0.0706135246721655479853071552664022275L,0.0819151209543428309003571374767863515L,0.0947857285684754258484748084226936804L,0.104519517706730148150809542556609549L,0.0944828731081216638583221776576151809L,0.101363273373189910545248729798544933L,0.0415673014542484833883002151203022028L,-0.00619446743736372608067628813351075009L,0.00250411534340687359140483825619426056L,-0.00103139150959344530242286791489404058L,0.000267213256874500164859929237294931607L,0.0968801606974040225850747241170577175L,
+0.0154371523082268973898038831632761607L,0.0349701700965956794214221281986538994L,0.0540011739496616839037545023194555832L,0.0691060729626259177897392795008141138L,0.0841212125758367469420726820803312535L,0.0917290573714485634010968222851039003L,0.0989363117180420320695203993036665134L,0.102346650691069212407402023349893770L,0.0886695319896551984478451200111505639L,0.0905140123702367306248733991968432523L,0.0348926694815385786119511986277570806L,-0.00473047487554089867646881917866378157L,0.00158989189606864378101254994508742985L,-0.000383141108095506429877573978530933189L,0.101008574252715544023945432482130198L,
+0.0153271048969542698801510736972093613L,0.0353567926924731252859830038328147952L,0.0532367730812192226068251391589531443L,0.0703344091540065648083178776879147121L,0.0823442689651050929600866127266238609L,0.0941488344180384727718938142929844463L,0.103057947567124515574255021054200354L,0.0969776508164696667388024837354999548L,0.0959530872793661145472135898255817763L,0.0792491951236394768200924599877166029L,0.0759465967849754217509218533022837402L,0.0267898051167929837529673866714673259L,-0.00306229400235151540090242893004299194L,0.000616955204475074227756258877657088880L,0.0978261646069251217759600144662442550L,
+0.0154149845381304964785920680481419548L,0.0350485664711121967400961078036967934L,0.0538442399196164914735729464764945674L,0.0693631448945550928225379355328932330L,0.0837388919035384894817605598375094720L,0.0922702718133252457642679765806976462L,0.0999865162263192425835296016591083244L,0.100819284468707497585796754730465569L,0.0911150400556635490902019445530489945L,0.0855716965539155792658710915713611169L,0.0666317969114065554490921182135592012L,0.0582431240992573667150442252693357871L,0.0175915118720270311773168541126668346L,-0.00125960175291970632118194825290922456L,0.100257228225697823847381237719034466L,
+0.0153515586543041220778263521013856725L,0.0352708028043186492299303902441142031L,0.0534070721058793904661710561782411910L,0.0700600545848320753424851922330327897L,0.0827425561778053647624860344631077780L,0.0936039503589538305715368766083768734L,0.102118319242737906496475575367090625L,0.0982084351107024335217874332073118201L,0.0942892512537179909799815657919897806L,0.0816898987693397053895117325634410525L,0.0715241886168801380594902794212946037L,0.0514298388766974610630553013885223517L,0.0380651002670184581552691777917386327L,0.00768831049902931708865709839430110443L,0.0985469216880258710401187935393578121L,
+0.0152205067962909603616678765363262747L,0.0357516577923476838343019497729785540L,0.0523709704994615078630784944097974869L,0.0719875245446854731616228980247641697L,0.0791688488804997618371713772903742521L,0.101373335296767840314881479910197690L,-0.00902877559412104678208843334634815196L,0.00475195482617315414415454362578480932L,-0.00298169114149615639649103678795288762L,0.00195702490455273153237480356183629292L,-0.00126102326903392563676881835050654870L,0.000750415696790054527278685650135589678L,-0.000369322551827174914126323016613037983L,0.000103654988413980888598769410967571714L,0.0496078713317778941140295816109598312L};
+
+initializer_list<long double> lb={0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682830460390L,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588209219898L,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708189811013L,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498954293869L,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029809258764L,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924637160946L,0.1012891209627806364403100999837596574193310790047386783983520580257176993773730370466967203563940160676757413354149950886547623144359741096337832934569531306128042724779321515918252514989111725708462305198901935498672095408692145288881885618482355079091675828272564869301466038062774659511256247852975994681L,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302649829266L,0.09308050000778110551340028093321141225311300613896420140774786365500662775134958030947488444304966180269988854500692217653363510869409111094568254087622011972273167492276274919274938522793491733719115027660472336125208960510834848248600071736300196203426459049551404201134206739487028542342457035924593310703L,0.08313460290849696677660043024060440556545009004920645366093259528177678160613925885535258714620776810742230770328592611370908573150854838774625873359180491034956146119293248188949999773688221555996238784868754270766445343663806960365826785066865693097128193472816959009632880306033454622277196216029790738017L,0.06978533896307715722390239725551416126042513765775562160119556431554422227095390584038412868178566681907454444663831995205554586227457048141166712032200631863923972528799705986366803856514178215443159920090907345668232150777290506186878592789136497179274164905662499806197037025681512297512536141498847014021L,0.05357961023358596750593477334293465170777185787905099034351119456093899742615789986284292856880431202219904383918752779063590524942028391199873541393076808106619185754505777447825030322442905471418415732863810631689778551277549883941870884250029295768447647052475458456531516696281578973775514405708140197696L,0.03518302374405406235463370822533366923335401637716535991295364645719352775643711852242022603334696960967774492929752026940230742163864553964782780207687912395354844511880668903988342675918187132611945329894131108013892909185743125620767818801236636230455682117786153920376609980220032832905613055588143487435L,0.01537662099805863417731419678860220886087407241671703713211414275211859473355858401951938536619970200125849559442973656509656558966535245682860606247440200440268957837268080817368398934233377033098322534979827704622218758933775277409498393104153504782786054118837258645792067478678146979296987196682840107698L,0.09921574266355578822805916322191966240934627997877099674236896396456239876671713406665749958240891160383010427444654958823957387958052105660433067999944287655963512132079636156635223339464080229170491143647586925620862848607538671782148026159866401343023420141507441613828351583304372454333414709302625108573L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
@@ -515,24 +515,24 @@ copy(lb.begin(),lb.end(),b);
 
 template<> void icoeffs<16,long double>(long double* a,long double* b)
 {
-initializer_list<double> la={0.00678811485293852371294514311400453,-0.00254981560166642060794569067228638,0.00190909917813672352877801175229420,0.00130038636167335289131149058789750,-0.00109941397810467496743881733363378,0.000928810382461165787713007929583067,-0.000778400292638016970213471818843129,0.000642913073058191572480402310603516,-0.000519591764617300727073793902583398,0.000407121321020350344602879245931763,-0.000305112838734354656103913206664628,0.000213868739423092125277034461916634,0.0000683510931380568197932759579296331,-0.00155293958635445852534156874682570,-0.000134342751558613532849595377351067,-0.0000195156840005830940114810271390690,
-0.0146883557390946385758642521469263,0.0155633809846619732157109592485944,-0.00414132717596763996878861232853917,-0.00219345482567798016982323843681041,0.00178743918153624175343071841289058,-0.00147829989566992546596208722498436,0.00122248349189014866625509839220072,-0.00100078933565830982842652679008346,0.000803884822279940961686355000181995,-0.000627151628945023668023605338992174,0.000468554602991504934816921554325165,-0.000327706017463433279300993976240050,-0.000104467756262960729780516285484119,0.00281624066329179723974536344229666,0.000205533641770747263601026242237198,0.0000298119715119924600006781741765009,
-0.0130314887570029239238070779942658,0.0338360541380276180593656116868798,0.0237896279206231962024812769005616,0.00349652217282333762047567566641019,-0.00261183969113449188384120696449657,0.00206262230133837007802008817731631,-0.00165927082379871426000051462803313,0.00133445175087720853587420167870525,-0.00105910023568189585536302557340930,0.000819360728618994732230322769157078,-0.000608529289730636770195138989976567,0.000423816016176219956789937505986881,0.000134461891657840509651754065444609,-0.00550189263400219470130649699861349,-0.000265040935248507636968787866946170,-0.0000383332614651404512547242794488369,
-0.0133402027362754284067900662363016,0.0320395557786961649790658295553046,0.0453551063258562077032403018991998,0.0373989972041441830203754326368696,-0.00752716211388616522865856954022408,0.00435798231923588344843112214714441,-0.00302623842372018278324271394385074,0.00223860976756049347672080923707275,-0.00168603154019661600337826224358255,0.00125982769450141872687683280008835,-0.000913650835738432921668043535352149,0.000625934326460294421810833241733622,0.000194986345721210110687336877989096,0.0678462253281563804520834767661078,-0.000387087528108609216096437675937933,-0.0000553795862795328163738964832596964,
-0.0137527040949456381585719692773963,0.0304689428780194995010284424119904,0.0490485387199112662446557436788485,0.0814547479489546900093434676951639,0.0422891298487506345473280197575900,-0.00813602844568463378031886725894453,0.00453707368665636325875087328546242,-0.00304264485970265102036782781614618,0.00217120095070617941088324752289254,-0.00156962068732266188109902536961831,0.00111414665170165347439732078861472,-0.000752443887085733211963936880960639,-0.000230806350741480777897190755212045,0.0593603918070741529829473498398750,0.000460929012640643666572498339346957,0.0000653498025627462459581939919122352,
-0.0134381190018423601612728088869929,0.0316307469463899425607317444310215,0.0465043796221450675754501548802689,0.0712277617588559187531155126205067,0.0921151518921634601747533085146769,0.0456508537612308972166909169923050,-0.00844642793523074838713993385383526,0.00454380119920973210288173064487636,-0.00293743652117923594369543773037534,0.00201131394852731722720980289781172,-0.00138126417498597858451122992075628,0.000913338905274806437438626010877776,0.000274062032275837566195147338256161,0.0642830051583429101538245285291243,-0.000551919591017902593455885724942517,-0.0000772613934738410359920452470569326,
-0.0136877916707669093796072977755514,0.0307250535496773673535467999086984,0.0484126854179133761310679478949778,0.0771876047046273585479673839730614,0.0805272007369102555810475990728894,0.0994428614738752770173381402428347,0.0473626526137671240713491808020708,-0.00844803342103768353509484825593283,0.00437957742267448243151600841104754,-0.00271671446709042054123135194433941,0.00176767465118347190532670583864947,-0.00113163758564593222063565130415360,-0.000328859657486953683278381006855350,0.0608634670250274359810760616176631,0.000670277294016365106867027648281658,0.0000921436520028463808704116130765519,
-0.0134840860538742010450198746149325,0.0314556216268109001147002995040442,0.0469089785472300272980955261528415,0.0730303197571048941354241594350898,0.0872949741645916896358873914595194,0.0869221300997873120018658255735624,0.103173338648571931677793209860074,0.0473626526137671240713491808020708,-0.00814115395141348258395630625822473,0.00405105896059101351360844044229058,-0.00238961029633899250721651869932213,0.00145101860273950004516207947834509,0.000401708419646579077875118588490492,0.0634461232134128682468737924001618,-0.000833429576666983726105394093854658,-0.000111561964889861953717011547542351,
-0.0136534910993508884618823314750660,0.0308526999370481088652267711589327,0.0481311754322642949984184395260656,0.0761792585832743446252620951944955,0.0825669457489739518674462366173683,0.0942391440436410303770772717149853,0.0901815040283245160398166309592652,0.103171733162764996529838295457977,0.0456508537612308972166909169923050,-0.00753689219466219108009726899949692,0.00357023264943244728763535265323259,-0.00196851953057597412758638743311610,-0.000503984977065996129309825933832687,0.0614011467224921295887995150851304,0.00107487621910132482951239892085417,0.000138110704034687264617477341016161,
-0.0135108799033143011799320922360968,0.0313575683200654272093191092524009,0.0471183268286057487383900554617762,0.0736838477565867125663535444851246,0.0861478803848239309757550648847983,0.0891305065717556150224985864617174,0.0977679500872368991630661894202877,0.0901882315408778848839474883186791,0.0994377359681464282137007012435545,0.0422891298487506345473280197575900,-0.00665675354066632396859260242142458,0.00295409382069278304329079125613317,0.000657819091304446930393476085198443,0.0630669295148526692382020779769688,-0.00146928287866487383969318987772537,-0.000176474389068590732681683049387217,
-0.0136316092921565802422641827112687,0.0309317756236027363207345816191998,0.0479663433693550016210589914770610,0.0757116452440267989624189088090914,0.0833184320029998503677792067150916,0.0929877390626584104367600962281925,0.0924866954599737546659775523670688,0.0977515436512544309259410755479923,0.0869437252032259109849507118374656,0.0921054218113874343233146090554041,0.0373989972041441830203754326368696,-0.00553173970038944442584533567009958,-0.000912793809372218547643911058115780,0.0616885513013066416044273078542746,0.00222414951539018470172225190192333,0.000236026969601619019100219991707471,
-0.0135296349036562863191162942201955,0.0312904546821617165141440676077688,0.0472556577169880921728028129867975,0.0740466661773180896227734476220056,0.0855995373963959978740743695689147,0.0899635050040873503460093591141703,0.0964455266917309385424293315073437,0.0925195872688501219803829673392555,0.0941859356858218591189075637583719,0.0805687246460556153515767050519785,0.0814379117727585345112376205942748,0.0311572428138834680131190705480041,0.00140674278045478759427331892975439,0.0628342944281682934073314379887084,-0.00420088450714280999606686330035426,-0.000338333283686824424560906113468200,
-0.0135464177343650549658896080538326,0.0312312297255869071612024347826730,0.0473737221994756451413615275588859,0.0743294398052968611059339437194141,0.0852054113264462927626796448541722,0.0904978227001818534716954789844280,0.0957260945631925579711248883942250,0.0935028217356440994764432632119408,0.0927800074181317198993439212095943,0.0827908205159650273412253211022894,0.0769914492339663462105741037105497,0.0594982449644751387864927776537115,0.0155633809846619732157109592485944,0.0626421916452303693055391350722483,0.0517205830172140323737511661296623,-0.00111212603321759114997396591891728,
-0.0139145629895638718504511923414773,0.0297200191888691588371485995674345,0.0517801403483892024010294171014774,-0.00663991736447016847048675532053550,0.00400953505144565374307933446320152,-0.00288422816336006468552572977376197,0.00220571795868412616231539426488608,-0.00172022146419669039973096990320212,0.00133820251837444408737247487043966,-0.00102127769889472877941833005373477,0.000751328230970276417977417651733669,-0.000519808800401357381093296892700162,-0.000163692712837770082722149110579910,0.0311572428138834680131190705480041,0.000323598124258300232159740814325638,0.0000465948022207611067739920078135380,
-0.0136145629673421878771450105074579,0.0309923000776661059217701644317442,0.0478442967764949000419313416680693,0.0754065236980190028109460042637158,0.0837588989688822743624257167460229,0.0923608077581436902887448595580193,0.0933908534766570396068241599254363,0.0963845760513329624026988762321747,0.0892390852211234243553617458072937,0.0871900993886357609784972464796766,0.0713014722354650284202751896073291,0.0678163782617691307275446380946217,-0.00270929216870367162794369318969099,0.0618906696115907160694482035900213,0.0237896279206231962024812769005616,0.000544740948874123502083208233743262,
-0.0135957453898776305199017672551481,0.0310584108761858896116286425392592,0.0477135985928050059378121491784742,0.0751031072470227206968547784804039,0.0841711383764809187500531602692482,0.0918212992870790951604556278871934,0.0940823921544760565702179592935380,0.0955037055201722651129118334229847,0.0903728971400006286456688260550269,0.0856776736756059440620948568488138,0.0734976080466150131494393746858418,0.0638674252141213945515797098428339,0.0336765775709903670393676091694752,0.0621006168883438439009611066340916,0.0456701566631096688761845420488289,0.00678811485293852371294514311400453};
-
-initializer_list<double> lb={0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003877547703,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461123720529,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935585656443,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692531883301132,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122526857723,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938028225420036,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403531555198,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403333344607,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938027679422200,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122127735933,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692532133026079,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513866744923,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461219664102,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513836001130,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935552934972,0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003895390404};
+initializer_list<long double> la={0.00678811485293852371294514311400452588L,-0.00254981560166642060794569067228637720L,0.00190909917813672352877801175229419759L,0.00130038636167335289131149058789750298L,-0.00109941397810467496743881733363378323L,0.000928810382461165787713007929583067463L,-0.000778400292638016970213471818843128729L,0.000642913073058191572480402310603515784L,-0.000519591764617300727073793902583397649L,0.000407121321020350344602879245931762836L,-0.000305112838734354656103913206664628256L,0.000213868739423092125277034461916633672L,0.0000683510931380568197932759579296330775L,-0.00155293958635445852534156874682570205L,-0.000134342751558613532849595377351066909L,-0.0000195156840005830940114810271390689726L,
+0.0146883557390946385758642521469263358L,0.0155633809846619732157109592485944236L,-0.00414132717596763996878861232853917013L,-0.00219345482567798016982323843681040714L,0.00178743918153624175343071841289057621L,-0.00147829989566992546596208722498436429L,0.00122248349189014866625509839220072134L,-0.00100078933565830982842652679008346358L,0.000803884822279940961686355000181994737L,-0.000627151628945023668023605338992174022L,0.000468554602991504934816921554325165168L,-0.000327706017463433279300993976240049975L,-0.000104467756262960729780516285484118816L,0.00281624066329179723974536344229665972L,0.000205533641770747263601026242237197994L,0.0000298119715119924600006781741765008982L,
+0.0130314887570029239238070779942657896L,0.0338360541380276180593656116868798329L,0.0237896279206231962024812769005615566L,0.00349652217282333762047567566641018632L,-0.00261183969113449188384120696449656598L,0.00206262230133837007802008817731631198L,-0.00165927082379871426000051462803312633L,0.00133445175087720853587420167870524879L,-0.00105910023568189585536302557340930233L,0.000819360728618994732230322769157077758L,-0.000608529289730636770195138989976567143L,0.000423816016176219956789937505986880998L,0.000134461891657840509651754065444608594L,-0.00550189263400219470130649699861349118L,-0.000265040935248507636968787866946169732L,-0.0000383332614651404512547242794488369369L,
+0.0133402027362754284067900662363015805L,0.0320395557786961649790658295553046270L,0.0453551063258562077032403018991997823L,0.0373989972041441830203754326368696372L,-0.00752716211388616522865856954022408445L,0.00435798231923588344843112214714440830L,-0.00302623842372018278324271394385074477L,0.00223860976756049347672080923707275271L,-0.00168603154019661600337826224358255475L,0.00125982769450141872687683280008835440L,-0.000913650835738432921668043535352149395L,0.000625934326460294421810833241733622192L,0.000194986345721210110687336877989096180L,0.0678462253281563804520834767661077920L,-0.000387087528108609216096437675937932713L,-0.0000553795862795328163738964832596963547L,
+0.0137527040949456381585719692773962684L,0.0304689428780194995010284424119904042L,0.0490485387199112662446557436788484842L,0.0814547479489546900093434676951638519L,0.0422891298487506345473280197575899906L,-0.00813602844568463378031886725894452710L,0.00453707368665636325875087328546241826L,-0.00304264485970265102036782781614617507L,0.00217120095070617941088324752289254328L,-0.00156962068732266188109902536961830711L,0.00111414665170165347439732078861471618L,-0.000752443887085733211963936880960638770L,-0.000230806350741480777897190755212045150L,0.0593603918070741529829473498398750370L,0.000460929012640643666572498339346957200L,0.0000653498025627462459581939919122352464L,
+0.0134381190018423601612728088869928909L,0.0316307469463899425607317444310215337L,0.0465043796221450675754501548802689382L,0.0712277617588559187531155126205066842L,0.0921151518921634601747533085146769044L,0.0456508537612308972166909169923049848L,-0.00844642793523074838713993385383525650L,0.00454380119920973210288173064487635922L,-0.00293743652117923594369543773037533492L,0.00201131394852731722720980289781171979L,-0.00138126417498597858451122992075627502L,0.000913338905274806437438626010877776024L,0.000274062032275837566195147338256160892L,0.0642830051583429101538245285291243102L,-0.000551919591017902593455885724942516564L,-0.0000772613934738410359920452470569325538L,
+0.0136877916707669093796072977755514032L,0.0307250535496773673535467999086983551L,0.0484126854179133761310679478949777715L,0.0771876047046273585479673839730614030L,0.0805272007369102555810475990728893986L,0.0994428614738752770173381402428346960L,0.0473626526137671240713491808020707763L,-0.00844803342103768353509484825593282645L,0.00437957742267448243151600841104754129L,-0.00271671446709042054123135194433940862L,0.00176767465118347190532670583864947146L,-0.00113163758564593222063565130415359518L,-0.000328859657486953683278381006855350049L,0.0608634670250274359810760616176631223L,0.000670277294016365106867027648281658046L,0.0000921436520028463808704116130765518651L,
+0.0134840860538742010450198746149324999L,0.0314556216268109001147002995040441972L,0.0469089785472300272980955261528414551L,0.0730303197571048941354241594350898030L,0.0872949741645916896358873914595193897L,0.0869221300997873120018658255735624284L,0.103173338648571931677793209860074379L,0.0473626526137671240713491808020707763L,-0.00814115395141348258395630625822472630L,0.00405105896059101351360844044229058246L,-0.00238961029633899250721651869932212852L,0.00145101860273950004516207947834508774L,0.000401708419646579077875118588490492021L,0.0634461232134128682468737924001618052L,-0.000833429576666983726105394093854658322L,-0.000111561964889861953717011547542351435L,
+0.0136534910993508884618823314750659843L,0.0308526999370481088652267711589326862L,0.0481311754322642949984184395260656297L,0.0761792585832743446252620951944955495L,0.0825669457489739518674462366173682613L,0.0942391440436410303770772717149853046L,0.0901815040283245160398166309592651934L,0.103171733162764996529838295457976809L,0.0456508537612308972166909169923049848L,-0.00753689219466219108009726899949692329L,0.00357023264943244728763535265323259028L,-0.00196851953057597412758638743311610010L,-0.000503984977065996129309825933832686554L,0.0614011467224921295887995150851304340L,0.00107487621910132482951239892085417499L,0.000138110704034687264617477341016160861L,
+0.0135108799033143011799320922360968165L,0.0313575683200654272093191092524008923L,0.0471183268286057487383900554617761560L,0.0736838477565867125663535444851245583L,0.0861478803848239309757550648847982882L,0.0891305065717556150224985864617174264L,0.0977679500872368991630661894202877276L,0.0901882315408778848839474883186791343L,0.0994377359681464282137007012435544968L,0.0422891298487506345473280197575899906L,-0.00665675354066632396859260242142457737L,0.00295409382069278304329079125613317311L,0.000657819091304446930393476085198442888L,0.0630669295148526692382020779769688488L,-0.00146928287866487383969318987772537102L,-0.000176474389068590732681683049387216682L,
+0.0136316092921565802422641827112687481L,0.0309317756236027363207345816191997510L,0.0479663433693550016210589914770610459L,0.0757116452440267989624189088090914239L,0.0833184320029998503677792067150916267L,0.0929877390626584104367600962281925244L,0.0924866954599737546659775523670687999L,0.0977515436512544309259410755479922973L,0.0869437252032259109849507118374655614L,0.0921054218113874343233146090554040656L,0.0373989972041441830203754326368696372L,-0.00553173970038944442584533567009958193L,-0.000912793809372218547643911058115779910L,0.0616885513013066416044273078542745879L,0.00222414951539018470172225190192333083L,0.000236026969601619019100219991707471227L,
+0.0135296349036562863191162942201955138L,0.0312904546821617165141440676077687568L,0.0472556577169880921728028129867974749L,0.0740466661773180896227734476220056057L,0.0855995373963959978740743695689147495L,0.0899635050040873503460093591141703058L,0.0964455266917309385424293315073436767L,0.0925195872688501219803829673392554753L,0.0941859356858218591189075637583719350L,0.0805687246460556153515767050519784611L,0.0814379117727585345112376205942747779L,0.0311572428138834680131190705480041050L,0.00140674278045478759427331892975438639L,0.0628342944281682934073314379887083726L,-0.00420088450714280999606686330035426235L,-0.000338333283686824424560906113468199897L,
+0.0135464177343650549658896080538325509L,0.0312312297255869071612024347826729660L,0.0473737221994756451413615275588859152L,0.0743294398052968611059339437194141093L,0.0852054113264462927626796448541721551L,0.0904978227001818534716954789844279750L,0.0957260945631925579711248883942250161L,0.0935028217356440994764432632119408312L,0.0927800074181317198993439212095943340L,0.0827908205159650273412253211022894049L,0.0769914492339663462105741037105496816L,0.0594982449644751387864927776537115504L,0.0155633809846619732157109592485944236L,0.0626421916452303693055391350722482600L,0.0517205830172140323737511661296622833L,-0.00111212603321759114997396591891728401L,
+0.0139145629895638718504511923414772517L,0.0297200191888691588371485995674344608L,0.0517801403483892024010294171014773755L,-0.00663991736447016847048675532053550341L,0.00400953505144565374307933446320151996L,-0.00288422816336006468552572977376196531L,0.00220571795868412616231539426488607727L,-0.00172022146419669039973096990320212411L,0.00133820251837444408737247487043966392L,-0.00102127769889472877941833005373476835L,0.000751328230970276417977417651733668783L,-0.000519808800401357381093296892700162499L,-0.000163692712837770082722149110579909660L,0.0311572428138834680131190705480041050L,0.000323598124258300232159740814325638288L,0.0000465948022207611067739920078135379825L,
+0.0136145629673421878771450105074578887L,0.0309923000776661059217701644317442385L,0.0478442967764949000419313416680692829L,0.0754065236980190028109460042637158416L,0.0837588989688822743624257167460229033L,0.0923608077581436902887448595580192720L,0.0933908534766570396068241599254363038L,0.0963845760513329624026988762321746789L,0.0892390852211234243553617458072936577L,0.0871900993886357609784972464796765471L,0.0713014722354650284202751896073290882L,0.0678163782617691307275446380946217013L,-0.00270929216870367162794369318969098572L,0.0618906696115907160694482035900213291L,0.0237896279206231962024812769005615566L,0.000544740948874123502083208233743262182L,
+0.0135957453898776305199017672551481207L,0.0310584108761858896116286425392592141L,0.0477135985928050059378121491784741801L,0.0751031072470227206968547784804039027L,0.0841711383764809187500531602692482183L,0.0918212992870790951604556278871933673L,0.0940823921544760565702179592935380368L,0.0955037055201722651129118334229846813L,0.0903728971400006286456688260550269022L,0.0856776736756059440620948568488137643L,0.0734976080466150131494393746858417715L,0.0638674252141213945515797098428339121L,0.0336765775709903670393676091694752243L,0.0621006168883438439009611066340915764L,0.0456701566631096688761845420488289156L,0.00678811485293852371294514311400452588L};
+
+initializer_list<long double> lb={0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003877547703L,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461123720529L,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935585656443L,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692531883301132L,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122526857723L,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938028225420036L,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403531555198L,0.09472530522753424814269836160414155257345449419795148751875662260001144538456650315006698891676697614126690282160482116485418260877020036558451940947159222057979078063835592298080867490879871398916844560450980131471324530736467199090820189703094192060817254372017848232325943497636379982407485883403333344607L,0.09130170752246179443338183398460996969177811182732464120924757218971523247505558748020021255849263765702251237340823601796617072658837518386156439509699275247966444901838896699176304727316467884355196905923215179837443757065114440558067867598943153303747325047599574406585243190904299767503059938027679422200L,0.08457825969750126909465603951517998110581973670801414087254146784040183210496526546607766127103911402378083315145871556505351225970087428386726254792813881494456321387133675296521599239958266595762668703761285737647214482204979808287244652472065431660642450331817808298224851314543816918196374671122127735933L,0.07479799440828836604075086527373927448524553410391823340271098109368020201020899122588931920152962903703334893554907760087208044119739021846663675543538419463877819292392990563955012739273696937670870798163232266833383332792624825155101056584136757378665446813971497954241549768890585904509983692532133026079L,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513866744923L,0.03112676196932394643142191849718884713749325417645342895065175790976786944352190953060585476842586726633387042185052937420475513669653442921875217346393677695151252891643356164272210626109425362223674574637359392642649408929261050071846664767069267777862785259157274378109866792034473765563004995461219664102L,0.06231448562776693602623814109600821007244342961110133997237529521470548196073267679898459500882784218010752472361384615816493716780833799756099015137653969751905886513655973690927682420854266910249079287786708146326289827932280668878256419053552339422659133249969060555122865779864053396228762327513836001130L,0.04757925584124639240496255380112311317763175159185632907841114361481587978884097972351247866040249324450629457481047074153017406052666142352608634091968155261569803133210129419689677879310915390463774922804632121893030806903630733227532371010258715467310191934084094369686618647297362276785200433935552934972L,0.01357622970587704742589028622800905175613368778338039899530515953690205683210808662466288961451544044994871299770430337735418759871162609791418822630773399027093393816289385867376644876297089520357890246472587023348663853435641274731130778810880142928295412991382841805703061008829027988806128058003895390404L};
 
 copy(la.begin(),la.end(),a);
 copy(lb.begin(),lb.end(),b);
-- 
2.43.0


From 7701041e86c938785358b00368036500c0fd7e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 35/48] fix: starting values of the symplectic solver are not
 the extrapolation of the preceding step

---
 SymplecticRK/include/SymplecticRK.hpp     |  2 +-
 SymplecticRK/sage/compco.sage             |  9 ++--
 SymplecticRK/sage/generated_coeffs_co.hpp | 60 +++++++++++------------
 3 files changed, 36 insertions(+), 35 deletions(-)

diff --git a/SymplecticRK/include/SymplecticRK.hpp b/SymplecticRK/include/SymplecticRK.hpp
index 454d95e..3cfe44b 100644
--- a/SymplecticRK/include/SymplecticRK.hpp
+++ b/SymplecticRK/include/SymplecticRK.hpp
@@ -60,7 +60,7 @@ public:
 	Ext.change_h(h);
       }
     if(do_extrap)
-      Ext(Y1,Y,u);
+      Ext(Y1,Y,a);//a: values at the beginning of the preceding step.
     else
       {
 	// this vectorizes with gcc
diff --git a/SymplecticRK/sage/compco.sage b/SymplecticRK/sage/compco.sage
index 96a84bc..51a011c 100644
--- a/SymplecticRK/sage/compco.sage
+++ b/SymplecticRK/sage/compco.sage
@@ -20,8 +20,9 @@ def ccoeffs(s,Rcoeffs,Rpivot):
     for k in range(0,s):
         for i in range(0,s):
             W[k,i]=((1+theRoots[i])^(k+1))/(k+1)
+    # row k of Vt and Wt: the condition for the monomial of degree k.
     Vt=V.transpose()
-    Wt=W.transpose()
+    Wt=W
     # computing in algebraic numbers is too slow.
     # first, convert the V and W ti Rpivot, which is supposed to be a
     # set of very precise floats:
@@ -35,7 +36,7 @@ def ccoeffs(s,Rcoeffs,Rpivot):
 # "main" program starts here.
 ######################################################################
 
-rngs=[(RDF,"double"),(RealField(112),"long double")]
+rngs=[(RealField(53),"double",""),(RealField(112),"long double","L")]
 Rpivot=RealField(1024)      
 cc="copy(lc.begin(),lc.end(),c);\n"
 
@@ -48,9 +49,9 @@ for rng in rngs:
         print "\n",nm,i
         fout.write(a)
         ll=ccoeffs(i,Rout,Rpivot).list()
-        lc="initializer_list<double> lc={"
+        lc="initializer_list<"+nm+"> lc={"
         for l in ll:
-            lc+=str(l)+","
+            lc+=l.str(truncate=False)+rng[2]+","
         lc=lc[:-1]+"};\n"
         fout.write(lc)
         fout.write(cc+"\n}\n")
diff --git a/SymplecticRK/sage/generated_coeffs_co.hpp b/SymplecticRK/sage/generated_coeffs_co.hpp
index 2685943..686f931 100644
--- a/SymplecticRK/sage/generated_coeffs_co.hpp
+++ b/SymplecticRK/sage/generated_coeffs_co.hpp
@@ -1,180 +1,180 @@
 template<> void extrapcoeffs<2,double>(double* c)
 {
-initializer_list<double> lc={-1.44337567297,2.65470053838,-1.76853598869,2.50218995347};
+initializer_list<double> lc={0.38397459621556135,0.82735026918962576,-0.32735026918962576,2.1160254037844386};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<3,double>(double* c)
 {
-initializer_list<double> lc={1.0,-3.32379000772,3.4364916731,1.64959666924,-4.78568501159,3.75514084041,2.94601792214,-7.74471701777,5.257912926};
+initializer_list<double> lc={0.31350832689629156,0.32379000772445013,0.47540333075851662,0.76587708172407289,-1.0000000000000000,1.7341229182759271,2.0245966692414834,-4.3237900077244501,4.1864916731037084};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<4,double>(double* c)
 {
-initializer_list<double> lc={-0.135307244905,1.36140068465,-3.97544968198,3.81878808643,-0.537612925376,3.00404135671,-6.49890590866,4.60431971203,-1.63717031842,6.84757575689,-11.9249796864,7.12227177835,-4.10029878722,14.775159637,-22.3365646865,11.9887073781};
+initializer_list<double> lc={0.15989279407363723,0.37467451466384673,0.23268866705493049,0.30217586841055926,-0.098136952123718725,1.2174199122299011,-1.1260403811348734,1.3367668992362628,-1.5556502648870111,5.7121772947174384,-7.4114760071012121,4.9249394990632129,-4.3883127819931243,14.148795719875282,-18.364078082882805,10.534163300797674};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<5,double>(double* c)
 {
-initializer_list<double> lc={-12.408089245,33.2494963344,-38.2237939377,-5.02873063466,23.45802756,-22.9802116869,61.1304952923,-69.7821321607,-11.6080506014,43.7879095114,-42.1725807055,111.473716235,-126.392162977,-22.5124628922,79.9859687145,-77.0853906901,202.751332845,-228.757413486,-42.1641229899,145.55590967,-140.652179469,368.574355006,-414.483182984,-78.0638446566,264.876374636};
+initializer_list<double> lc={0.12498488732576488,0.21658077449536788,0.32888588369978518,0.20744619842245470,0.16901233308729536,0.27364333488551201,-0.28734111168816228,1.2456605460746774,1.0277335938790646,-1.0289310182039334,1.5623706782549472,-4.5130911923738759,8.3600000000000000,5.0057166388272556,-8.9149961247083269,13.890581357466428,-43.576026004688035,69.573194682360493,31.032923146176478,-68.967583258346032,6.3835073571560199,-19.929096537684949,32.958925554531711,16.086465202864140,-33.730566921814080};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<6,double>(double* c)
 {
-initializer_list<double> lc={1.49639906744,-4.95180935208,8.16737188579,-7.44012682161,1.31773061431,2.44419984905,3.46885805125,-10.9780747982,16.5595161236,-13.6754887605,2.9031131121,2.25641156057,7.11511835867,-21.6456349346,30.2555924942,-22.3416240113,3.47355841317,3.51124117949,13.5351598873,-39.6617231803,51.4704918804,-33.0427203787,0.857972597258,7.12633339479,24.2342876135,-68.298636147,81.5084716482,-42.1205642015,-11.0450057011,15.9575705137,40.9593172786,-110.308373491,117.679699401,-37.7198023313,-46.7864069848,36.3789798789};
+initializer_list<double> lc={0.082248301934203748,0.19230990482129860,0.21055438047638610,0.27131569885806790,0.12663339487681296,0.15070356193165467,-0.0067199594674144669,0.49857960421399864,-0.36970621785903784,1.1278642697880841,-0.88224651913484966,0.80162412922608697,-1.0315397794452812,3.9562130088098408,-6.6354010262464402,9.5881647313138071,-9.2215777769263858,4.7248312494528610,-6.8773772579557765,23.335590306866353,-40.485838856910188,52.385159293427172,-47.155464553257847,20.417240660871885,-23.600725723099556,78.083696159872866,-133.74887763279710,165.53365056110255,-141.79647094865355,57.359332276807925,-45.954479077073290,150.71499898344432,-255.68109330351501,310.12792113489154,-259.20699775597061,101.96588477532462};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<7,double>(double* c)
 {
-initializer_list<double> lc={-1.91120187841,6.65652759191,-12.7292168649,18.1176202649,-17.4616733791,7.96098671628,0.392403593092,-5.19865835727,17.7863259876,-32.5093393348,42.6183498714,-37.9642372565,18.1682283162,-2.37489943226,-12.6924582123,42.5222463482,-74.518286234,91.7241851084,-76.7869482599,36.4779223931,-6.36722877294,-28.8016213917,94.5845579493,-159.757941566,186.855037157,-148.584647226,69.0276582948,-13.0466093395,-61.8496467489,199.450073684,-326.127694831,365.115860088,-277.225297295,124.64287708,-23.7793975572,-127.150589514,403.254742675,-640.329586138,688.994905272,-500.006854823,214.902196978,-39.4710270061,-252.15521835,787.350624132,-1216.36742045,1259.72396109,-871.096011391,351.30665463,-58.5922594642};
+initializer_list<double> lc={0.066694157067082771,0.13302610428144919,0.20432104904757126,0.18758332570863265,0.22177142974687863,0.097814252334998404,0.11423572564200783,0.12225558298345897,-0.059644023076393396,0.57557668748088992,-0.38276779804533523,0.97962350155975710,-0.74279045787675478,0.63698091417468019,0.90244276945669078,-2.7309053531402090,5.5856655958076020,-7.6973582050900369,9.8049262036592652,-8.8625743442493378,4.2948807578673273,6.9110480016713630,-23.051500805521309,42.748457829116014,-59.600816326530612,67.965012518685510,-56.608649567489848,23.136448350068882,32.624606217765641,-109.16023685370263,197.18401599683164,-268.43749294448746,290.83086696962501,-228.13377703228373,86.794940221940231,93.392066316227961,-311.25118522995041,554.81273505639306,-741.88344886547933,781.14992194974000,-592.09789117927699,217.74856754514541,165.99161408822487,-551.67930445669671,976.90034704024525,-1293.8221827025594,1343.2897736702023,-1001.4808184896293,362.77512480638430};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<8,double>(double* c)
 {
-initializer_list<double> lc={1.89420696335,-6.74595407993,13.6174313879,-22.132553149,30.1354696018,-30.0535602846,16.7813564647,-2.47654183242,5.53044980217,-19.7123802551,39.4552306842,-61.8202807478,77.9162549778,-71.9170865716,40.5605506614,-9.49268636734,15.363658868,-54.123002333,105.511418086,-157.829742275,186.583239525,-162.508358369,90.6500150975,-23.2936433612,40.031262635,-138.963091718,263.310898325,-377.485157226,423.961919654,-353.32079978,194.472041372,-51.736618989,98.3082610019,-336.410045088,621.002616501,-858.38310495,925.006181743,-744.496924144,404.381959445,-109.188285178,229.68525606,-775.805079808,1399.49183211,-1875.32610048,1953.09767699,-1527.59865051,819.073480824,-222.430881405,515.019542668,-1719.44701492,3039.71234666,-3966.04428446,4012.90466143,-3062.61683487,1621.13250704,-440.496988745,1116.20019082,-3688.02824601,6404.57927459,-8163.93419172,8055.10446748,-6014.38469251,3141.79531687,-851.185828495};
+initializer_list<double> lc={0.049420761717515745,0.11536728095184687,0.14864806174188562,0.19442625890104008,0.16254055033311831,0.18239474534522117,0.077573108921079214,0.089484303839524874,0.013300460229500221,0.24109990595476150,-0.095598074645919057,0.57583324590658952,-0.36403093935343507,0.84000848979239384,-0.62450447268944549,0.51555814609874117,-0.57182483180564688,2.2609341397476293,-3.9523457891762485,6.4150624999720130,-7.9942252639913441,9.4498826700650308,-8.2028011287996550,3.8325514990300569,-6.2055720602237183,21.538947816057256,-40.121065688417256,59.549075398466006,-74.069493384193203,78.301365464639972,-61.990567285596838,24.405592418019957,-38.672519866404899,131.79608986334273,-243.92271853085914,351.70382986341668,-423.99988655232322,423.73878470246327,-313.91115585585189,114.85929369746430,-151.10728513421231,511.38235043712464,-937.66506887624241,1328.4868191705625,-1563.7805488455626,1510.3415699295882,-1075.2445138737870,379.34944339748711,-381.18901196363382,1284.9447920798569,-2340.4098271705933,3279.6873357647550,-3802.1577137522581,3598.7122737089889,-2504.7583779575766,867.06886252916785,-633.32892218405312,2130.5287284650719,-3866.4963958875529,5387.1472020125380,-6195.9680529766390,5805.0686254035227,-3996.0004842079884,1371.0294443033496};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<9,double>(double* c)
 {
-initializer_list<double> lc={-1122.37853338,3472.68754318,-5504.45857588,6520.15683125,-6431.97481547,-3953.50621673,2206.96334712,-660.40380391,5473.9301437,-1914.7778661,5932.53450524,-9428.91945106,11216.0748506,-11125.8798997,-6912.00810877,3871.70671922,-1162.48089934,9524.26619653,-3274.83030101,10163.8796249,-16207.6950809,19376.3029153,-19340.6549967,-12151.0136569,6829.03899734,-2055.08098275,16660.4029888,-5619.52492914,17477.6969539,-27980.8781112,33643.742089,-33812.4379163,-21491.7442429,12118.7108868,-3654.13234968,29318.8339236,-9683.02778742,30191.0984813,-48555.8620493,58758.7621201,-59488.5400632,-38262.862585,21645.719529,-6538.6887877,51933.6175771,-16768.2775095,52433.0530607,-84762.943622,103294.652424,-105386.284586,-68592.1313721,38924.8891361,-11778.2331295,92635.4588314,-29207.2223989,91624.2219839,-148960.586248,182886.590426,-188071.3573,-123838.09109,70484.0237189,-21360.8747191,166443.455185,-51210.2317156,161218.510225,-263703.274243,326284.408454,-338210.338807,-225193.491246,128522.371261,-39004.8633662,301297.051273,-90447.2628019,285824.206502,-470505.856564,586777.442858,-612990.305675,-412443.878277,235971.359585,-71703.7225379,549518.144994};
+initializer_list<double> lc={0.041406872596194042,0.087629803432760769,0.13559904583663698,0.14773769646947344,0.17720820985437403,0.15162961206938475,0.062904792100933896,0.071945703428829159,0.13985814445759989,0.065746922536668112,0.0027217720772848388,0.30125077627377321,-0.11295169812588143,0.54262328976664409,0.71947415177427260,-0.52781051483400974,0.42438659288140013,-0.33345684601346971,0.50417600664367267,-1.5180302491259905,3.2344449213794993,-4.6386110599250525,6.6782007142788750,8.8225026749596546,-7.4471152610597984,3.3925448518447145,-7.8347983153458700,5.5111912101522109,-18.776192679379549,36.108578875891876,-54.310071300569647,71.799357635877237,83.813219192047934,-64.067965875484572,24.582616247664111,-83.322860017901503,41.836613575611753,-143.25275521542197,270.54058510190528,-402.05250340177990,515.05931972789116,546.01161579402602,-388.89383869847282,138.57097492886608,-576.32001181262559,703.55043252262717,-2393.5278515442909,4447.5332799930049,-6458.4710434933873,7985.0786589509543,7584.5848492545451,-5041.2368829696734,1694.4580213340847,-8520.1627783315142,1606.2424140672060,-5452.3602599026777,10087.465347090371,-14552.378419892259,17825.462096955924,16483.997279958167,-10792.163318819480,3586.0086322657408,-18790.355756169329,2529.8852011985256,-8577.1395545742620,15831.722510594372,-22758.694184309579,27740.824626472742,25302.134165256742,-16441.317312513723,5432.6906366489800,-29058.122008654044,209.73132510145585,-715.79425059864549,1338.8747535956389,-1963.6613188623969,2463.3044367718499,2443.8865977237461,-1667.1363581897124,572.09693024718534,-2679.6399890774193};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<10,double>(double* c)
 {
-initializer_list<double> lc={0.308663498962,-1.29519460574,3.36383134545,-7.46704170044,15.1437435757,-28.1149391888,44.7273120244,-51.5468873805,34.8175242682,-8.92396510146,-1.52106932316,4.14309699845,-3.67385821193,-5.25448732422,28.95742032,-69.7158024027,113.808925825,-125.650392502,84.3362434534,-24.9169449878,-5.26633494681,14.0368589575,-11.5048220161,-19.1837058143,92.6464892649,-203.805901382,304.096737469,-313.084697416,204.840965826,-62.4290389159,-8.46011269871,16.4702023862,13.9265076842,-123.39719457,335.075694205,-610.239318307,814.289832541,-782.039663126,497.22285009,-152.585493915,2.85784472551,-43.875369634,200.987582636,-554.782865358,1120.85134677,-1755.45047972,2129.77846411,-1928.32159817,1194.24411089,-366.07564461,77.7416181475,-350.00229101,940.823596306,-1977.78018208,3401.01353213,-4787.03644976,5394.40129008,-4658.8833649,2821.43834788,-861.535950371,360.492913314,-1423.928114,3299.03903313,-6112.1016414,9519.30549545,-12416.5342876,13224.3365873,-11003.2836784,6540.9944556,-1988.16433762,1235.84509505,-4630.7691585,9979.27495265,-17168.6773711,25013.4235245,-30849.4547948,31456.6605105,-25411.2563894,14876.2787364,-4501.18644685,3665.76412838,-13337.6168579,27506.1866443,-45044.5026383,62547.2188502,-73924.928646,72845.6222724,-57467.2199843,33218.1637381,-10008.5626471,9947.44870156,-35502.9301051,71045.7171228,-112274.005155,150333.185554,-171852.487297,164767.956597,-127498.319899,72920.0349228,-21886.4866025};
+initializer_list<double> lc={0.032817567447025521,0.076539596479693655,0.10597895656517722,0.14031060185311428,0.13964101921507218,0.15867423364336609,0.12049822638669330,0.12753244536561744,0.051974935297082090,0.059079153488572374,0.015890657729124933,0.13566306689210785,-0.0096522525096870363,0.32302783091106940,-0.11828226664088223,0.49744561063076659,-0.30033545602113866,0.61862723861950721,-0.44955029976738651,0.35463418681202621,-0.31462457106901134,1.2855212803456193,-2.2408757770042441,3.8024794962963999,-4.9260152244315229,6.5949615746238165,-7.4359338002909240,8.0969129213083560,-6.6983321988558161,2.9962015149278145,-4.6269308398862058,16.218584326782425,-30.956578560592713,47.922343177708527,-64.490318905564787,79.472051154710964,-88.075544864841411,85.579538563819433,-63.785720880146835,24.025879130945978,-42.184394810798413,145.69016598117718,-277.77020808914484,421.87886414786639,-558.84414644496345,665.94015204065714,-708.90102324883848,646.94464711645286,-447.95352673967123,156.62503287777203,-260.43445157509149,895.09226216493461,-1695.6600263497060,2544.9094849786798,-3317.3404806025422,3860.2352264649706,-3982.1674255447834,3488.4882160295975,-2308.3709698711705,776.82260147460184,-1107.9322997556008,3795.7772898826063,-7150.6660548829509,10636.597747641433,-13691.799336858318,15659.354343575705,-15797.623164040777,13471.002425610036,-8667.3878348524030,2854.3935813773348,-3296.1275431267200,11266.777893179395,-21136.127046346280,31237.002148374086,-39846.819346009558,45026.214444899339,-44741.906227577689,37490.890346579085,-23706.192674608435,7708.1277094209263,-6947.9760833095572,23713.304385513001,-44360.317458303016,65279.157759284032,-82778.501488496250,92814.068532695541,-91352.588011972387,75730.789674068004,-47392.454047369612,15296.449269573588,-10481.505655156458,35743.584675043401,-66763.116489920015,98019.245093450277,-123900.23004187006,138350.39252133970,-135494.46089192564,111705.65494804135,-69540.023042514552,22362.445836776254};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<11,double>(double* c)
 {
-initializer_list<double> lc={1.28345332953,-4.27998592189,7.59540310133,-9.98511988159,9.64315306443,-3.73259896712,-11.3877379351,35.3405245192,-51.382487296,38.8781588539,-10.9618771957,9.46855400714,-32.0195893685,58.5099602936,-81.5126344765,90.8904633697,-73.4833239415,20.1397550094,55.0922277423,-102.260776728,81.865351046,-26.1790420342,34.3884653395,-115.61589478,208.794768527,-285.272151779,309.624966821,-245.293015237,82.7160656156,117.368627412,-229.778103817,184.536351626,-61.1257417957,98.1642087045,-326.845019292,578.987007651,-765.920285624,789.287057295,-570.306499383,127.375115413,350.218080115,-578.398965785,446.040533667,-148.340168051,242.387267698,-797.053187627,1377.14428637,-1744.67226072,1664.14867572,-999.371664152,-109.975135997,1158.48291481,-1544.72402365,1123.75508259,-369.910829783,534.715125331,-1730.14242785,2891.43487108,-3443.3957796,2883.59356477,-1043.71434623,-1559.52460031,3697.85201817,-4167.0925246,2865.78391916,-929.331967018,1059.99977058,-3352.02194888,5329.35525135,-5715.85605147,3548.72722732,1197.39105197,-6993.6782225,11043.3416496,-11054.3183018,7255.0991605,-2317.88548182,1852.21199941,-5637.0019716,8173.34866549,-6841.49639921,12.1626382977,11586.7893354,-23934.1825885,30966.1760813,-28538.9966541,18053.7852301,-5692.66002711,2648.83579595,-7388.8148794,8206.57220819,-135.922725682,-19094.4939848,46264.469826,-71561.7634814,82345.1278496,-71555.6590942,43991.0849983,-13719.3140296,2170.0357791,-3628.4258944,-5845.91594461,34807.8356075,-85141.0796169,146658.654494,-196651.578541,209626.444936,-174478.586821,104902.908768,-32420.1813326,-3791.10948405,21198.8863786,-66862.4933941,153553.395661,-278611.852098,414080.236041,-509452.248331,514808.611701,-414803.483335,245049.163905,-75169.0046371};
+initializer_list<double> lc={0.028195580601321418,0.061525136403557883,0.095630918197437340,0.11263857649331633,0.13705807419362489,0.12888437334666639,0.14116064171154833,0.10431323428209652,0.10848053533771719,0.043631311159395690,0.049367289200289527,0.040295672951435632,0.019227307533418494,0.17847870339283262,-0.018581625667993306,0.32296069200223276,-0.11680668458987692,0.45028175364306378,-0.26864764548813862,0.53509448683224597,-0.38614057668549138,0.30030661619222331,0.29182881049691127,-0.85753262485355847,1.8862149803884446,-2.6987701255245737,4.0660359437708203,-4.9539159887494299,6.3199909849187572,-6.9305931243784277,7.3655613658361709,-6.0025091792409081,2.6486129545487689,3.9394053118052612,-13.527842930657564,26.400953206804862,-40.760428852663701,56.353750736526282,-70.867163053200311,83.342251956067421,-89.415522275088235,84.720193881012784,-61.967327597575979,23.022181552365775,40.759014922661874,-140.97682924624652,271.34181511695064,-417.02487405097328,565.12524680810703,-697.65009483103975,792.02874602830136,-813.86367511929620,722.68406006080150,-490.00750512877177,168.94932386152894,298.55197149998527,-1030.4490317820531,1970.4287631639013,-3002.3846397866970,4013.0965086393079,-4864.2402316298420,5380.8005454863498,-5345.0177800863275,4546.3740634747751,-2941.4380434864868,975.77787450708720,1551.0051664778740,-5339.9999175776332,10160.369624102049,-15365.983067753442,20317.280368567359,-24267.557050521233,26326.603113963792,-25517.195508046746,21085.843419872973,-13247.181806873167,4298.4504293661505,5773.4517230011984,-19836.821109223823,37596.912104281848,-56525.052447606809,74120.733538017710,-87557.174567641609,93645.499154063221,-89209.678214603948,72299.279430691709,-44576.721779434683,14271.331716519789,15573.175525844130,-53425.005900948191,100966.31564990164,-151139.87307219339,196997.37240442666,-230873.99363291561,244485.97741948097,-230176.60031087958,184168.86981807020,-112197.24176209133,35622.868937307283,30743.986604713939,-105359.77610826945,198731.84668814359,-296625.04904639578,385082.42093865701,-448966.65588803203,472394.02089845707,-441431.30234628729,350394.20744442635,-211910.59689726026,66948.841243146730,44757.330757205538,-153296.26029866895,288846.55437784078,-430449.87569713721,557611.54047500818,-648311.67958558954,679818.04722479637,-632767.16178659216,500196.13214315178,-301376.88245132181,94974.243955636092};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<12,double>(double* c)
 {
-initializer_list<double> lc={15089.6077412,-53536.9962449,104840.018463,-159648.115779,206416.266093,240636.81228,-221694.604513,181871.372682,-128190.789961,70468.6334161,-20985.8179728,-235265.376985,28230.9710189,-98874.2923647,190492.731233,-285935.71315,365799.749635,421386.052189,-386996.777548,316827.27553,-223020.143639,122501.067276,-36468.3105543,-413942.100365,52292.9454372,-181404.117583,345209.211856,-512414.881608,650048.796101,741649.553947,-679389.050542,555284.598528,-390466.901886,214343.197882,-63790.395958,-731362.613537,96279.0595494,-331595.471002,625079.376283,-919779.734335,1159066.80911,1312188.60073,-1199583.55742,979182.34372,-687993.472264,377490.508124,-112318.934465,-1298015.26868,176667.47621,-605131.078376,1132403.17652,-1654919.02823,2074432.1324,2333997.90247,-2130302.02563,1737185.63371,-1219868.36032,669099.863655,-199053.374229,-2314512.10878,323688.526141,-1104048.61075,2054350.61393,-2986179.58277,3727484.02299,4173476.01998,-3804634.83665,3100351.73784,-2176245.98501,1193428.56128,-355005.196822,-4146665.09404,592937.913578,-2015837.79872,3734425.79298,-5405488.49317,6725129.6863,7501421.54126,-6832524.60415,5565197.04923,-3905565.35904,2141568.21151,-637023.57063,-7464240.21682,1086911.58953,-3685923.82924,6804923.17256,-9817611.77562,12183030.3656,13550953.2815,-12335656.7159,10045251.031,-7049193.24159,3865373.54895,-1149803.68732,-13498253.6049,1995031.30797,-6752372.60049,12433068.3466,-17891881.8747,22159120.9757,24597734.0808,-22385217.2645,18228364.7034,-12792755.6566,7015530.26226,-2087000.277,-24519621.8827,3668208.07126,-12396829.5393,22779583.7138,-32717660.7046,40461952.3742,44857067.5948,-40820536.7204,33245555.9164,-23336967.003,12800339.6087,-3808310.10819,-44732403.0942,6758064.27148,-22813101.8672,41855173.5986,-60029154.8365,74162325.3858,82165194.2035,-74785167.0328,60927318.2191,-42782718.0432,23472462.9113,-6984498.74558,-81945897.9639,12477486.577,-42084255.4702,77124300.3397,-110500370.395,136428323.356,151140394.156,-137618632.141,112171290.232,-78800536.8712,43247542.5636,-12871189.3215,-150714352.933};
+initializer_list<double> lc={0.023328156695618878,0.054378374386303780,0.078253518993383871,0.10442652008979342,0.11268735426965339,0.11760945572097752,0.12544934051292522,0.090855085759087879,0.093242206672144006,0.037127215363941430,0.041860272304492568,0.13000218210831841,0.014467769206243955,0.085367413105974383,0.017498420576951891,0.20079152584528143,-0.024113056292279353,-0.11179245631890803,0.40547500665395321,-0.23988538303130231,0.46594677450992138,-0.33446128793694124,0.25729147659534760,0.31135516890051966,-0.17906149073161188,0.76080703390994804,-1.3013595479272452,2.2790244647563722,-2.9451184060834283,-4.8261469487955542,5.9510009044401324,-6.3946043374552753,6.6734138962139977,-5.3762898801888066,2.3476496441676480,4.1257333305966707,-3.2346777600811690,11.397323929913389,-21.966182020053449,34.583119557936651,-47.809272032275131,-74.142022242627175,84.360808127665149,-88.374148918948612,82.161104000458678,-59.235479449785148,21.777131273464099,61.688636557189411,-38.039064533456283,132.21699519137870,-255.47208460721246,396.61977822818861,-544.57535580401236,-810.28245812183050,888.77741396675668,-889.76872291346923,773.92569953678811,-516.40912800811390,176.16613174348561,688.15687957199794,-1985.4301190922360,6861.3986663917492,-13149.168914306760,20123.197535759860,-27102.361712758510,-37822.833993708955,39505.521930577979,-37169.806427023560,29994.771624705687,-18507.269789564500,5938.7241752423229,33314.819640481177,-8955.6378102206770,30891.772100638642,-58997.630901863818,89815.092464545638,-120080.36331985849,-163844.56861331150,168434.01626269153,-155503.74192538052,122904.11024689978,-74355.171186949405,23532.126675240179,146161.67992331815,-29855.934644729500,102834.16023419844,-195860.85546383065,296945.14052352217,-394755.94226931422,-529546.50966172056,538099.28218607065,-490172.84823060787,381941.29287087520,-228084.42744286625,71549.919698103117,476908.51585927663,-74232.873023309087,255403.27686651182,-485464.96189939566,733781.45445932585,-971423.29701010808,-1287287.8850629139,1297474.7620805541,-1171078.7265075211,903838.70512224340,-535173.07783741374,166934.89504488936,1167229.6127184741,-138729.64984624559,476954.43240178483,-905346.05794909745,1365638.6968208560,-1802880.0787633678,-2369912.4531412260,2376087.9053058298,-2132025.0877270679,1635648.4714419476,-963392.42285615563,299468.21581293538,2158489.9805584349,-196015.22709371491,673629.20534577684,-1277715.8198973430,1925182.1130575464,-2537730.7197678353,-3321434.6098495044,3320732.9101267688,-2970384.3950520617,2271672.5628324281,-1334354.5058664788,414041.32018392145,3032379.1567608137,-322.35571991124832,1116.6143547870953,-2148.6511704904500,3309.5311473010843,-4497.7596772387871,-6460.1243307475041,6892.3229622133872,-6657.5351506596017,5538.0071610424364,-3522.1764379805783,1155.8158331396385,5597.7484118402720};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<13,double>(double* c)
 {
-initializer_list<double> lc={6.18176128297,-21.4088030062,41.2032239688,-63.4925321578,86.3571897811,-107.37632351,122.748985605,-125.821025934,106.229079053,-57.7526517733,2.80796017296,18.1708135972,-6.83976860739,29.3715050623,-102.45868763,199.730079683,-313.287981524,435.283609025,-553.316659533,644.617014805,-671.512946001,592.414474957,-405.397306015,192.298188004,-57.7355397268,10.5021886374,109.796819223,-383.654439846,749.646798473,-1177.90902594,1634.98888026,-2065.08918374,2373.27152366,-2428.28240822,2125.01151597,-1509.14992576,827.974187706,-338.771145183,82.5077078987,364.401954969,-1271.80909826,2478.21640893,-3872.7161127,5323.59355928,-6621.91504359,7452.81646658,-7451.89638293,6417.05041467,-4587.76010388,2635.93729272,-1166.60756702,300.946214002,1110.79189233,-3866.30184334,7493.29352089,-11606.4586261,15745.0210292,-19234.1396905,21174.1547851,-20690.3178434,17506.3965183,-12473.8653003,7292.45935786,-3328.68586832,877.860102844,3161.02032178,-10964.3493825,21110.1464575,-32364.1647395,43278.2882637,-51901.9534222,55922.2707454,-53464.3405854,44445.0167831,-31415.5750375,18452.4160238,-8528.39532119,2269.79462605,8490.0076635,-29336.8868751,56085.2395004,-85072.1387735,112128.402232,-132074.219978,139424.996684,-130566.051911,106640.585243,-74553.3496964,43673.3110434,-20238.3420851,5398.59790906,21701.0715115,-74694.6450483,141774.993514,-212768.931787,276492.598491,-320079.347135,331357.217692,-304161.301075,243983.247241,-168255.31019,97756.3411377,-45106.1141708,12000.312948,53134.4532336,-182171.241919,343302.081579,-509820.80728,653408.89606,-743800.778543,755513.715009,-679849.17708,535020.381473,-362827.156967,207941.321012,-94917.9017131,25066.3344108,125260.221645,-427775.383558,800421.970058,-1176374.00052,1487289.40127,-1665182.927,1659589.03838,-1463019.3603,1127277.9417,-748623.139641,420421.710975,-188363.541185,49078.1763737,285435.621257,-970970.137533,1803904.90932,-2623774.17869,3272253.9117,-3602686.1396,3520781.83805,-3035720.68995,2282330.82018,-1475068.60792,803962.169861,-349385.312719,88935.8951921,630588.341479,-2136555.49975,3940754.33118,-5671472.01365,6974776.15211,-7545791.03787,7220033.32146,-6070708.01759,4428377.46844,-2757640.92178,1435328.02815,-591985.665722,144295.605122,1353394.5182,-4566738.44274,8360156.71941,-11899632.0457,14418794.5516,-15305946.4351,14300015.9164,-11665769.7633,8178866.87936,-4821525.68873,2321358.07934,-863429.147653,190454.944197};
+initializer_list<double> lc={0.020433145643952309,0.045391411019605065,0.070752039829516648,0.086979308324139465,0.10689585756553782,0.10915025050132424,0.12138343237294281,0.10678808383404475,0.11167510889256078,0.079648150122843958,0.080907918011481709,0.031964142760226231,0.035939623762530142,0.027059735461252183,0.022206916067429530,0.11623455358370199,0.014773099420698318,0.20952519284911704,-0.027128735313694389,0.29420190040329114,-0.10514215877974579,0.36468120600653802,-0.21441417331947947,0.40849153532338242,-0.29201033323916432,0.22272206192518434,0.17766242518513402,-0.50387419290425362,1.1451680438166969,-1.6109041003706678,2.5036773192119173,-3.0416014653060330,4.0577625126232035,-4.6121474634792279,5.5462785207391229,-5.8687188105064553,6.0394081018485351,-4.8219210037945401,2.0884210675699132,2.7262990790761743,-9.3887480000138383,18.456138242575728,-28.797143368434989,40.529534496934042,-52.371260884698926,64.519426281737694,-75.091232520650558,83.383461266081250,-85.781138903983016,78.590511864559468,-56.025423269430834,20.428401046527635,34.808967639235795,-120.98926825223100,235.00102158083103,-366.69809930324115,508.77855574088689,-651.89363479719821,785.97390376599632,-894.78082846587205,956.74227743450210,-938.95811256094854,803.73634087937289,-529.62634245054256,179.18097241369027,333.02792308437389,-1156.1414475681405,2235.5422096045414,-3469.1730168421493,4770.3032847556961,-6042.1099443048095,7166.1922466258048,-7984.8208463008516,8292.7175996055442,-7840.7132005912182,6410.5119085408593,-4023.0521072432317,1309.1001614756035,2372.6595762250932,-8222.1337837898534,15841.712429931736,-24452.902677752414,33368.459960561325,-41833.243210959671,48941.660594151104,-53573.139425992736,54393.607509635927,-50026.643263435078,39634.842786682136,-24115.388138252598,7672.0076429950293,12634.341147977197,-43711.794811986403,83964.944058754566,-129013.56923292737,174927.52521768636,-217437.19873305028,251577.95181624004,-271546.66791242799,270991.70176459553,-244254.88696392504,189344.95288788900,-112888.60661152382,35412.922601856183,50624.162770892037,-174911.51004635063,335145.15347232205,-513024.23690001115,691998.47433973661,-854300.79984489770,979853.37707888890,-1046266.3543702073,1030739.3306909719,-915555.43389203497,699014.83843428204,-411103.52473527748,127788.24724806120,153812.73391782010,-530870.48360598046,1015189.6154220702,-1549424.1980693097,2081522.5865828607,-2556217.0973566006,2912514.1387175961,-3084914.2726459134,3010550.9012900868,-2646313.2393923040,1999129.3785767203,-1164878.1712234909,359899.92896111475,356980.47600126425,-1231100.9769139612,2350792.2146262610,-3580023.7772989106,4795134.3224958765,-5865997.5330819474,6651592.6712316568,-7004743.8063465151,6790518.2565254315,-5925873.7359020056,4444484.8888240842,-2573775.5283088762,792014.42893668730,636790.31686066234,-2194876.1701386994,4186954.9350874956,-6366887.4145423120,8510799.3390423678,-10384624.572066936,11737862.118939989,-12314148.950637654,11885865.643938505,-10324154.301775731,7707827.9275740037,-4446204.7708006836,1364797.8573181919,877114.79375128868,-3022322.5072404997,5762252.9672613897,-8755276.1884392628,11690627.819230227,-14244575.341933395,16073051.968762822,-16827728.740410112,16204836.892225705,-14040836.139761142,10457334.958826508,-6019951.7289020370,1845473.2387200352};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<14,double>(double* c)
 {
-initializer_list<double> lc={-10.2910491202,35.664993216,-68.7690593391,106.433249186,-146.143486192,185.39642504,-221.090120197,248.301799929,-257.919153498,234.545421863,-165.851313177,75.7307225154,-17.8050930492,2.80352091872,-37.8146707035,132.338523122,-259.733684784,412.461025995,-585.586404894,772.931726436,-961.633253189,1122.4622396,-1199.57644092,1121.31552041,-861.4533029,512.670772996,-226.530722086,58.6555525289,-127.533527568,449.176493725,-891.308807027,1436.18387126,-2072.3812891,2776.08252332,-3485.35745561,4067.17411304,-4307.61478053,3993.98336655,-3110.01615948,1957.86729941,-943.914202008,257.998792589,-419.31281058,1480.64665275,-2949.65192304,4771.86604845,-6900.28250086,9223.2510543,-11480.005349,13188.4334419,-13696.0362204,12495.2164278,-9710.66891203,6230.48028131,-3097.47691771,863.797656097,-1339.00310264,4725.6243428,-9399.29190847,15151.2885643,-21758.1474422,28749.9844067,-35191.143242,39587.7822849,-40213.997217,36047.9663581,-27821.6303942,17963.3276836,-9049.83293363,2547.27955264,-4106.28213009,14457.1806258,-28619.9664553,45782.1593799,-65007.3010966,84584.1318258,-101556.379216,111783.50441,-111149.978578,97965.4592768,-74967.7840375,48442.8287715,-24548.5740093,6941.17487665,-12028.9475136,42212.8729025,-83056.6348642,131630.981158,-184528.26899,236213.661496,-278208.662784,299959.283374,-292452.132585,253777.860221,-192484.901619,124147.105817,-63045.1576478,17863.0908914,-33665.5384543,117722.830993,-230120.73267,361194.394176,-499866.140966,629804.977509,-728450.831141,770630.830483,-738097.963772,631449.719276,-474738.47382,305173.151355,-154973.169074,43937.0781309,-90284.1418115,314589.040108,-610987.121513,949996.932245,-1298610.47557,1611975.99679,-1833540.94495,1906496.54386,-1796860.40748,1517307.74721,-1130930.26467,723914.839573,-367116.504438,104048.878818,-232926.029018,808835.157758,-1561190.24342,2405771.30399,-3250717.00326,3979700.03138,-4457719.66993,4562642.28605,-4237515.17983,3535076.87501,-2612497.24602,1664083.26423,-841917.241591,238373.801712,-580415.196637,2008916.80998,-3854831.32903,5890316.55587,-7873356.14628,9516041.49745,-10509107.7567,10601507.5773,-9712769.2198,8009922.57767,-5869055.98806,3717797.52462,-1874977.57673,530010.768419,-1402031.63101,4837652.74515,-9231319.35935,13994104.4745,-18516456.6363,22113159.7378,-24100582.7092,23985043.7755,-21693008.0735,17690698.9955,-12849109.2346,8088955.74959,-4063156.88353,1146049.14001,-3293466.23197,11330507.7553,-21507332.866,32359369.2865,-42408243.6774,50076780.3535,-53901167.3016,52955252.6505,-47301693.3035,38146289.414,-27451671.9793,17160329.5062,-8577522.61382,2412569.09162,-7543805.68648,25879784.9901,-48877225.8174,73012921.2398,-94815134.5262,110757923.302,-117797404.982,114289160.557,-100833420.854,80389078.3602,-57275559.9376,35512893.781,-17644227.8997,4945017.55156};
+initializer_list<double> lc={0.017415869979395631,0.040582822313529523,0.059769328628195639,0.080177249351340579,0.090521386110228319,0.10559955712650519,0.10379876562588527,0.11238552704245717,0.096819395169197702,0.099717577885208304,0.070272816361529266,0.070808722202950191,0.027800139389238002,0.031188938465933042,0.012366740765876152,0.058252534471389524,0.025090679667077991,0.13526479621350120,0.012163271897629055,0.20974902380675326,-0.028442500181795486,0.27487463712196214,-0.097923986721466277,0.32830435437290448,-0.19211506916476858,0.36047453585684708,-0.25684125721642470,0.19456479727872740,-0.10615537995401643,0.47252557066557879,-0.78610084536466518,1.4192278138102456,-1.8045695738816711,2.6062251802372559,-3.0383092432789622,3.9145657534789000,-4.3559469296171443,5.1390706575763982,-5.3732052502679670,5.4688286743923235,-4.3351221165009587,1.8653650311698004,-2.2299869444214288,7.8843219382943153,-15.256145752824714,24.216796975286171,-33.845614242699264,44.471604149519496,-54.918410836175661,65.463773316778226,-74.395510578311349,81.089363164318341,-82.250566932892774,74.488916948352645,-52.625647405727537,19.063459748097691,-31.296044676777759,109.14305034954594,-212.29737052659703,333.08833914282081,-464.80907504749368,601.90856807766957,-736.14139176867956,858.27656200704784,-952.89661397875751,999.18225903477272,-965.49173361589987,816.03902936358080,-532.39559184173626,178.93238916232491,-332.65636787777379,1157.1702365086299,-2245.0158409313072,3503.5387337689513,-4857.1432859823030,6228.2188751374581,-7522.3492128029095,8619.1511761593884,-9355.2706160731485,9517.1324174833329,-8848.8858821338611,7136.4816414292808,-4431.4073144872734,1432.3758836170711,-2687.5036370346334,9333.0660509220919,-18054.308684602693,28047.054739869769,-38638.696513007107,49121.907953519954,-58663.557383472159,66233.607835844520,-70545.939353592319,70080.001578140294,-63314.034244745833,49438.244012338237,-29748.416641672574,9400.0202600181000,-16534.053207055281,57336.773161103840,-110623.83515207014,171168.47170927888,-234508.15977666137,295945.04046029542,-350072.81413832415,390474.43550698265,-409651.35552438336,399554.80817575044,-353417.50888469042,269808.98637570824,-159017.71352458613,49538.478846125727,-77819.188489552112,269532.54639128661,-518861.06897002169,800127.70983224206,-1091122.2719525580,1368575.1637255586,-1606282.4176419984,1774279.6806009271,-1839476.9952059099,1769301.6636416664,-1540841.7667719971,1157719.0781470842,-672767.89234639052,207637.41859584717,-281930.15310285253,975504.69715934693,-1874416.3510571000,2882527.1784319914,-3916022.0927982048,4887655.2182865500,-5701048.3985043385,6249426.7160881757,-6420324.8625238311,6111088.5504798188,-5261773.8431000494,3908874.3339945348,-2249422.8925340277,689863.65680430435,-791349.55838949446,2735963.3158074254,-5249430.0350436822,8055162.7231528896,-10910904.219041964,13566083.641217103,-15748276.977846458,17163279.457767786,-17512806.473119232,16541377.255421065,-14125918.360846943,10409997.620590913,-5950098.4391742702,1816921.8931513154,-1731324.8604294203,5982207.1956615453,-11465391.890427505,17564950.686242618,-23739964.973031484,29433952.710005358,-34049285.120828260,36952927.357262182,-37521460.382258368,35247245.858037227,-29927909.918953114,21933544.362881748,-12478982.727553589,3799493.6169917178,-2967133.3933316061,10248109.205886805,-19626772.488011874,30035138.661542347,-40533925.761745393,50160605.571132909,-57890241.578089504,62651511.357509092,-63410342.564874975,59354599.945649906,-50209853.746104204,36667341.453899957,-20800548.910505090,6321514.2112590713,-3998160.3074894489,13806070.948346986,-26430074.471278021,40421983.378130112,-54507267.159656973,67382768.026257829,-77667375.839887948,83928036.605654430,-84796854.560205744,79221366.549922782,-66882890.545252995,48751518.178150419,-27612846.868457762,8383728.0589082411};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<15,double>(double* c)
 {
-initializer_list<double> lc={-680785.069835,2387450.17514,-4652428.45103,7187728.24115,-9662262.49821,11746229.6406,13778989.9126,-13493401.4106,12352568.4346,-10484165.1035,8096991.68275,-5466034.88809,2920276.67638,-856461.606004,-13174694.7299,-1227189.81404,4275962.04942,-8258359.67922,12645634.4182,-16873430.5251,20397694.6972,23760656.7238,-23219070.4551,21223301.7647,-17992969.9449,13884876.3614,-9367986.91492,5003108.47036,-1467034.43283,-22785192.2129,-2208225.37578,7656535.01605,-14685770.1307,22331616.6407,-29622881.497,35649124.097,41291637.7298,-40280738.608,36771896.4805,-31146099.8433,24018851.5835,-16197714.5818,8648013.32397,-2535404.35929,-39690840.1363,-3974685.2227,13729577.6594,-26194161.2296,39615313.413,-52305888.7065,62720975.7324,72317181.4515,-70447471.5657,64244195.2514,-54373899.3333,41908228.948,-28250977.0903,15079536.9369,-4420399.85885,-69647526.1296,-7166881.09722,24684744.2018,-46901023.3458,70630869.0064,-92916342.6391,111100892.421,127630876.997,-124189133.786,113157710.656,-95712511.4822,73736092.4463,-49690862.0796,26518089.8214,-7772643.07564,-123109877.838,-12959106.1972,44535643.7203,-84347945.8028,126604525.893,-166073452.145,198129438.143,226942726.632,-220618328.877,200881957.479,-169824958.433,130782642.203,-88111599.6929,47013854.5755,-13778876.2615,-219176521.063,-23514726.8966,80673467.5731,-152414826.809,228184490.216,-298650369.871,355666306.844,406437746.753,-394812834.947,359287819.256,-303611009.0,233738977.67,-157441928.495,83994955.8184,-24615551.9313,-392922516.031,-42836394.8569,146769088.385,-276762234.482,413524854.971,-540279839.475,642528862.77,732871505.653,-711467346.772,647141950.449,-546662422.233,420746023.239,-283355339.18,151152293.65,-44294033.9333,-709076968.054,-78359535.112,268211540.267,-505028172.02,753427665.039,-983026768.826,1167777189.27,1329941657.38,-1290428395.17,1173285384.0,-990812476.593,762424670.031,-513384977.186,273832863.129,-80240723.7556,-1287619920.34,-143947470.71,492328971.348,-925987857.857,1379787775.9,-1798333189.53,2134429897.74,2427769119.74,-2354594152.29,2140105195.36,-1806796726.76,1390059429.39,-935889883.658,499152531.259,-146259878.073,-2351823761.77,-265535342.588,907646460.04,-1705646675.99,2539163463.24,-3306577034.2,3921745300.49,4455975702.53,-4319996367.94,3925274824.66,-3313179376.67,2548584064.21,-1715711120.93,915007828.738,-268103660.655,-4318648064.84,-491788906.001,1680251122.3,-3155382478.75,4693890412.1,-6108325053.72,7240432051.56,8219158540.24,-7965590141.11,7235798188.64,-6106237944.12,4696424393.49,-3161359944.0,1685901040.13,-493968256.597,-7969203024.07,-914272692.981,3122592944.78,-5860842341.56,8713298429.15,-11332471883.6,13425989716.0,15228342619.6,-14753905684.2,13398889445.4,-11305209229.4,8694018557.69,-5851883230.83,3120587431.93,-914313711.212,-14770820370.6,-1705673815.93,5823865068.47,-10926159840.9,16235912347.1,-21106124508.0,24994018456.0,28328109111.5,-27437638804.4,24912192125.3,-21016177887.2,16160415780.3,-10876848809.2,5800046117.47,-1699359011.83,-27486576328.6,-3192345609.94,10897420034.1,-20437305164.4,30356477409.3,-39445625982.2,46692922281.2,52884879792.8,-51208866819.0,46486140771.5,-39210900876.7,30148880966.3,-20291049287.5,10819963988.9,-3170132055.84,-51330459448.5};
+initializer_list<double> lc={0.015486945019316702,0.034796676478535532,0.054338809651008369,0.068577044352848570,0.084857911165302259,0.090781579538353767,0.097658434886699312,0.10361439156531233,0.087824692807549844,0.089370849434527099,0.062382425193733629,0.062449941239950765,0.024394853795125683,0.027319707761452138,0.10214947810004128,0.019398171481209958,0.021106758159532127,0.081214773401662330,0.025866557662563858,0.14564124338752674,0.0099444476713621547,-0.028655584146618223,0.25522373206350225,-0.090718415654652850,0.29619028945787574,-0.17268344204658574,0.32007777751296263,-0.22745460016283996,0.17135179024859848,0.20485980476354754,0.11368842986708260,-0.30861398119301711,0.72737525781394352,-0.99817238912478709,1.5972129718696222,-1.9097405107965584,-2.9716747857166948,3.7306030548649964,-4.0844936551180420,4.7473700577469453,-4.9167515977816904,4.9601624107432908,-3.9090782577549680,1.6731593906379218,2.6248503122367415,1.8858090025309388,-6.4977849512339610,12.828134128011305,-20.106470536916771,28.543244200649352,-37.289186546935054,-55.931305723869635,65.055898307678247,-72.593584468548114,77.982314084153992,-78.214213094799709,70.177221412254331,-49.219018821264052,17.735055340010736,46.781678802598311,27.909837751775459,-97.259659863862520,189.81555112528522,-298.46181101154400,418.82630928829964,-545.68946396082327,-797.94075257625041,907.35342546814668,-988.16339257682018,1020.4016303234035,-973.84943115456766,814.73906935677420,-527.27099922822829,176.26628821154340,674.53791276056401,324.05935336712378,-1128.6276980324140,2195.6089852140416,-3440.1590185317921,4798.4638961180861,-6206.2769688467552,-8861.1800300417945,9894.4897524921821,-10524.767899238272,10533.929748636348,-9664.0140268864273,7708.3974193449029,-4745.6883429227996,1525.7151178921926,7591.3526357618394,20375.337417855398,-70785.112071501388,137038.62879175859,-213177.77168512282,294358.79679732975,-375652.01066428145,-515294.50224917274,559135.10131245941,-573806.95444495360,549618.90771512934,-478886.93405004538,361128.69378081076,-210876.32621249565,65329.665801608077,451495.97976062170,110499.91685719672,-383466.71031418505,740898.90163671435,-1149091.6845652039,1580150.3509715743,-2005654.8359702398,-2708763.5688050102,2908201.8284894698,-2946765.3513676379,2781148.1958251939,-2384093.3268498706,1768448.0348981322,-1017870.0204248733,312365.40866441263,2393994.4615513740,467718.68021513948,-1621617.8909792205,3127815.3191606584,-4838766.0585504516,6630914.8259126060,-8378630.0123797223,-11172933.715590957,11894393.985836630,-11932764.331531717,11135847.146505679,-9431327.0339640409,6913219.3661473570,-3939018.8359291129,1200990.9636305231,9944159.2885923027,1553616.4240463395,-5382402.4586845586,10367191.034122271,-16004841.049577660,21870747.703200944,-27534583.834953985,-36347405.677109683,38439005.762901180,-38268877.186458937,35410431.812862375,-29723410.733395523,21600808.856902086,-12219714.083128040,3708881.5878121552,32530553.626947123,4072208.7962097492,-14099364.350125661,27127108.088039065,-41810079.632930338,57007183.934234924,-71565967.151001563,-93735971.315638787,98631965.859544648,-97632445.696918629,89772380.809388084,-74865172.658110158,54071624.045683327,-30433707.008120724,9207838.9248474163,84252399.217107513,8464554.5362497132,-29293847.360202583,56314485.980201236,-86689203.997206585,118003781.81444026,-147827416.58784548,-192513147.62006282,201828541.25395291,-198958084.56905870,182121195.78260519,-151183260.95006083,108723885.48702776,-60980235.929295540,18409745.943344201,173579008.14001456,14009987.276797203,-48470293.576009025,93126672.844081681,-143237582.58147402,194760678.44923514,-243635138.28806265,-316060616.96001313,330547395.09132387,-324954786.49211986,296579119.64078361,-245461539.83312329,176033542.03877014,-98510263.867413795,29698612.036780313,285574216.18908050,18520473.012520648,-64064297.781341893,123049458.59564266,-189175054.46881240,257064090.46703776,-321322125.06654516,-415966587.03881903,434457864.66561746,-426475689.58978779,388618068.62555995,-321121911.50163298,229952248.13831405,-128530065.86147034,38720400.604571703,376273129.19314164,2918.9573906814646,-10153.077467607399,19701.177037271057,-30752.674102194264,42666.570006912899,-54794.584702610356,-76571.627160170909,84175.886548547864,-87781.443842212469,85712.413466722978,-76339.908625130193,58915.659559948712,-35135.703600137978,11041.835378266368,66397.919514665229};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<16,double>(double* c)
 {
-initializer_list<double> lc={135465586.136,-460681378.644,858568449.226,1629807732.71,-1913730754.59,2091186142.27,-2150058053.61,2091021969.56,-1925588535.54,1673523948.54,-1360201074.65,1014354364.81,349584899.424,-1265147722.21,-666637158.937,-101468413.497,213698102.776,-726651643.726,1354004975.98,2568840128.65,-3015293660.71,3293664297.33,-3385101998.96,3290932468.68,-3029510421.08,2632110049.83,-2138732812.72,1594575370.89,549388050.833,-1994694419.56,-1047777239.12,-159451248.582,346179119.633,-1177001850.17,2192730225.57,4157572485.56,-4878309665.8,5326537343.82,-5472175222.8,5317822030.7,-4893552448.91,4250190222.01,-3452493356.39,2573448851.37,886360944.216,-3229410478.52,-1690664736.38,-257233463.555,574550352.097,-1953229206.57,3638078528.92,6893730525.02,-8085638146.94,8824877076.88,-9062308063.2,8803021269.0,-8097519092.6,7030431561.11,-5709164909.31,4254460693.46,1464852581.12,-5356578874.15,-2794477718.41,-425086576.175,974350531.965,-3311986937.89,6167614970.62,11679485068.5,-13693417224.1,14939026732.0,-15334326360.2,14889281087.6,-13690544057.0,11882113518.7,-9646011752.45,7186322406.6,2473474106.6,-9078385000.87,-4719274302.8,-717722787.111,1683639220.15,-5722307309.11,10653943645.7,20162445976.2,-23629833119.6,25768448096.7,-26438923570.2,25660761394.1,-23585423854.6,20462556200.1,-16606478192.3,12368681886.0,4255741468.72,-15677567270.4,-8120902095.74,-1234782475.7,2956394630.17,-10046957023.2,18701931974.2,35371373580.1,-41438339848.2,45170081507.7,-46325822386.9,44943720659.9,-41292704800.6,35812554647.1,-29054849881.1,21634813844.8,7441461458.94,-27512784554.1,-14201937753.4,-2158936055.13,5262505960.88,-17882015706.9,33280060395.4,62905859082.3,-73668167129.7,80270297293.6,-82290439773.9,79803248558.8,-73292537064.8,63543572743.4,-51537593411.5,38366318949.2,13192044135.2,-48945867638.0,-25180265967.9,-3827020425.89,9475650364.31,-32194867184.9,59906431484.4,1.13170276042e+11,-1.324847178e+11,1.44302499394e+11,-1.47875817261e+11,1.43350721831e+11,-1.31607205015e+11,1.14063450821e+11,-92485254952.7,68832490356.0,23660117017.3,-88083374859.5,-45167088141.0,-6863312096.04,17227359025.1,-58526448357.6,1.08883438463e+11,2.05581338088e+11,-2.40584938695e+11,2.6194890402e+11,-2.68333992994e+11,2.60025938266e+11,-2.38640001381e+11,2.06761920804e+11,-1.67600285204e+11,1.24708077425e+11,42853318005.6,-1.60057445932e+11,-81817195768.2,-12429985765.3,31576068889.6,-1.07262890124e+11,1.99519643417e+11,3.76514298828e+11,-4.40478056515e+11,4.79423779431e+11,-4.90932241172e+11,4.75562479272e+11,-4.36302030665e+11,3.7790326443e+11,-3.06244199182e+11,2.27819298486e+11,78262193238.1,-2.93223157785e+11,-1.49439347908e+11,-22699102641.7,58274418286.6,-1.97938096312e+11,3.68125245178e+11,6.94346133517e+11,-8.12051159771e+11,8.83553153296e+11,-9.04449702225e+11,8.75834658132e+11,-8.03269018581e+11,6.95546285962e+11,-5.63509250312e+11,4.19112300517e+11,1.43935745018e+11,-5.40893277128e+11,-2.74873153282e+11,-41744282295.3,1.08174897022e+11,-3.67400605899e+11,6.83186806881e+11,1.2879961745e+12,-1.50588800347e+12,1.63795687159e+12,-1.67614079973e+12,1.62258031464e+12,-1.48768237169e+12,1.28781100997e+12,-1.04308452492e+12,7.75638475396e+11,2.66304976097e+11,-1.00360632572e+12,-5.08617894322e+11,-77229000359.7,2.01805253626e+11,-6.85345516814e+11,1.27422371708e+12,2.40118080284e+12,-2.80659308193e+12,3.05179823945e+12,-3.12195241811e+12,3.02124483788e+12,-2.76924006275e+12,2.39653853871e+12,-1.94065559347e+12,1.44278749072e+12,4.95231982313e+11,-1.8714653513e+12,-9.45949168472e+11,-1.43609669766e+11,3.78085907103e+11,-1.28390527786e+12,2.3867584707e+12,4.49573191723e+12,-5.25335570894e+12,5.71064800265e+12,-5.84014964178e+12,5.65006034048e+12,-5.17730348572e+12,4.47933981801e+12,-3.62642590597e+12,2.69556698933e+12,9.25011744461e+11,-3.50477943849e+12,-1.76706004393e+12,-2.68223687272e+11,7.10965349508e+11,-2.41411433735e+12,4.487199128e+12,8.44866336634e+12,-9.86986304382e+12,1.07259835049e+13,-1.09660216164e+13,1.06060289636e+13,-9.71592200995e+12,8.40398658134e+12,-6.80228297275e+12,5.05529595199e+12,1.73435763137e+12,-6.58790428097e+12,-3.31349220654e+12,-5.02880009315e+11};
+initializer_list<double> lc={0.013490220977761555,0.031427962995182457,0.046987373307942946,0.073454785753304309,0.086369391825408389,0.089017807128512724,0.097547712665373191,0.091314308198872987,0.095360766200494941,0.079794174999662788,0.080415539835133883,0.055698115376445689,0.021575626589518488,0.063256440007725926,0.055462298734107996,0.024127007908726763,0.010415552031311890,0.042191143862243185,0.025852596906614714,0.025625478750121942,0.15000231780457759,0.0081362899844680002,0.19705543865869070,-0.028181037033049369,0.23622584604601362,-0.083826007745345894,0.26796033439269343,-0.15576533378501753,-0.20269562177220662,0.096852982834280028,0.28585680579758310,0.15200570173040492,-0.065371337699944871,0.30729403654007615,-0.49398596849546479,-1.1447035774516518,1.7004356496189886,-1.9510871299200321,2.5880472092932614,-2.8668998639999477,3.5278677544560339,-3.8137396573664369,4.3801099544994433,-4.5016959760838047,-3.5363936854026108,0.92144025645784216,4.5087993697045811,1.5070673646557512,-24.665730114623793,86.181704502788807,-168.23620489984518,-373.44138281649337,489.30469265120497,-608.67109456997826,727.72751405520249,-839.69425119789392,936.61637746260179,-1004.6660333126269,1024.7787273783100,-968.23713882791554,-516.43315997272681,265.43454754787262,803.30398691459014,171.88850707733163,-309.63452662307531,1079.6880054137171,-2104.3441208577101,-4633.9170924328732,6031.8690048096953,-7443.9553818834898,8801.8258075181981,-10014.896373026275,10962.067613926593,-11475.761417636714,11336.492449464019,-10287.720524016873,-4971.5251199964334,3307.6199801285200,8132.1818152113867,1591.2808716124862,-3066.7759919124081,10680.833581987628,-20774.135140078229,-45397.117890866797,58741.054038280654,-71934.534364037242,84207.884399190553,-94594.349683136734,101861.41586747993,-104461.23838342193,100594.62295246545,-88560.732426851124,-40077.763772685426,32547.292179348288,67696.037478759118,12538.866353702892,-23920.392636591216,83219.287546696644,-161542.35512896340,-350530.17157942164,451117.35821855218,-548605.01018223870,636549.82952517924,-707170.54860588571,751082.30712232876,-757420.76362116615,714978.66414632104,-615381.71381848462,-266254.13914039112,252341.27967287829,459424.64838554417,82113.172589387300,-147059.62881656293,511128.80957238415,-990428.37429365846,-2135658.3188244546,2735451.4104567626,-3306480.6315605491,3807537.0587725268,-4190601.3306811760,4400647.2203399653,-4378475.0749985547,4069719.9562441898,-3444219.9970198724,-1443884.3105870039,1543025.3383579399,2528237.2210966860,441062.19944763254,-714824.61580946109,2482394.0088284066,-4802777.0085223128,-10300048.088969859,13139133.181250371,-15800508.273813600,18079680.223193790,-19745839.605991689,20546204.287286053,-20226136.753077801,18577012.422492657,-15524325.911646600,-6362337.6416042789,7465221.8691241569,11256439.080471080,1930714.4675908633,-2759131.0767545689,9574870.5587513907,-18500598.437440491,-39495096.192345493,50210302.785194374,-60124074.431184468,68439615.269606499,-74282043.894931583,76729869.728376633,-74907361.652866218,68173169.434299237,-56432508.536537806,-22749874.026160506,28700643.073036872,40550722.795194850,6871496.3327696682,-8497625.1698164154,29471487.472188908,-56883564.389216165,-120980602.25985999,153378479.91753795,-183032340.66095416,207480804.49332597,-224082861.36977670,230146369.06987855,-223238582.18016037,201761599.61548613,-165834362.29683653,-66054237.636070315,88104843.516236103,118375850.28502589,19884743.401949277,-20980096.699446718,72729170.665550313,-140256257.94284335,-297416905.26270363,376245864.36473813,-447785903.96945253,505961986.24057463,-544375304.91932492,556673364.65159019,-537351897.84233100,483146167.34114826,-395046860.85388826,-155990013.22219400,216963769.78904358,280636140.20976893,46846779.327472578,-66936838.272294259,231904548.17118511,-446739494.85908060,-943803948.07864682,1190720384.5043602,-1412409571.5459310,1589556758.0546959,-1702294261.6960784,1731560161.9854741,-1661742878.8609326,1484943191.7791878,-1206750740.6608406,-471731994.73014870,689968300.48017200,852471948.26255125,141284437.43861402,-1.5480232105908971,5.4884637447379291,-10.634852178616991,-23.818155915043685,31.570923346958543,-39.412091345379405,47.834282850816711,-55.825365216359798,63.719574494815811,-70.088276741906983,74.420399978901484,-73.964551544508786,-45.915985182387710,16.961483026057248,65.861570972119204,16.472900716209823,-41697253.501795688,144495997.52220039,-278477997.81898119,-589213471.49098321,744177939.29151353,-883917523.43546841,996378571.29822590,-1069042083.0901887,1089727989.4562091,-1048225183.0715211,938995415.88409277,-764936807.69175548,-300210159.31523870,430373303.06387722,541561630.93257211,90009633.900057011,-87011219.201791350,301412944.83695296,-580500275.59404906,-1225378680.9354162,1545031076.0615788,-1831337459.1664355,2059221161.6030553,-2203025012.3854488,2238322462.1098087,-2145370224.2102286,1914587738.2465132,-1553877495.3559386,-606142008.15918469,896238209.85156128,1096391674.3074445,181437109.98627851};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<2,long double>(long double* c)
 {
-initializer_list<double> lc={-1.44337567297406441127287195125489,2.65470053837925152901829756100391,-1.76853598869462141624860782523333,2.50218995346906875953341290652353};
+initializer_list<long double> lc={0.383974596215561353236276829247063817L,0.827350269189625764509148780501957456L,-0.327350269189625764509148780501957456L,2.11602540378443864676372317075293618L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<3,long double>(long double* c)
 {
-initializer_list<double> lc={1.00000000000000000000000000000000,-3.32379000772445013110755923986944,3.43649167310370844258963269989120,1.64959666924148337703585307995648,-4.78568501158667519666133885980416,3.75514084041407928684859596988032,2.94601792213815217620118779490752,-7.74471701776623530154738625169971,5.25791292600037724175496741484224};
+initializer_list<long double> lc={0.313508326896291557410367300108800195L,0.323790007724450131107559239869439766L,0.475403330758516622964146920043520078L,0.765877081724072889352591825027200049L,-1.00000000000000000000000000000000000L,1.73412291827592711064740817497279995L,2.02459666924148337703585307995647992L,-4.32379000772445013110755923986943977L,4.18649167310370844258963269989119981L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<4,long double>(long double* c)
 {
-initializer_list<double> lc={-0.135307244904688787411431296975496,1.36140068465488733668292376422488,-3.97544968197561526882229403937933,3.81878808642839043193882832768355,-0.537612925375784480135853564851234,3.00404135671062937217916717984556,-6.49890590866445442087731334533293,4.60431971202729624837725199101190,-1.63717031842245700354336803004939,6.84757575688715536726519348367821,-11.9249796863829679117446327133569,7.12227177834886743621767783385215,-4.10029878721799225771340611081784,14.7751596370192998341951206152680,-22.3365646864978729902361776703725,11.9887073780806096349127195892873};
+initializer_list<long double> lc={0.159892794073637228090617425888331953L,0.374674514663846731868011351377353456L,0.232688667054930488599161734490442087L,0.302175868410559263830236243797467751L,-0.0981369521237187250746790847265872858L,1.21741991222990113859126829716368837L,-1.12604038113487336501583864333970331L,1.33676689923626281909791655135097989L,-1.55565026488701110211295924295864381L,5.71217729471743842988351609051272020L,-7.41147600710121205438621911534272126L,4.92493949906321285901699514734026722L,-4.38831278199312432869791369097048464L,14.1487957198752823053772658644786245L,-18.3640780828828053767717123213524360L,10.5341633007976736877043333922907009L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<5,long double>(long double* c)
 {
-initializer_list<double> lc={-12.4080892450490375587308213492748,33.2494963343543122595047165192804,-38.2237939376551451088552478458438,-5.02873063465664557784727417127220,23.4580275600371839895298134079607,-22.9802116869279084515788861808107,61.1304952922655617531320397240784,-69.7821321606709158906772005941420,-11.6080506013676378348468198236619,43.7879095113950800304828916374698,-42.1725807054847527822486163824507,111.473716235233254622573504718593,-126.392162976933262911255515008908,-22.5124628922089691017572401806333,79.9859687144913883505789216338612,-77.0853906901439939750903731632864,202.751332845047950535923907231318,-228.757413485767381207785815917637,-42.1641229898811247987888566088867,145.555909669596589986031494575773,-140.652179469191843700916683271813,368.574355005736335933984903522633,-414.483182984262126760100116786341,-78.0638446566238302686280263411386,264.876374636341610152333990318813};
+initializer_list<long double> lc={0.124984887325764879791716808228344642L,0.216580774495367882514018469045931261L,0.328885883699785175599832291421143979L,0.207446198422454702972579470100839010L,0.169012333087295362723039522054044624L,0.273643334885512012974624349679389600L,-0.287341111688162284818880499343640234L,1.24566054607467744444552207931108025L,1.02773359387906464839549476594720465L,-1.02893101820393336651491790594413867L,1.56237067825494720652750133746418971L,-4.51309119237387594289773042622781241L,8.36000000000000000000000000000000000L,5.00571663882725559181165437066880079L,-8.91499612470832685544142528190517809L,13.8905813574664280271701244700988389L,-43.5760260046880345061242169023500358L,69.5731946823604931812678375919961891L,31.0329231461764777139580835961047081L,-68.9675832583460324198730153167000038L,6.38350735715601986824918022543229480L,-19.9290965376849493636277860342555392L,32.9589255545317108653534747039382533L,16.0864652028641404844742082202245080L,-33.7305669218140803089309199049894125L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<6,long double>(long double* c)
 {
-initializer_list<double> lc={1.49639906743931150170865743165221,-4.95180935208180235143946990968911,8.16737188579422643880960262595151,-7.44012682160895177207402084354309,1.31773061430654815259391059778265,2.44419984904909201649516932059883,3.46885805124527998912589880976624,-10.9780747982168482045249387497191,16.5595161235581040943189567698421,-13.6754887605368487943822582992659,2.90311311209734720820431537689784,2.25641156056538447906452159834394,7.11511835867093589005360090792946,-21.6456349345666900729344518014013,30.2555924942497912188853069793345,-22.3416240113366871629470601435484,3.47355841317324175691484021542290,3.51124117949273710338609959959303,13.5351598873204907206130851821985,-39.6617231803398217698073670078747,51.4704918804032815556367028451887,-33.0427203786641164534802601768582,0.857972597257570309916028931380322,7.12633339478597956084901084518200,24.2342876134922468623845858854074,-68.2986361470160227079104024397649,81.5084716482095788888727615984547,-42.1205642015401486742305911687352,-11.0450057011243979267195579430256,15.9575705136612307359928024704931,40.9593172785713586917120193028690,-110.308373491478239521311464963708,117.679699400637902139903279302536,-37.7198023312642406115052298157596,-46.7864069848232444708783542820675,36.3789798788849947653870930332267};
+initializer_list<long double> lc={0.0822483019342037478640112458349424736L,0.192309904821298604543208747188376298L,0.210554380476386103025834845934131782L,0.271315698858067900195218043827607798L,0.126633394876812956032087920660983979L,0.150703561931654674433488419306960364L,-0.00671995946741446690553523016777649308L,0.498579604213998644188492929620954062L,-0.369706217859037836157219308026767566L,1.12786426978808409425013006359105828L,-0.882246519134849659252781580185743145L,0.801624129226086967046213327658322189L,-1.03153977944528120121194957228532500L,3.95621300880984079146362077177153255L,-6.63540102624644024084122320220463230L,9.58816473131380705659467460928338899L,-9.22157777692638581833679062780601668L,4.72483124945286095801641716040069646L,-6.87737725795577645888460239040820613L,23.3355903068663527123979225505997606L,-40.4858388569101878358689407951434916L,52.3851592934271722434960557651374188L,-47.1554645532578469382521471476813035L,20.4172406608718847314269628783361778L,-23.6007257230995560341432254647793594L,78.0836961598728659040527803392158259L,-133.748877632797098935203185747339986L,165.533650561102549834704773966215550L,-141.796470948653553437512943967552715L,57.3593322768079249249325006717506370L,-45.9544790770732901399592209924769404L,150.714998983444320857559458605839171L,-255.681093303515005597962807557600749L,310.127921134891541506210122233300532L,-259.206997755970609654747008740979049L,101.965884775324619042805607229164032L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<7,long double>(long double* c)
 {
-initializer_list<double> lc={-1.91120187840706148059343153339619,6.65652759190947097926182607655844,-12.7292168648694984662764731379728,18.1176202649195974587105791611953,-17.4616733790926634353730548203877,7.96098671627692504368896267036905,0.392403593091850638318496741609958,-5.19865835727433058441028937337961,17.7863259875997465506681553498387,-32.5093393347882978136644467302933,42.6183498714162914750919707447822,-37.9642372564774438754821752867909,18.1682283161856404297400910069268,-2.37489943225972140043994937826719,-12.6924582123093563087501515401057,42.5222463481699544055616587560432,-74.5182862339952554415153487918320,91.7241851083633573607985030566396,-76.7869482599494432441820403305810,36.4779223930853985430329998272872,-6.36722877294198861104454960548662,-28.8016213917061138053390452891089,94.5845579492985955875880487692287,-159.757941566257764882047123910280,186.855037156516665445560863605916,-148.584647226412484336661254556154,69.0276582947818295702864174410238,-13.0466093395153273856608853441942,-61.8496467489083919740734662853765,199.450073684103533001519499240391,-326.127694831069676842085164319705,365.115860088233912284775986636401,-277.225297295451381351587775194686,124.642877080461840288276012062188,-23.7793975571716263282331655745455,-127.150589513851883135544067747503,403.254742674680672031828264052813,-640.329586138398034934086416724497,688.994905272083876945019711555962,-500.006854822796777795114554277379,214.902196977754856228751627384792,-39.4710270061112237052768425440148,-252.155218350409524792213670733784,787.350624132017907905283699702557,-1216.36742044747276254645881198231,1259.72396109181852482064404550487,-871.096011390937797024743593539612,351.306654629544856924200356477215,-58.5922594641566066942375759823070};
+initializer_list<long double> lc={0.0666941570670827713439092105721217104L,0.133026104281449192119153532931236346L,0.204321049047571264328074092061288499L,0.187583325708632645454617630027283806L,0.221771429746878631879602688086839011L,0.0978142523349984038694191467344323285L,0.114235725642007828742128857562872668L,0.122255582983458971096277902111763496L,-0.0596440230763933962256297717242892497L,0.575576687480889919034936277222650386L,-0.382767798045335228852325508454256398L,0.979623501559757103484803679888212532L,-0.742790457876754777396541244032452284L,0.636980914174680188926546278347977314L,0.902442769456690777979428126594611088L,-2.73090535314020903992319813044724861L,5.58566559580760197126712493589281162L,-7.69735820509003688761017135728486855L,9.80492620365926515136843108806833807L,-8.86257434424933784833064414370869638L,4.29488075786732729179572627484657204L,6.91104800167136304651529782662224600L,-23.0515008055213085093385452727409921L,42.7484578291160140261474066211744015L,-59.6008163265306122448979591836734694L,67.9650125186855095452261476703623026L,-56.6086495674898475246107436294707849L,23.1364483500688816609583959677262963L,32.6246062177656405616505688788182996L,-109.160236853702628102338742896556736L,197.184015996831640048367008316312948L,-268.437492944487463845600492340810804L,290.830866969625006083712568042758711L,-228.133777032283726693995292636520037L,86.7949402219402305316576858420360995L,93.3920663162279611201666798258359392L,-311.251185229950413395946692935694092L,554.812735056393062673464927642273977L,-741.883448865479331408031983539673223L,781.149921949739998605056516745202074L,-592.097891179276989889090017314620805L,217.748567545145409514312501963316524L,165.991614088224867389763625101455856L,-551.679304456696705146242442646912089L,976.900347040245253630701804612144185L,-1293.82218270255936951397816921661418L,1343.28977367020233698050332810648008L,-1001.48081848962930878237505519532484L,362.775124806384304703890004080794919L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<8,long double>(long double* c)
 {
-initializer_list<double> lc={1.89420696335189271657828654653861,-6.74595407993036488209951062870800,13.6174313879350418040936549908116,-22.1325531490283795436868444953001,30.1354696018019658502034889756472,-30.0535602846122435940536115165028,16.7813564646508372455003455249718,-2.47654183241751771237758983174295,5.53044980216853652419590406662562,-19.7123802550751263836487899296228,39.4552306841891380568621187216173,-61.8202807478371281601911743699649,77.9162549778229211076493331916534,-71.9170865716099859533199335243895,40.5605506613702209443694904285352,-9.49268636734022096857912912214024,15.3636588680378007070923695084634,-54.1230023330262407141346911644396,105.511418085609196011982509718827,-157.829742274905696136850531422093,186.583239525287085530367282552769,-162.508358369306670570515474868443,90.6500150975412720744334356732129,-23.2936433611634987137940144645674,40.0312626350487827169113069068526,-138.963091717749303955679340327395,263.310898325098970109714813246196,-377.485157225711351710788662668533,423.961919653899505365296310308562,-353.320799779991340818918670597229,194.472041372165191939031491810626,-51.7366189890014269411866892230046,98.3082610019279501589859959267112,-336.410045088019414880440286648268,621.002616500503204411870861288617,-858.383104949994456155016957800032,925.006181742545133267956989671112,-744.496924143510302187173151808743,404.381959444669130815027763903453,-109.188285177905293839097960112073,229.685256060390168995854989551005,-775.805079807910415691813090436842,1399.49183211132587677399424419371,-1875.32610048063117680663992102973,1953.09767698607603208624092346102,-1527.59865050750421049019808417344,819.073480823665014023919769799621,-222.430881404536315490773459538561,515.019542667772258585894866718456,-1719.44701491993249769633859315472,3039.71234666054242403153643714144,-3966.04428445512004427301545883963,4012.90466143223379746541841606209,-3062.61683487494962501114632454293,1621.13250704375359254959145124682,-440.496988744971312113260400252528,1116.20019081785447632171833140071,-3688.02824601219497787439701475620,6404.57927458974619584256433769973,-8163.93419172268862194770757436753,8055.10446748427746148256560561915,-6014.38469250793627714333948880182,3141.79531687395626580896621586568,-851.185828494625477369134849091671};
+initializer_list<long double> lc={0.0494207617175157450662821794059841215L,0.115367280951846865973619559095434471L,0.148648061741885622933949325222643297L,0.194426258901040081949697717352848779L,0.162540550333118309045579318597765357L,0.182394745345221171697844797346678177L,0.0775731089210792138605632936889406142L,0.0894843038395248736306833750049686887L,0.0133004602295002209836059857102721630L,0.241099905954761498952193057357822587L,-0.0955980746459190567602634261592026738L,0.575833245906589516017864665716787380L,-0.364030939353435068664516423449446683L,0.840008489792393842932632195776659016L,-0.624504472689445489937647901693387548L,0.515558146098741166680354878502580541L,-0.571824831805646876189652922077651573L,2.26093413974762933824505212164425514L,-3.95234578917624848198416518678382306L,6.41506249997201298578327579361979537L,-7.99422526399134411414861226407445447L,9.44988267006503080265465244318995052L,-8.20280112879965504166625958456845115L,3.83255149903005689439684007445575604L,-6.20557206022371833464280400619148912L,21.5389478160572560079380621852183306L,-40.1210656884172563811378052476616724L,59.5490753984660055149888835364037707L,-74.0694933841932031215479899585966817L,78.3013654646399718864485030551366719L,-61.9905672855968378391324077340713452L,24.4055924180199573646158200985823232L,-38.6725198664048985799450044539732218L,131.796089863342728442676500277041175L,-243.922718530859136758730054205559939L,351.703829863416678076909944088736736L,-423.999886552323222308232379739810124L,423.738784702463271645362014574523015L,-313.911155855851891746315256458186170L,114.859293697464296130743973988408621L,-151.107285134212312658219890795944293L,511.382350437124638691434017885853179L,-937.665068876242408873685979591813677L,1328.48681917056250449026841038754393L,-1563.78054884556256563734486973708671L,1510.34156992958818274127518571369657L,-1075.24451387378698442654853196956533L,379.349443397487110165730527631910961L,-381.189011963633817787516916363839207L,1284.94479207985694515079044545118007L,-2340.40982717059334724152183060799116L,3279.68733576475500439400589374915268L,-3802.15771375225806404212970977913648L,3598.71227370898887661785323282287333L,-2504.75837795757663409805623638920209L,867.068862529167850376370898085200766L,-633.328922184053121418814107906007976L,2130.52872846507185335525420437417805L,-3866.49639588755288673490153911321656L,5387.14720201253799015905704051176160L,-6195.96805297663897259870957278124182L,5805.06862540352266027914160721936683L,-3996.00048420798839431317608869948726L,1371.02944430334963938799023682893189L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<9,long double>(long double* c)
 {
-initializer_list<double> lc={-1122.37853337868513288907107645526,3472.68754317920871035372398717132,-5504.45857587937396403055263349257,6520.15683125366459336103590739386,-6431.97481547377991062193825459155,-3953.50621672641479866707490786092,2206.96334711661149238613812925524,-660.403803910164190253513614032616,5473.93014369917938731633467451105,-1914.77786609897348069500567461242,5932.53450524017251620404172908804,-9428.91945106486055957473113593322,11216.0748505927621176994465520385,-11125.8798997027027580283018141203,-6912.00810877488854135449086463154,3871.70671922256012031694091415844,-1162.48089933961936452638348509672,9524.26619652708966338037876921974,-3274.83030100604689645901078300630,10163.8796248716098095955460530782,-16207.6950809326522794995892264033,19376.3029152507964379268457398588,-19340.6549967110950566737508912756,-12151.0136568717757634013558720536,6829.03899733875340451801297164452,-2055.08098274567793790800281634289,16660.4029888071800668455178466705,-5619.52492913534138380828473772158,17477.6969539292316746784233927286,-27980.8781111812526736951798623411,33643.7420889839618624080658745483,-33812.4379163001052065040276913372,-21491.7442429287831075796020230558,12118.7108868263514132987279902107,-3654.13234967576392736454480958414,29318.8339235766620363214791343809,-9683.02778741722783449462849303891,30191.0984813395516843831379764801,-48555.8620492776077813494786993552,58758.7621201311605941361365818662,-59488.5400631806917893939626024530,-38262.8625850438147421862613112536,21645.7195289864625526298524574780,-6538.68878769950693201587119162956,51933.6175770610834731735549177893,-16768.2775095437257779376737642712,52433.0530607269595290529903076262,-84762.9436219882766539763101371846,103294.652424145919875800996872518,-105386.284585534603977922480209642,-68592.1313721299725292170536960241,38924.8891361274873612267835585634,-11778.2331294643809532057729952861,92635.4588314248338888971540701060,-29207.2223989125978328169323534163,91624.2219838624851900101931442980,-148960.586247857636814125942941953,182886.590426046587476998603317927,-188071.357300443331412811009728509,-123838.091089782143371756533222059,70484.0237189235988262950232282445,-21360.8747190655853896722477930341,166443.455185077615785348597621765,-51210.2317156049329952437533915722,161218.510225010765418006721443706,-263703.274242517254966817271494801,326284.408454062978778420779941379,-338210.338806811977476895279565946,-225193.491246412638640223756123770,128522.371261141512706899001074278,-39004.8633662451587451551833800248,301297.051273118691583011497017185,-90447.2628019009693795394503462075,285824.206502260230485150510192373,-470505.856564211773755570665568190,586777.442858425078030572164964192,-612990.305674500963362393216828098,-412443.878277218098880475480310091,235971.359584509805484130827900914,-71703.7225379283423225298559933560,549518.144993898378325377833743447};
+initializer_list<long double> lc={0.0414068725961940418977022334725992488L,0.0876298034327607691445660090472399222L,0.135599045836636980821369854908784997L,0.147737696469473441067600578649622419L,0.177208209854374028090195968549306944L,0.151629612069384751671303407993461188L,0.0629047921009338959971917270770211659L,0.0719457034288291587983778657912149167L,0.139858144457599887593904253058912763L,0.0657469225366681122749231248978646567L,0.00272177207728483880435452546587195498L,0.301250776273773205320057762299745899L,-0.112951698125881429178787456825704731L,0.542623289766644089940218703526601995L,0.719474151774272601543012207157547328L,-0.527810514834009735434905213007330931L,0.424386592881400126299513042565745522L,-0.333456846013469706718101590115209133L,0.504176006643672669760898025958115296L,-1.51803024912599045732658860967700669L,3.23444492137949927681905766309094200L,-4.63861105992505250595001420340565967L,6.67820071427887503809252463948041173L,8.82250267495965461544898192762845363L,-7.44711526105979837340125561028185485L,3.39254485184471454178014469787727259L,-7.83479831534587000387809955034141113L,5.51119121015221085233815919499233675L,-18.7761926793795493994521379837953711L,36.1085788758918756879071847487041665L,-54.3100713005696472202770259288207488L,71.7993576358772365004796979146564146L,83.8132191920479335036123878274075421L,-64.0679658754845716479522262118007269L,24.5826162476641106130964029305773988L,-83.3228600179015033542717114992426802L,41.8366135756117530174093702556150630L,-143.252755215421974577951500970479782L,270.540585101905278353335810582940766L,-402.052503401779899007849799923813964L,515.059319727891156462585034013605442L,546.011615794026021844942281836266893L,-388.893838698472824132234411799613354L,138.570974928866082284038246504164917L,-576.320011812625594244275030498685981L,703.550432522627167011790540312034492L,-2393.52785154429093268133239906925495L,4447.53327999300490461149021846276972L,-6458.47104349338727955521237541071897L,7985.07865895095429574812156276197996L,7584.58484925454507598949057570019804L,-5041.23688296967336552785165140540429L,1694.45802133408465425430233959511743L,-8520.16277833151422465214445992705069L,1606.24241406720601063833383042145531L,-5452.36025990267772941557197870607442L,10087.4653470903709309582578849722585L,-14552.3784198922591889863763606442516L,17825.4620969559243658997882965675829L,16483.9972799581672454004436015498331L,-10792.1633188194802058154268607723566L,3586.00863226574080369464362970745663L,-18790.3557561693289144769423282018689L,2529.88520119852561617047479183155653L,-8577.13955457426203898457268236725956L,15831.7225105943724339780763871462218L,-22758.6941843095785640343284808652134L,27740.8246264727419111166489387391542L,25302.1341652567415038819554771038052L,-16441.3173125137232162372859296955563L,5432.69063664897997976941895459109058L,-29058.1220086540438126154696683823472L,209.731325101455852941195396758395246L,-715.794250598645491241086174801643663L,1338.87475359563885428877534809605867L,-1963.66131886239691851351880868302693L,2463.30443677184985542550664370137459L,2443.88659772374611159891166680599681L,-1667.13635818971235909137269651972718L,572.096930247185336399419685675640219L,-2679.63998907741933734331179202574609L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<10,long double>(long double* c)
 {
-initializer_list<double> lc={0.308663498961631026031881865242030,-1.29519460573904943059833301204681,3.36383134544788852438529409244359,-7.46704170044427746933960115448499,15.1437435756946248189634635449127,-28.1149391887591556339007816076186,44.7273120243530286916403110123634,-51.5468873805166148961187150677284,34.8175242682022478269417410442943,-8.92396510145890931804424272341933,-1.52106932316001656932644627222569,4.14309699845371759042237492965208,-3.67385821192568772370895218239498,-5.25448732421518124189362989691954,28.9574203199844939428757685333244,-69.7158024026765904996763945666390,113.808925824721959721824339102807,-125.650392502351261417690115156468,84.3362434533681409954913797456249,-24.9169449878014075117731344672385,-5.26633494681142659471648119129946,14.0368589575309157022481604922877,-11.5048220160715032307716640923302,-19.1837058142913483836687343384099,92.6464892649257350052048396786868,-203.805901381860080905538160396722,304.096737468838014740891355954222,-313.084697415744701649690745096602,204.840965825993155812373419194243,-62.4290389158604040865189955149818,-8.46011269871093486352194047763295,16.4702023861949795207766402014867,13.9265076841727536915765470666095,-123.397194570246125519243170882719,335.075694204977653061339312382972,-610.239318307469666369935085933951,814.289832541277426685848972431508,-782.039663125601240519034248168020,497.222850089700272049617700860058,-152.585493914559652773335371060707,2.85784472550783551917547849417534,-43.8753696339561295210592034975556,200.987582635969955580020905860345,-554.782865357743737530636623746483,1120.85134677455923251668003085761,-1755.45047972129367083603615962384,2129.77846410861009094504171277803,-1928.32159817453391748064265601582,1194.24411089397690238278884452828,-366.075644610117982120052424655885,77.7416181475056337752960580482337,-350.002291010293233944344670884804,940.823596305963446328250098587337,-1977.78018208407358392101455031970,3401.01353213078732973952488829011,-4787.03644976452766628704488351170,5394.40129008342807746359827290781,-4658.88336489919222727529221280239,2821.43834788203439830286633420178,-861.535950370525629430105676132539,360.492913314043511040813650075515,-1423.92811399765419831489307341748,3299.03903312874653623889348398743,-6112.10164140015418317892897524908,9519.30549545402670297476096790194,-12416.5342876240907789621454443256,13224.3365873405392224373807179247,-11003.2836784145556791440616748530,6540.99445560036367116052969209892,-1988.16433762081553280799483059560,1235.84509505230268338200809262116,-4630.76915849990167661402604148850,9979.27495264787796926807251645398,-17168.6773711309567708413919324494,25013.4235244642024188568402915594,-30849.4547947818774616981834599881,31456.6605104800963565067233180769,-25411.2563894491269343951676599564,14876.2787363621865328715632402732,-4501.18644684681692197554071357729,3665.76412838323097308358700204842,-13337.6168579216587115105569166796,27506.1866443475331078820192421684,-45044.5026382851341258526643183340,62547.2188502458861947875407496028,-73924.9286459727980822982497866117,72845.6222724125375283222912651760,-57467.2199843386587043422968211126,33218.1637380880397557633187350058,-10008.5626471046149353832741235895,9947.44870156147099682116899706432,-35502.9301050862728476065450171737,71045.7171227982398663692077122774,-112274.005155216469195745764552298,150333.185554406292572119478246475,-171852.487296796822008684905431833,164767.956596840185044710217266846,-127498.319898787130754741663939841,72920.0349227832179139832007069631,-21886.4866025216127598478375161925};
+initializer_list<long double> lc={0.0328175674470255208597162582412784622L,0.0765395964796936552174990359420079219L,0.105978956565177222031980666194712993L,0.140310601853114280261725172298324597L,0.139641019215072176212939485486408187L,0.158674233643366085812596211153295959L,0.120498226386693298537212388918441526L,0.127532445365617437478995839843155888L,0.0519749352970820895559875415609083740L,0.0590791534885723739923653943192400642L,0.0158906577291249328611059309906672290L,0.135663066892107847096463939700460981L,-0.00965225250968703633335833308382281614L,0.323027830911069398613144314374211730L,-0.118282266640882225974211922369700862L,0.497445610630766588901803454974290165L,-0.300335456021138661195472037138616437L,0.618627238619507206782593207481732222L,-0.449550299767386513656998015005322419L,0.354634186812026207538881115864353681L,-0.314624571069011336805698728937065623L,1.28552128034561928603344065854064546L,-2.24087577700424406157742356566991688L,3.80247949629639990251328036801540183L,-4.92601522443152287471639367465367557L,6.59496157462381654537868992223218686L,-7.43593380029092399185351000979668451L,8.09691292130835596710040914011359123L,-6.69833219885581611011754338961058148L,2.99620151492781447092758559720866189L,-4.62693083988620584465356630458673291L,16.2185843267824252217833995276602520L,-30.9565785605927133562828148329796097L,47.9223431777085268165396426379203307L,-64.4903189055647871794320906520379593L,79.4720511547109642002711580460127872L,-88.0755448648414106796892128672785983L,85.5795385638194333901253306970337392L,-63.7857208801468345023740471877069597L,24.0258791309459783383125679643798588L,-42.1843948107984128449794870986006189L,145.690165981177182586257291630539215L,-277.770208089144841890640177631731054L,421.878864147866392871626780791022524L,-558.844146444963451560149278770393322L,665.940152040657135386660584154708191L,-708.901023248838478524349351436403164L,646.944647116452862160176662701786611L,-447.953526739671229758824695307533962L,156.625032877772025968779257966040719L,-260.434451575091491944504965803948133L,895.092262164934613259174466470024032L,-1695.66002634970597765170183764069629L,2544.90948497867984186178217587607592L,-3317.34048060254215604757527153644987L,3860.23522646497060290896026025192784L,-3982.16742554478344416706135389599975L,3488.48821602959752048644335204573056L,-2308.37096987117053505175830644776191L,776.822601474601841951683893681662471L,-1107.93229975560080900465284933057856L,3795.77728988260628194889109233318483L,-7150.66605488295085591934929813789370L,10636.5977476414332255596232461034224L,-13691.7993368583180571918401954901985L,15659.3543435757046515104532736550550L,-15797.6231640407772274772238228252490L,13471.0024256100356112122321287031330L,-8667.38783485240300550775364131775263L,2854.39358137733480846501969927845987L,-3296.12754312672004832676277882142774L,11266.7778931793951296418350640840762L,-21136.1270463462798476232461973440726L,31237.0021483740864999815210050267083L,-39846.8193460095584046686622075978666L,45026.2144448993386091911178916973724L,-44741.9062275776885472355234485589733L,37490.8903465790847992637765412066215L,-23706.1926746084349471166052499377414L,7708.12770942092626909566654392786066L,-6947.97608330955724935966529275954477L,23713.3043855130011957930190625554274L,-44360.3174583030162830599413934967740L,65279.1577592840324112841550126091453L,-82778.5014884962500527787039620059320L,92814.0685326955412794956243199687044L,-91352.5880119723869746731441260593943L,75730.7896740680044404991732282467924L,-47392.4540473696124331870716463243262L,15296.4492695735881582419208456101135L,-10481.5056551564576842162279875851845L,35743.5846750434011054743632519013785L,-66763.1164899200149487448783635792481L,98019.2450934502772474538240080488320L,-123900.230041870055222319769737844550L,138350.392521339695676568790404752238L,-135494.460891925636849958581274717203L,111705.654948041347311435314003695065L,-69540.0230425145523437615848698565129L,22362.4458367762542939287895471912269L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<11,long double>(long double* c)
 {
-initializer_list<double> lc={1.28345332952758638472288061054870,-4.27998592189246821868579703423822,7.59540310132982248202445534335490,-9.98511988158930735688704814103022,9.64315306442921509382222921834109,-3.73259896711843755102743414595024,-11.3877379351042301783325295897493,35.3405245192025745190283676696196,-51.3824872960459634688807488599685,38.8781588538839926989489633801774,-10.9618771956958129011353074516667,9.46855400714185898488325952178676,-32.0195893684608126926094452117956,58.5099602935733868374666854736711,-81.5126344764751339253072628503265,90.8904633696954667667601458004572,-73.4833239414790400405967856236068,20.1397550093682996091618900017761,55.0922277423269191366197018516891,-102.260776727703517546480457592070,81.8653510460428483581539615826271,-26.1790420341875388281364518924191,34.3884653395326647045295826763132,-115.615894779967058778804072514129,208.794768527332050442446429740071,-285.272151778686369266917924027362,309.624966820755386297855761414213,-245.293015237485983980680960011360,82.7160656156003978780546512910213,117.368627411720552656430239515185,-229.778103816755236050049277015067,184.536351625756306150145103173708,-61.1257417957347417038799491557245,98.1642087044809666153011777142133,-326.845019291852074844546988125066,578.987007651069395956124102015683,-765.920285624104942237323690568176,789.287057294551770149674884561639,-570.306499382819969209081268434451,127.375115412781210001811354097518,350.218080115231155203588280168738,-578.398965784749717693957375289188,446.040533667407034955589715059274,-148.340168050881728306592539339857,242.387267698402354685457149516223,-797.053187627089960370490093348008,1377.14428637131384619061017580381,-1744.67226072033933326779021593049,1664.14867571715485488836209363398,-999.371664152259082336553294386942,-109.975135997096613691374995900275,1158.48291481260314480300479308183,-1544.72402364900957359043058313676,1123.75508258960195699197431385103,-369.910829782762456155496950710708,534.715125331020604690216436688136,-1730.14242784561768581350336343365,2891.43487107758038662995214518402,-3443.39577960129826069157639209579,2883.59356477478899424394870243484,-1043.71434622715769798887599931306,-1559.52460031363836346566813882216,3697.85201817331709029131398747340,-4167.09252459750024422874650199143,2865.78391916326923340945844525493,-929.331967017572789898170185848028,1059.99977057688228527850175406768,-3352.02194887872848328960360255806,5329.35525135131998837772759463773,-5715.85605146951640499154079492212,3548.72722732407029681302069507190,1197.39105196781147592684027661500,-6993.67822250038438685361991863175,11043.3416496017877201971492641257,-11054.3183018267922725574060781839,7255.09916049836714746123437452386,-2317.88548181722775502590137011911,1852.21199940557377997990283674517,-5637.00197159849696870547564971453,8173.34866548751666571237586307839,-6841.49639920781736675770050122247,12.1626382976842242870652030827970,11586.7893354497751508898874865886,-23934.1825885079552404892451955567,30966.1760813318737265521894653051,-28538.9966541228482175531139894932,18053.7852301434253230723709446891,-5692.66002711195394365424810140268,2648.83579595469107522468053115144,-7388.81487939947103075880702225140,8206.57220819326676144272419076572,-135.922725682346782672537935672878,-19094.4939848027236223578348313847,46264.4698260124908354192614131596,-71561.7634813680661992011453304126,82345.1278495799800101519031708294,-71555.6590941751967093944774337891,43991.0849982812081634601762105666,-13719.3140295823967081982997874904,2170.03577909641615268507118864615,-3628.42589440264810496155405655121,-5845.91594461132273896165459115946,34807.8356074572550234074719325037,-85141.0796168832689768154707794604,146658.654494340123776337488942887,-196651.578540822095145685223960773,209626.444936447962791734361911676,-174478.586821245263019506660357624,104902.908767890774274461504876178,-32420.1813325788608478130673345233,-3791.10948404625746765730409545708,21198.8863785728157157296974666778,-66862.4933941434517056692975492409,153553.395660651827239907018023886,-278611.852098453149398535833869695,414080.236040913445592530257469735,-509452.248331011747473182990506778,514808.611701425689455612479338871,-414803.483334919804313513607250947,245049.163905091856060132231617549,-75169.0046370535616281162613019829};
+initializer_list<long double> lc={0.0281955806013214177379422478018633064L,0.0615251364035578825325774458639790267L,0.0956309181974373403041568421584019157L,0.112638576493316328649883491486400695L,0.137058074193624887223299904758291533L,0.128884373346666390670424491573684081L,0.141160641711548329998433438227407412L,0.104313234282096518678690904712929404L,0.108480535337717191093451922959830238L,0.0436313111593956899040051226815915486L,0.0493672892002895268051651872141921434L,0.0402956729514356318064754847502769066L,0.0192273075334184938701534169676335920L,0.178478703392832619159097121391877959L,-0.0185816256679933063692371646078941626L,0.322960692002232763905567974618187478L,-0.116806684589876916576431058699840054L,0.450281753643063776750990456617981924L,-0.268647645488138617714242673073757467L,0.535094486832245974418501189484506916L,-0.386140576685491376388483687245659196L,0.300306616192223307600030055144722471L,0.291828810496911270184956060590117455L,-0.857532624853558471759866829993716959L,1.88621498038844462314941654926824425L,-2.69877012552457366264470717419714948L,4.06603594377082028234991350441828233L,-4.95391598874942987614248039825668302L,6.31999098491875720427884307982002483L,-6.93059312437842772140144239950233412L,7.36556136583617090837270211490500865L,-6.00250917924090813754731111713390320L,2.64861295454876891911326848406653254L,3.93940531180526119388924323218944237L,-13.5278429306575641873437564680149127L,26.4009532068048616585142771756764187L,-40.7604288526637011999578210068662623L,56.3537507365262820547041017531546116L,-70.8671630532003113036352384660798509L,83.3422519560674207260210080963582720L,-89.4155222750882353133242065209465862L,84.7201938810127843425406568393515200L,-61.9673275975759789429106247287905866L,23.0221815523657750635394972592386292L,40.7590149226618738571081197591481181L,-140.976829246246518769063851350641769L,271.341815116950643230967405027857477L,-417.024874050973276991085389635687043L,565.125246808107025337200693986705872L,-697.650094831039749945298533361445791L,792.028746028301362856253994720829935L,-813.863675119296203024900651653520670L,722.684060060801501001634602630050752L,-490.007505128771773777357855032960512L,168.949323861528943738375698916963201L,298.551971499985265562692236392843737L,-1030.44903178205313563942788852799433L,1970.42876316390125029582701849365156L,-3002.38463978669697465312388603614718L,4013.09650863930786814804729943975472L,-4864.24023162984201945240906279867319L,5380.80054548634979597881079337865502L,-5345.01778008632748180729904226238495L,4546.37406347477506708419079578454525L,-2941.43804348648683237846107270491042L,975.777874507087196861152808840659772L,1551.00516647787397845759317233747965L,-5339.99991757763317208072710017806664L,10160.3696241020485861977396632894124L,-15365.9830677534422978814201029724113L,20317.2803685673587835003315976897064L,-24267.5570505212330653604916033314664L,26326.6031139637921589048382536543235L,-25517.1955080467456343759658125746509L,21085.8434198729729640093326452014472L,-13247.1818068731666294604775243470240L,4298.45042936615050057541257722395048L,5773.45172300119837554855544296774206L,-19836.8211092238228160660979046190159L,37596.9121042818477382050334910178617L,-56525.0524476068089145888188756148189L,74120.7335380177098581869577167821920L,-87557.1745676416089217828703350192851L,93645.4991540632207421369567017116486L,-89209.6782146039478495301304020552080L,72299.2794306917091905256762491762038L,-44576.7217794346828224150788782247018L,14271.3317165197888256877796567121108L,15573.1755258441302625126940579029307L,-53425.0059009481905680464350009258955L,100966.315649901636551515135814012133L,-151139.873072193387674221632706110883L,196997.372404426661223412270922123441L,-230873.993632915607892685946154269512L,244485.977419480969146224383259492399L,-230176.600310879576409688175150289358L,184168.869818070197247267563548402825L,-112197.241762091327674189465449098245L,35622.8689373072828125616535668861805L,30743.9866047139387379131992583165165L,-105359.776108269446671317352283406100L,198731.846688143587819383311548583135L,-296625.049046395779795625627364969504L,385082.420938657013196113110003136123L,-448966.655888032030905039032284809199L,472394.020898457065946706790857426238L,-441431.302346287286788146794304487241L,350394.207444426349890847937086918044L,-211910.596897260257645238433473490504L,66948.8412431467302620524285356671427L,44757.3307572055381737413936383029960L,-153296.260298668946651766241925195277L,288846.554377840778503978814394435430L,-430449.875697137207513064073217885142L,557611.540475008177234877230950431880L,-648311.679585589536301364524628193404L,679818.047224796372702842167663925770L,-632767.161786592161315051392817080153L,500196.132143151781117021287729078056L,-301376.882451321814522094830569912954L,94974.2439556360915993765707510933593L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<12,long double>(long double* c)
 {
-initializer_list<double> lc={15089.6077411712637269975142488895,-53536.9962448724198284308071615527,104840.018462781547348036721819706,-159648.115779110749515600044623695,206416.266092993910682466902354441,240636.812280141031376886408547024,-221694.604512852050523499542549964,181871.372682065601862679548023660,-128190.789961230705865007889834257,70468.6334160615646654576884379590,-20985.8179728091629386479821537013,-235265.376984656954350963862383055,28230.9710188627028076798864952847,-98874.2923646512853511486590311750,190492.731233182078104052256756147,-285935.713149721807389532238094851,365799.749635401750401805738605998,421386.052189298637802999433702304,-386996.777548152534200202392113113,316827.275529666095806793857583104,-223020.143638842234341065056512531,122501.067276339187117666580726675,-36468.3105542663351688543163561243,-413942.100364932102776912570109661,52292.9454372233683188543258498666,-181404.117583281461136661201335661,345209.211856214789343718256790637,-512414.881607542186743159657852767,650048.796101148521280028148578376,741649.553947451000720663956016747,-679389.050542365348376025075675632,555284.598527743555179896396350405,-390466.901885730330409861250193067,214343.197882029445452989319784134,-63790.3959580075569147367791212019,-731362.613536603802204071569135921,96279.0595493672265466667908700224,-331595.471001569431723774421192094,625079.376282918736400997238882680,-919779.734334581250944395153099911,1.15906680911111420578963056418508e6,1.31218860072695799894125014795477e6,-1.19958355742390954388163889863727e6,979182.343719706841341031417535276,-687993.472264430223281691457064647,377490.508124443768159328075669239,-112318.934465189244250238135987820,-1.29801526867685687500325814339232e6,176667.476210372237170210744928684,-605131.078376183526801240654979736,1.13240317651827413623386695659344e6,-1.65491902823324577640260773488461e6,2.07443213240388174917999268372081e6,2.33399790247409471920242322273323e6,-2.13030202563331732317437379723867e6,1.73718563370674578835155434140680e6,-1.21986836032178567581898579164192e6,669099.863654972011885512037890708,-199053.374229345164874164099371301,-2.31451210878320056171036774411408e6,323688.526141194669372628160700051,-1.10404861075333826556529136651965e6,2.05435061393382689365170679251001e6,-2.98617958277422843463166408598374e6,3.72748402298736546890103297975769e6,4.17347601997897283190062117969177e6,-3.80463483665179926265865788847026e6,3.10035173783738143590473150300052e6,-2.17624598501114329338920159290354e6,1.19342856127630604641924732802731e6,-355005.196821837363139233251313260,-4.14666509404121435036989172285978e6,592937.913577826219002901289714693,-2.01583779871611734980514594560753e6,3.73442579298146991753137569162797e6,-5.40548849317012111548344069274888e6,6.72512968630238708546681463168500e6,7.50142154125735209514337989671080e6,-6.83252460415096072238680978056538e6,5.56519704922937583420712137562504e6,-3.90556535903779412010753363085849e6,2.14156821151205508031582179978465e6,-637023.570630328985256742945870523,-7.46424021681935573729225193425737e6,1.08691158952958555078838992972864e6,-3.68592382923536253479715231233254e6,6.80492317255784111657666954242044e6,-9.81761177562096121801164839405927e6,1.21830303656060615066788679852713e7,1.35509532814989528483366014342238e7,-1.23356567159237114544016062401250e7,1.00452510309818774654357948295580e7,-7.04919324158584086195962097179524e6,3.86537354895069795573845615908684e6,-1.14980368731510075882795250347902e6,-1.34982536049212982386562992437886e7,1.99503130796916227362742953344889e6,-6.75237260049050487156858673215134e6,1.24330683465505689069926351582500e7,-1.78918818746786295571712155063310e7,2.21591209757328536627495098489617e7,2.45977340807546992095063027236574e7,-2.23852172645236225301885337663312e7,1.82283647034072501129245484467366e7,-1.27927556566330915026709524155804e7,7.01553026225615558725419530822330e6,-2.08700027699722278076129564275001e6,-2.45196218826693977177235201805281e7,3.66820807125670614428577271924756e6,-1.23968295392537683567812659004069e7,2.27795837138188649383712588249625e7,-3.27176607045688469710918700238267e7,4.04619523742295002719107271305204e7,4.48570675947578613566743085665823e7,-4.08205367204375772041106130430976e7,3.32455559164270620608099662348981e7,-2.33369670029808216249566460816808e7,1.28003396087192342794296941461207e7,-3.80831010819175456620149416980085e6,-4.47324030941647081814208342856777e7,6.75806427148100004564895806218890e6,-2.28131018672245712597686860432526e7,4.18551735986358172923218517609432e7,-6.00291548365117788746480576164039e7,7.41623253858293769372819976902042e7,8.21651942034578271131653018026574e7,-7.47851670328275326650352087627687e7,6.09273182190745587993423504536959e7,-4.27827180431680426865683684961523e7,2.34724629113263035968975641232769e7,-6.98449874558103115114829740774126e6,-8.19458979639261655645198582173746e7,1.24774865770276099141477113854943e7,-4.20842554701771512598430774577837e7,7.71243003396692450092868318410581e7,-1.10500370394579456660422390226123e8,1.36428323355684144407955941895708e8,1.51140394155561773061306624280383e8,-1.37618632140711930567817502465051e8,1.12171290232194631794338702852702e8,-7.88005368711531526217271002889828e7,4.32475425636328033835857959818826e7,-1.28711893214967941379531241294378e7,-1.50714352932616521810930426075388e8};
+initializer_list<long double> lc={0.0233281566956188775522399102830555736L,0.0543783743863037803174945798794516247L,0.0782535189933838709980127979879973865L,0.104426520089793416183241451439411496L,0.112687354269653393627351449797933074L,0.117609455720977520309990521424119586L,0.125449340512925221968331464756012192L,0.0908550857590878789696237550135724988L,0.0932422066721440064471414406601094725L,0.0371272153639414298242704819638020745L,0.0418602723044925676733943694486021622L,0.130002182108318410783633232271292448L,0.0144677692062439551087262190313149110L,0.0853674131059743827127190050846357017L,0.0174984205769518905071637327992933732L,0.200791525845281428013328656382215356L,-0.0241130562922793533759346175843801509L,-0.111792456318908030751865966242131638L,0.405475006653953207186146903452398746L,-0.239885383031302306080472843825484330L,0.465946774509921376058359129049782368L,-0.334461287936941243166557070691332568L,0.257291476595347602931268957678856351L,0.311355168900519662517884961805283785L,-0.179061490731611877850722789648610824L,0.760807033909948036580913430232402205L,-1.30135954792724523564810971427644624L,2.27902446475637221777679273243011881L,-2.94511840608342831948669168076825100L,-4.82614694879555419319524086267951386L,5.95100090444013243909431936854294180L,-6.39460433745527525694878234095514168L,6.67341389621399769728422253614039253L,-5.37628988018880655110105525432584308L,2.34764964416764797882876379656613843L,4.12573333059667072114714386213540388L,-3.23467776008116898904110062656805857L,11.3973239299133885688452210867638889L,-21.9661820200534489839285646727485320L,34.5831195579366506108694157087254468L,-47.8092720322751308911615809403056510L,-74.1420222426271753120164771779210819L,84.3608081276651486956455196808838193L,-88.3741489189486123006572362734107018L,82.1611040004586778597846541121767938L,-59.2354794497851477388235254371143403L,21.7771312734640990600898777661865455L,61.6886365571894106967454455638616042L,-38.0390645334562832030315128308598807L,132.216995191378695970310315882420498L,-255.472084607212462994543856461287491L,396.619778228188612704374272556839457L,-544.575355804012361692025395499425033L,-810.282458121830498257208497937319083L,888.777413966756676413862244320180129L,-889.768722913469234641454848163940298L,773.925699536788114812513990015236824L,-516.409128008113902561300406075126870L,176.166131743485611898418264265215853L,688.156879571997941453209084159744036L,-1985.43011909223597829279582584638624L,6861.39866639174920306827136730413526L,-13149.1689143067596325284125130729451L,20123.1975357598602756598662389787142L,-27102.3617127585101825780104410009835L,-37822.8339937089548782778326345401815L,39505.5219305779793335941812261464320L,-37169.8064270235596335645333681349747L,29994.7716247056872853484517195486452L,-18507.2697895644996388682728276943123L,5938.72417524232294861766689506038886L,33314.8196404811766322791563839361997L,-8955.63781022067703510079335621374527L,30891.7721006386419001609848723848775L,-58997.6309018638181932079050419126029L,89815.0924645456380071844098302568769L,-120080.363319858490629334570015608166L,-163844.568613311503644456012828536336L,168434.016262691528138567571304105210L,-155503.741925380518775484929027541279L,122904.110246899778736623958334734815L,-74355.1711869494045236356675000542722L,23532.1266752401790367591838569247356L,146161.679923318146072020645917228208L,-29855.9346447295004048257219066674511L,102834.160234198440169308161909839815L,-195860.855463830653875696038741977447L,296945.140523522166108797114340927527L,-394755.942269314224147218470280246146L,-529546.509661720561837309894513788358L,538099.282186070646598345640385375627L,-490172.848230607866652927359830241260L,381941.292870875199538837496417082642L,-228084.427442866247764549577695258744L,71549.9196981031165797405625735294421L,476908.515859276628996221735692633824L,-74232.8730233090873677309785514245087L,255403.276866511823672138052635581531L,-485464.961899395657930159182638752263L,733781.454459325848607642327651873057L,-971423.297010108076032748651120518019L,-1287287.88506291387306822091428320944L,1297474.76208055414312176384718011066L,-1171078.72650752114524044419771867958L,903838.705122243398431530833614311029L,-535173.077837413742881687348935480833L,166934.895044889363209657191801865557L,1167229.61271847410263060253881123941L,-138729.649846245588993922900982496593L,476954.432401784833182817875336638532L,-905346.057949097446280073384752287493L,1365638.69682085595015755195612576122L,-1802880.07876336777880590107787773661L,-2369912.45314122601595454053809563549L,2376087.90530582980319338639205094198L,-2132025.08772706788731437349705441803L,1635648.47144194764833207832648235549L,-963392.422856155625188494687985057702L,299468.215812935378349538925029533614L,2158489.98055843491455936095095533414L,-196015.227093714912924667260890940560L,673629.205345776836766330452332263769L,-1277715.81989734302232277817869849524L,1925182.11305754641633439219919353357L,-2537730.71976783532958444800910865988L,-3321434.60984950443266291699586776052L,3320732.91012676883407328693921045408L,-2970384.39505206165963823058443587674L,2271672.56283242809063108290127477413L,-1334354.50586647882958705818942570219L,414041.320183921449500164065954502511L,3032379.15676081368277446800573645214L,-322.355719911248324911793805608539276L,1116.61435478709534859206497352780073L,-2148.65117049045004248261343084386789L,3309.53114730108432155001915411554462L,-4497.75967723878709783154967333305052L,-6460.12433074750405286812858408293730L,6892.32296221338715194385568670026957L,-6657.53515065960166488341978242832584L,5538.00716104243643291069976173899832L,-3522.17643798057833685786865155015797L,1155.81583313963851788704942356953236L,5597.74841184027201249394870751000126L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<13,long double>(long double* c)
 {
-initializer_list<double> lc={6.18176128296585651431497281229868,-21.4088030061599777549484032729396,41.2032239687845596694728666761738,-63.4925321577773207362388980947601,86.3571897810684871346136666507078,-107.376323509645066107188109699651,122.748985604790250260686850137561,-125.821025933731221721350641927848,106.229079052892702036295501226120,-57.7526517733357370831992229009417,2.80796017296110886466495492110461,18.1708135972188138509595955089030,-6.83976860739174900281954676113182,29.3715050623387684470027572718344,-102.458687630185083384937249125815,199.730079683471677440457023026257,-313.287981523747843967636071957559,435.283609024639885128291397773519,-553.316659533304449903135899854425,644.617014804846142554402250378795,-671.512946000560933525303240085486,592.414474957434794276964958785331,-405.397306014535834138580289873806,192.298188003645367255421230838895,-57.7355397268278415849095543304905,10.5021886373958117243017056266526,109.796819222652565509932956362379,-383.654439845620646074332141981135,749.646798473143407540220254254825,-1177.90902593643831084103945873768,1634.98888025749766493500806048144,-2065.08918373553772654497109080839,2373.27152365996178647401426575764,-2428.28240821921111495562837070537,2125.01151597490212799465359920317,-1509.14992575826129732744852569438,827.974187706390957432807178377929,-338.771145183342314667239495626082,82.5077078986521267258588636215613,364.401954968637154218231122282557,-1271.80909826366700920727229954761,2478.21640893483550305152313432620,-3872.71611269922261506000245035004,5323.59355927527735002487662283664,-6621.91504358561600654948777304339,7452.81646658216690870427715056826,-7451.89638293175478476430243125628,6417.05041467219184434157550676166,-4587.76010387560030270007882856004,2635.93729272135220925235299737903,-1166.60756701658194498885644215174,300.946214002136633333238429609403,1110.79189233423138258940385846226,-3866.30184334451451028218878622838,7493.29352088790168951633861250514,-11606.4586260758519358362946969648,15745.0210291829313373269832896067,-19234.1396904612381458065558061619,21174.1547851162015706846519838163,-20690.3178434443890340265256211797,17506.3965182655434541645882066747,-12473.8653002940024272424737056761,7292.45935786014518749560281023128,-3328.68586831762129404068217614148,877.860102844354449419191284854018,3161.02032177507813559289926500141,-10964.3493824537437963116181308778,21110.1464575028362714434945330750,-32364.1647395409989947397328442650,43278.2882637445567887630809913092,-51901.9534222176241992660239284948,55922.2707454204850212995964618209,-53464.3405854061391824806188529721,44445.0167831373896569395467731564,-31415.5750374773712997341616629642,18452.4160238141046915712281190431,-8528.39532118778753390726671880366,2269.79462604693770452027151439691,8490.00766350392082721256189847668,-29336.8868750642338453783871334953,56085.2395004147165809155544548837,-85072.1387734536792179399167913700,112128.402231602625940668427631900,-132074.219978286754622374215572421,139424.996683648068971573079965284,-130566.051910501593915892187690820,106640.585242934873437156592982030,-74553.3496963915032333254349411291,43673.3110434210987032902160202129,-20238.3420851491310454964644048446,5398.59790906169474154003242121813,21701.0715114788116311134877578281,-74694.6450482564853545203889477978,141774.993514310743072441109354167,-212768.931786630469289890740130292,276492.598490690282184619091392570,-320079.347134807841919887159267228,331357.217692461408619507753960314,-304161.301074597363070937350937284,243983.247241247347372713149815408,-168255.310189957191787398613371065,97756.3411377407112798610511957141,-45106.1141708361140432033726396208,12000.3129480294247063445069704261,53134.4532335960797141761792256160,-182171.241919160152494634331286410,343302.081579090130369562412205927,-509820.807280470630595635889101318,653408.896059735369290177128706426,-743800.778542937348719704076921395,755513.715009430706290807095803861,-679849.177079528331636172642835853,535020.381472694576630315623257823,-362827.156967477125520238050467350,207941.321011689110505169658521633,-94917.9017130505049146905651335487,25066.3344108193497365611609030378,125260.221645464650989303276511887,-427775.383558202621694128131288603,800421.970057918868148462675466045,-1.17637400052070059923049399661480e6,1.48728940126686937453626759788493e6,-1.66518292700380066818988699038920e6,1.65958903838150501805882031164568e6,-1.46301936029668083674363423236896e6,1.12727794170133096268629200010303e6,-748623.139641324528492550010613683,420421.710974803979726496073276615,-188363.541184953027412329491376818,49078.1763737082519043308250946432,285435.621256880168097672100240963,-970970.137533427296022496082986284,1.80390490931779843101413877277024e6,-2.62377417868842167164438242346562e6,3.27225391169729268493759393897235e6,-3.60268613960207330448571494256314e6,3.52078183805347001471628905531302e6,-3.03572068995387635182045046975868e6,2.28233082017965587679532530032986e6,-1.47506860792357783427356743267697e6,803962.169860904652893185302721120,-349385.312718931168465820607502546,88935.8951921271130894231838923503,630588.341479330296000378095066653,-2.13655549975080224050255855594220e6,3.94075433118392033309939261753250e6,-5.67147201365465580458931512697987e6,6.97477615211067395743818446305069e6,-7.54579103786820762601810551614704e6,7.22003332146390328825210208677094e6,-6.07070801759000314929402462067901e6,4.42837746844219411181447561886714e6,-2.75764092177604552736122791281093e6,1.43532802815457896529935265802916e6,-591985.665722056446007861319541722,144295.605122199065698044194312577,1.35339451820168590660471632236399e6,-4.56673844274125271219955966836727e6,8.36015671940810432420536505632625e6,-1.18996320457077296915500087428412e7,1.44187945516331407005332856284268e7,-1.53059464351299216546769646903615e7,1.43000159163783794479236190271853e7,-1.16657697633335144424944087919689e7,8.17886687936224856409502137761671e6,-4.82152568873485756279140058758120e6,2.32135807933757355274280830023582e6,-863429.147652855199807858655629008,190454.944196912004157059317778034};
+initializer_list<long double> lc={0.0204331456439523089061998061533975250L,0.0453914110196050645132940540521594179L,0.0707520398295166477820460076744223419L,0.0869793083241394646775968082321827061L,0.106895857565537823615185088381006612L,0.109150250501324240974435417362181640L,0.121383432372942806912043242248912281L,0.106788083834044745589959402121811083L,0.111675108892560781758656183079479642L,0.0796481501228439582518224048977790365L,0.0809079180114817089030141736290972127L,0.0319641427602262314048479721255282750L,0.0359396237625301419744847156384874214L,0.0270597354612521833693732997033890350L,0.0222069160674295297231162804092002783L,0.116234553583701987055381783579639408L,0.0147730994206983176433285647766477862L,0.209525192849117041879677596403064338L,-0.0271287353136943890503684442992998139L,0.294201900403291138986143538218908258L,-0.105142158779745785577260734184545326L,0.364681206006538024840089499629497527L,-0.214414173319479474502644083652782940L,0.408491535323382423528221981907504490L,-0.292010333239164324115378596326780201L,0.222722061925184343617045395585197404L,0.177662425185134023415583970543455572L,-0.503874192904253616051848031323021237L,1.14516804381669689161666782012930799L,-1.61090410037066776209764080374458308L,2.50367731921191729166051959453584096L,-3.04160146530603304370680431971413644L,4.05776251262320347573885453466573962L,-4.61214746347922789744226753031071348L,5.54627852073912285571563422334689277L,-5.86871881050645533398685004732363486L,6.03940810184853508355276642931005409L,-4.82192100379454007809141604906680956L,2.08842106756991315327969696416017773L,2.72629907907617433104009435470967771L,-9.38874800001383831447671620505138915L,18.4561382425757277641087360668694607L,-28.7971433684349890518900501696893224L,40.5295344969340417811053716292200703L,-52.3712608846989261692550153065656998L,64.5194262817376944133049066987195495L,-75.0912325206505583578502816684841269L,83.3834612660812499746416926040457287L,-85.7811389039830163294421035795923096L,78.5905118645594683508570347797392813L,-56.0254232694308338697567463300596140L,20.4284010465276353672910848226409360L,34.8089676392357949689399679058328147L,-120.989268252231001287600835434685075L,235.001021580831025131449912114784503L,-366.698099303241153344573247977687316L,508.778555740886892402839943571389482L,-651.893634797198205413846627729518237L,785.973903765996319078633394114586239L,-894.780828465872048755173372812778802L,956.742277434502095217916035942617078L,-938.958112560948537614025812039924064L,803.736340879372893222745871302074325L,-529.626342450542564912954984574273308L,179.180972413690267879210799191518540L,333.027923084373893845085117469907559L,-1156.14144756814047343892505687803067L,2235.54220960454138591736609816789235L,-3469.17301684214929365518633091247071L,4770.30328475569608463912827606922600L,-6042.10994430480953162973272202108519L,7166.19224662580484837537423129441373L,-7984.82084630085164815468597999668341L,8292.71759960554417898399814363321173L,-7840.71320059121817194804664564290003L,6410.51190854085934301748509092292721L,-4023.05210724323167459495453496191701L,1309.10016147560349124606154879495945L,2372.65957622509321195528330422742000L,-8222.13378378985340086232122455282770L,15841.7124299317362609561222060460034L,-24452.9026777524136651438529686203195L,33368.4599605613250875754755154391615L,-41833.2432109596707091117961320005466L,48941.6605941511036416131321226226321L,-53573.1394259927363362093912892855261L,54393.6075096359267389353145113532474L,-50026.6432634350779854497763486998421L,39634.8427866821358663933807346070963L,-24115.3881382525980414383442567246133L,7672.00764299502933078677382558811454L,12634.3411479771970999182370268775811L,-43711.7948119864029000310034903886732L,83964.9440587545656809736973873504942L,-129013.569232927366932190828793876205L,174927.525217686361735527439634284598L,-217437.198733050277930807656821734977L,251577.951816240041130517450202237995L,-271546.667912427993571620410086350295L,270991.701764595529987358708067303661L,-244254.886963925040466250507374546350L,189344.952887889000375192976151712321L,-112888.606611523819634613982356089743L,35412.9226018561829934229132172801416L,50624.1627708920373911509637605302481L,-174911.510046350626838238173613154024L,335145.153472322053422656657555860774L,-513024.236900011147111288740630420241L,691998.474339736612586213895825988676L,-854300.799844897696161281280602883429L,979853.377078888900675110691844175716L,-1046266.35437020734126739186264130054L,1030739.33069097194037689808319671043L,-915555.433892034971462335828479741751L,699014.838434282037494703361409089054L,-411103.524735277481401705244429209098L,127788.247248061200518933915760780248L,153812.733917820102708688932728003294L,-530870.483605980459397395963979918641L,1015189.61542207023962213214593208540L,-1549424.19806930973926550686141655025L,2081522.58658286065856760537138206834L,-2556217.09735660064709998346276253518L,2912514.13871759606671457214823585441L,-3084914.27264591342618686977561765073L,3010550.90129008679104137949477770843L,-2646313.23939230396427586466098205647L,1999129.37857672028836046831610652833L,-1164878.17122349093960509030328972996L,359899.928961114748985974940878496527L,356980.476001264248328245184656768703L,-1231100.97691396117690478051602083378L,2350792.21462626096820835963732511356L,-3580023.77729891059449973603753756988L,4795134.32249587648965058145514868615L,-5865997.53308194742802973559595287479L,6651592.67123165682995428536490685855L,-7004743.80634651509614984908506736270L,6790518.25652543151417280157438791275L,-5925873.73590200561678565931478010959L,4444484.88882408415021510562322019310L,-2573775.52830887622388480955787517380L,792014.428936687302380147664691636518L,636790.316860662337036390580906650040L,-2194876.17013869938629769845306805934L,4186954.93508749558993305733379164154L,-6366887.41454231203528101478105982745L,8510799.33904236777093835258135867280L,-10384624.5720669358653358093765200674L,11737862.1189399888197205039743278864L,-12314148.9506376535707129066268403046L,11885865.6439385047785253742586918391L,-10324154.3017757307898597143257755634L,7707827.92757400373910170254354468025L,-4446204.77080068364669539486170754873L,1364797.85731819187041613975562391900L,877114.793751288679726191106207704740L,-3022322.50724049967518061354694563768L,5762252.96726138966274498223806662941L,-8755276.18843926275494863793773518961L,11690627.8192302267916659102703104752L,-14244575.3419333946507294181098713355L,16073051.9687628220548843562508756714L,-16827728.7404101123490068932694535182L,16204836.8922257045040998472998234208L,-14040836.1397611416064937743350154734L,10457334.9588265084248745039939777527L,-6019951.72890203696220119085490691749L,1845473.23872003523985881163108114202L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<14,long double>(long double* c)
 {
-initializer_list<double> lc={-10.2910491201745120760288238798559,35.6649932160325766216087854954939,-68.7690593391070322239773060026256,106.433249186057306353358226526756,-146.143486192263888634426069128872,185.396425039936284368298552881784,-221.090120196881314572561012603924,248.301799929366066500321686931137,-257.919153498239416344068534306548,234.545421862513355709039423111380,-165.851313176512109847948190194499,75.7307225154488337566831859905406,-17.8050930492445916823977585640482,2.80352091872003590267703510993137,-37.8146707034560216471931849212323,132.338523121893426929513326063090,-259.733684784192489963103004338320,412.461025995191069984437986601516,-585.586404894057694504223037784489,772.931726435990663436364108569125,-961.633253188619398000330484798036,1122.46223959614404495430285323460,-1199.57644091701316877767462604961,1121.31552041206719751305812266943,-861.453302899804054280584787445832,512.670772995702358558819040712771,-226.530722086344361000602291277326,58.6555525288880038328989934589698,-127.533527567558068145717068367897,449.176493725425051126095582527733,-891.308807027209532727550733997805,1436.18387126051936278669882594828,-2072.38128909747376426390596998835,2776.08252331922462692295432742709,-3485.35745561204618618254409204422,4067.17411303625056526637777473430,-4307.61478053183418376256732189741,3993.98336654513992651988387713234,-3110.01615947563108468749394495589,1957.86729941395747808229622248384,-943.914202007712387367735753316161,257.998792588929115675522030097295,-419.312810579804814593111085030069,1480.64665274544785401063865373233,-2949.65192304157869315077529318076,4771.86604845340577858550851665759,-6900.28250086299159659038787191180,9223.25105430236863196001650975965,-11480.0053489859775580134649227593,13188.4334419175073154991183962936,-13696.0362204070361748938844096057,12495.2164277683483114963516278659,-9710.66891203171241983336541072945,6230.48028130710408760732835157589,-3097.47691771321460217772884973423,863.797656097112537509597933351987,-1339.00310263941210727628402515108,4725.62434280184697359962248989085,-9399.29190846967954289849770048559,15151.2885643264611953099209732721,-21758.1474421982417075196197877979,28749.9844066859916243382265333524,-35191.1432420428247004905999911883,39587.7822848725395283522510871240,-40213.9972170044055749449035953399,36047.9663581223029295847100275185,-27821.6303942169349063666030589004,17963.3276835691916776106000917608,-9049.83293363325887593168958371618,2547.27955263636234937883135119179,-4106.28213009044319256162406732297,14457.1806257640591708874009351260,-28619.9664553266956805445193727088,45782.1593799479931736257968893111,-65007.3010965651290659364181592041,84584.1318258387495427664530270083,-101556.379215595866583452704190150,111783.504409719790475528884473014,-111149.978578375267179977880240155,97965.4592767790556120829488690679,-74967.7840375493932424312521951136,48442.8287714816997597629279454646,-24548.5740092550839834425666630359,6941.17487665328518501342424208789,-12028.9475136183700422887105556397,42212.8729024573739880055814938479,-83056.6348642026850456229409460827,131630.981157696759461999979766330,-184528.268990152725810908148091643,236213.661496403938985015239723131,-278208.662783639132635278255608910,299959.283374362935664645007412836,-292452.132584528075465530561074740,253777.860221333380873926291944072,-192484.901618541117920224189078120,124147.105816814914938433067311885,-63045.1576478192448136476814294152,17863.0908913948911992358100505272,-33665.5384543048312158658979689882,117722.830992710433456361987775251,-230120.732669742193398882220205942,361194.394175960216709447862988387,-499866.140965830303157914143308898,629804.977509051486575684121132708,-728450.831141326344952439238089456,770630.830482684409308943600205497,-738097.963772351945331989238733563,631449.719276302856561767380285968,-474738.473819861987392021792985887,305173.151354712715846369603499371,-154973.169073915456573066453409347,43937.0781309011444354138558335579,-90284.1418115437981418277820443592,314589.040108267087769676009874315,-610987.121512695244439409013297854,949996.932244973229010097897966123,-1.29861047556820315466439475105577e6,1.61197599678716421893265444102803e6,-1.83354094495486125241324005652777e6,1.90649654385793121049897216844349e6,-1.79686040748350440382596650597093e6,1.51730774721391092423589130639468e6,-1.13093026467387249273443478671252e6,723914.839572900093906717352267418,-367116.504437970604592569191139868,104048.878817886597186834222827145,-232926.029018366388565809734235496,808835.157758221436160756691829774,-1.56119024341736888582559084358226e6,2.40577130399186894658932425730686e6,-3.25071700325562888918646476931183e6,3.97970003137809377640153646512347e6,-4.45771966992559199321102923855428e6,4.56264228605076153961492904275138e6,-4.23751517982801615962226426767256e6,3.53507687500670873037895259326751e6,-2.61249724601737300487201496509078e6,1.66408326422924393939065554025013e6,-841917.241591225623948437101112553,238373.801712336430673073747044597,-580415.196636564937306662284442039,2.00891680998371169713254683946748e6,-3.85483132903219786047409861218021e6,5.89031655586515519148797316502053e6,-7.87335614627836301906415308516156e6,9.51604149744950038420167367820956e6,-1.05091077567252059187221590618153e7,1.06015075772588193988559028080866e7,-9.71276921979597256650704795085019e6,8.00992257767088472442861387877500e6,-5.86905598806086503622814728861305e6,3.71779752462101482920853222180608e6,-1.87497757673199836693165961315188e6,530010.768419340827604867878397507,-1.40203163101291605392867474300610e6,4.83765274514607714980715759916191e6,-9.23131935935327764401527248252587e6,1.39941044744811408027984866208683e7,-1.85164566363311182088679778238971e7,2.21131597377726123494265718386738e7,-2.41005827092396702341742281030130e7,2.39850437755133928084379744537103e7,-2.16930080735466903871415172982895e7,1.76906989955309460357212804375212e7,-1.28491092345788721286190371644545e7,8.08895574959350190169803914191994e6,-4.06315688352746404051763763497436e6,1.14604914000845661398108164616212e6,-3.29346623196939398018625123624224e6,1.13305077553145677347716393847357e7,-2.15073328660107436862470006818288e7,3.23593692865303477700182478094103e7,-4.24082436774446028030330824742114e7,5.00767803534740523999923169338623e7,-5.39011673015979195508110748948686e7,5.29552526505326896461320029428955e7,-4.73016933034785293944500230069160e7,3.81462894139935775945088491313633e7,-2.74516719793150249090771918397724e7,1.71603295062375451121376322393359e7,-8.57752261381901325531203805034596e6,2.41256909162304025762132772966568e6,-7.54380568648201912072365117238206e6,2.58797849901037752176758863697480e7,-4.88772258174120580338129624538280e7,7.30129212398209138308048620758100e7,-9.48151345262370629077894301926843e7,1.10757923301769417971803390185646e8,-1.17797404982158366129217538237773e8,1.14289160557425782185515366808272e8,-1.00833420853638306926940199787296e8,8.03890783601721467158433650741888e7,-5.72755599376425278206288460340491e7,3.55128937809771679241185184440344e7,-1.76442278996533607623199248826080e7,4.94501755155542945215632697547358e6};
+initializer_list<long double> lc={0.0174158699793956314306931722758618030L,0.0405828223135295227110687140771872730L,0.0597693286281956389756963248928893000L,0.0801772493513405787893486223011173062L,0.0905213861102283190705016281421478058L,0.105599557126505194297435789037580591L,0.103798765625885265847250050662680237L,0.112385527042457173405638227286032405L,0.0968193951691977022134089239729061452L,0.0997175778852083036599575880567703896L,0.0702728163615292659426737665176523884L,0.0708087222029501910067892235933768928L,0.0278001393892380016938717319105540432L,0.0311889384659330415348676039212170184L,0.0123667407658761515986608397299306464L,0.0582525344713895242476021481078416904L,0.0250906796670779913692315958777531688L,0.135264796213501201127221034678437145L,0.0121632718976290553676641735897676261L,0.209749023806753257923720297328897201L,-0.0284425001817954859839649066304334466L,0.274874637121962144102321330815785020L,-0.0979239867214662769672504036664309641L,0.328304354372904476126691370988164589L,-0.192115069164768582844236152642332205L,0.360474535856847076807939629568476330L,-0.256841257216424695712626061240306493L,0.194564797278727404168829533805512561L,-0.106155379954016426556548781834791346L,0.472525570665578794461574695206860107L,-0.786100845364665184380642612859640247L,1.41922781381024562490222961330912478L,-1.80456957388167113656816898840905750L,2.60622518023725586553165951998857038L,-3.03830924327896217931864549388990348L,3.91456575347889998990884024150544270L,-4.35594692961714429708549415442214617L,5.13907065757639824994303362136671065L,-5.37320525026796697532514040149366633L,5.46882867439232349792256004674936146L,-4.33512211650095871120939110804474175L,1.86536503116980039117923643150267927L,-2.22998694442142876859020084127653732L,7.88432193829431529070539646652669545L,-15.2561457528247143735629840611750321L,24.2167969752861711725531804824362398L,-33.8456142426992641889194336747669384L,44.4716041495194962866202542726408189L,-54.9184108361756613498954146050184738L,65.4637733167782262882082252107606157L,-74.3955105783113488916017211564163384L,81.0893631643183405506590833483088224L,-82.2505669328927736384228774322890238L,74.4889169483526445563632436006677817L,-52.6256474057275369312145166500699680L,19.0634597480976912620237551381616708L,-31.2960446767777591971572419301671534L,109.143050349545941829567185978054113L,-212.297370526597025034930517747520557L,333.088339142820806760329085654828364L,-464.809075047493675214036678597822595L,601.908568077669567002777980083043461L,-736.141391768679555010947570275115428L,858.276562007047843698334538014271809L,-952.896613978757508067888350283951014L,999.182259034772715215440167509475084L,-965.491733615899873377441750087910425L,816.039029363580798847798852287958070L,-532.395591841736263347621990480492816L,178.932389162324908849793644516073492L,-332.656367877773791432950817287155104L,1157.17023650862992683478173944583200L,-2245.01584093130721684105276520862300L,3503.53873376895132187553368271208337L,-4857.14328598230295446356558006360295L,6228.21887513745814683803958420511110L,-7522.34921280290949601178553929798941L,8619.15117615938838618969314438146733L,-9355.27061607314854699560151436149150L,9517.13241748333291659352498573445877L,-8848.88588213386110505756730749332297L,7136.48164142928079205820418143154276L,-4431.40731448727343483447642832737942L,1432.37588361707111036700479821698478L,-2687.50363703463341025865669568568883L,9333.06605092209189761778139564513163L,-18054.3086846026925539142749941967471L,28047.0547398697687537445181643622974L,-38638.6965130071070057539434657692846L,49121.9079535199536046308248047693063L,-58663.5573834721591975979586273514245L,66233.6078358445197425746909827413611L,-70545.9393535923194373983473696804153L,70080.0015781402938593264888448467088L,-63314.0342447458330427706009781713048L,49438.2440123382366914581850621240181L,-29748.4166416725735250849652789157179L,9400.02026001809995159522503295664965L,-16534.0532070552811862671967108189059L,57336.7731611038400928856390105122440L,-110623.835152070137179697378417336181L,171168.471709278880707333451280718504L,-234508.159776661374932481468534269451L,295945.040460295416690165479567224765L,-350072.814138324145710947253678674481L,390474.435506982646077437562583992326L,-409651.355524383357712789363773869327L,399554.808175750444498010211375512911L,-353417.508884690417501486721789391590L,269808.986375708243720728413424706017L,-159017.713524586130475979475644275558L,49538.4788461257265849191344282938373L,-77819.1884895521120780093027214419427L,269532.546391286605304224119393198579L,-518861.068970021692407048468206596215L,800127.709832242063739824168302559177L,-1091122.27195255797344355526052932311L,1368575.16372555859510072475064369945L,-1606282.41764199835892387477642803044L,1774279.68060092711533012721109538284L,-1839476.99520590991642665450108914550L,1769301.66364166639927104921815250956L,-1540841.76677199712627399575447083198L,1157719.07814708421340924720473991191L,-672767.892346390521622278549534840841L,207637.418595847172965100158488860600L,-281930.153102852529654264168139545732L,975504.697159346932336103369269474066L,-1874416.35105710003346249834115932226L,2882527.17843199143582008858525165818L,-3916022.09279820480714839442232756838L,4887655.21828655002088534871696368167L,-5701048.39850433848905814279105462053L,6249426.71608817574909572326924519044L,-6420324.86252383108001200173404508912L,6111088.55047981882140215666889937156L,-5261773.84310004935759364967307242771L,3908874.33399453482821042168735425154L,-2249422.89253402766591099509906213561L,689863.656804304354167149914522441171L,-791349.558389494458271179784235641880L,2735963.31580742540615978491369992491L,-5249430.03504368221872890476908101113L,8055162.72315288962214165700819857138L,-10910904.2190419639939399191118368788L,13566083.6412171030393510788623453001L,-15748276.9778464581061198887539450247L,17163279.4577677859311624565156274317L,-17512806.4731192320389858004744081209L,16541377.2554210645145317683380208053L,-14125918.3608469431682163760213838587L,10409997.6205909126888583503065036365L,-5950098.43917427021260531781893320586L,1816921.89315131540050502586343797341L,-1731324.86042942031790981488052455114L,5982207.19566154525422785823044366334L,-11465391.8904275045045918802302759001L,17564950.6862426183410627975394483505L,-23739964.9730314841279209939344824507L,29433952.7100053584368649533390668923L,-34049285.1208282596014432988155770916L,36952927.3572621821532203676729465055L,-37521460.3822583678573775770586877553L,35247245.8580372268057478991083364508L,-29927909.9189531136518607745798301077L,21933544.3628817482778256134417437983L,-12478982.7275535894577338012303494629L,3799493.61699171778477114799263903020L,-2967133.39333160605984782059447855126L,10248109.2058868052913821491569794589L,-19626772.4880118735822756118422632188L,30035138.6615423466786314785304354073L,-40533925.7617453926222605858750977204L,50160605.5711329086491662783505449424L,-57890241.5780895037798535785375092206L,62651511.3575090922423812405142369774L,-63410342.5648749753250170917744723252L,59354599.9456499061190562242151915829L,-50209853.7461042040243337655784254879L,36667341.4538999568090458841925243221L,-20800548.9105050898898526174490075118L,6321514.21125907132556457535953691462L,-3998160.30748944894414230886109963326L,13806070.9483469861451981051394686080L,-26430074.4712780212806507926477802117L,40421983.3781301116463232746942775492L,-54507267.1596569734503414858103009518L,67382768.0262578285373289576726247464L,-77667375.8398879484888512165991904814L,83928036.6056544296219498919435880433L,-84796854.5602057439822029405128124539L,79221366.5499227818700912915756724604L,-66882890.5452529952364452455342255526L,48751518.1781504186879217041194552028L,-27612846.8684577618293983361620206001L,8383728.05890824105162527040314190802L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<15,long double>(long double* c)
 {
-initializer_list<double> lc={-680785.069834758720415639474411158,2.38745017514326997821156485019113e6,-4.65242845102783325191599249552755e6,7.18772824115353931241763434588054e6,-9.66226249821410824458253083175810e6,1.17462296405987632516973122991197e7,1.37789899126168106269697181462184e7,-1.34934014106405088952114122707755e7,1.23525684346135037690721109504686e7,-1.04841651035296343301874978543171e7,8.09699168274748848706416690423373e6,-5.46603488809294897645502880592397e6,2.92027667637585868975528360430087e6,-856461.606004360269012387093190528,-1.31746947299013404376500165192919e7,-1.22718981403933245715089982849120e6,4.27596204942486666535054372202260e6,-8.25835967922397073027526852596492e6,1.26456344181557269130226932879279e7,-1.68734305251226192933017134229468e7,2.03976946972231258538251173123933e7,2.37606567237999486999063094555656e7,-2.32190704551220823157248587308745e7,2.12233017647467535144555313817502e7,-1.79929699448666385154758595826655e7,1.38848763613619443944534584549430e7,-9.36798691491976520179348825327132e6,5.00310847035691450118563647942716e6,-1.46703443282799299851273296871457e6,-2.27851922129251155872711371292940e7,-2.20822537577858885746591192674016e6,7.65653501604682955348130648570056e6,-1.46857701306731479110850533658352e7,2.23316166407327496307055988092532e7,-2.96228814970117506055545468178798e7,3.56491240969829818148060474619749e7,4.12916377298028744429132055821708e7,-4.02807386079817808432187736501364e7,3.67718964804530498872558942596485e7,-3.11460998432956095633038805325138e7,2.40188515835349572884236696670138e7,-1.61977145818397950280456999866121e7,8.64801332397198536611214972369892e6,-2.53540435929255628649979439096504e6,-3.96908401362790075248018816968537e7,-3.97468522270383835376285711756371e6,1.37295776593579597478309018469417e7,-2.61941612296241967339794595049323e7,3.96153134130023850589737271507331e7,-5.23058887064547926249941927014087e7,6.27209757323754209256444316621020e7,7.23171814515327168477259866243440e7,-7.04474715657072835932427386172234e7,6.42441952513842622155014132252580e7,-5.43738993333094748707343041376327e7,4.19082289480392299146804519405050e7,-2.82509770902523654710545515199781e7,1.50795369368951004230778543672086e7,-4.42039985884800813428656347880730e6,-6.96475261296290902737270102419868e7,-7.16688109722111121050255829396986e6,2.46847442017865582130097090762103e7,-4.69010233458148165339409757566873e7,7.06308690063659824819999617115105e7,-9.29163426391210714730876980233316e7,1.11100892421312331071205416347470e8,1.27630876996854387000059043484699e8,-1.24189133786089696397270357348326e8,1.13157710655561305435949814131901e8,-9.57125114822049662479908807633777e7,7.37360924462833895651264583823883e7,-4.96908620795507845441410923323230e7,2.65180898213500196656557678134748e7,-7.77264307564290584493625131034868e6,-1.23109877837792356270281881636252e8,-1.29591061971905330596309120020440e7,4.45356437203252486057225148773231e7,-8.43479458028187792882790810157900e7,1.26604525893048729549081093965412e8,-1.66073452145038327117102407441377e8,1.98129438142640549942608287778503e8,2.26942726632100691293199612103459e8,-2.20618328876755881671010876290757e8,2.00881957478558658574691766561974e8,-1.69824958433226615377492987087627e8,1.30782642203381553665045637544399e8,-8.81115996928667444443768343901454e7,4.70138545754922394471266501202381e7,-1.37788762614802068238751277803663e7,-2.19176521063409338771110792319522e8,-2.35147268966403254388549242444240e7,8.06734675730673144655148223649928e7,-1.52414826809378248276023061870669e8,2.28184490215900973866004753357739e8,-2.98650369871108429028177226743636e8,3.55666306844077641400132185776309e8,4.06437746752981128146950255134935e8,-3.94812834946508555334528022186123e8,3.59287819255770731293055501452539e8,-3.03611008999867729375941301671829e8,2.33738977670215623234524198230525e8,-1.57441928495429209844426246429358e8,8.39949558184132631839177748389810e7,-2.46155519313138549936845201368383e7,-3.92922516031210216192929605290122e8,-4.28363948569095840821763502854111e7,1.46769088385298966313232915138583e8,-2.76762234481618911202302613954065e8,4.13524854970564392231615263869989e8,-5.40279839475180684417750210160146e8,6.42528862770479737731849493478848e8,7.32871505653103270583372071525007e8,-7.11467346772302772606417297242682e8,6.47141950448958685198052227758744e8,-5.46662422233305061804549461273077e8,4.20746023239141529334726628553226e8,-2.83355339180254541871496140977655e8,1.51152293650119756255141239884707e8,-4.42940339332636544709915517080676e7,-7.09076968053699702778970177668368e8,-7.83595351119870976628802263636458e7,2.68211540266987844693232014012035e8,-5.05028172019709042801577660868361e8,7.53427665039090517625267406168017e8,-9.83026768826167387466944469375027e8,1.16777718927268316334243529749965e9,1.32994165737877802793662044780206e9,-1.29042839517008679983453936736687e9,1.17328538400367024301077769534605e9,-9.90812476592693751699152883641692e8,7.62424670030519799556467947168414e8,-5.13384977185986242638499579106025e8,2.73832863129047337552916699321164e8,-8.02407237556163696924268149086025e7,-1.28761992034126917212513504636041e9,-1.43947470709756941524794385682573e8,4.92328971347832618213587510026268e8,-9.25987857856753248708644801561868e8,1.37978777590095130005621977651638e9,-1.79833318952830649433658806340676e9,2.13442989774296503623669650465527e9,2.42776911974335564535819798502547e9,-2.35459415228875240396965800582770e9,2.14010519536344110142844914969343e9,-1.80679672675823614568802756299126e9,1.39005942938840861659509161787158e9,-9.35889883658051646782125092206517e8,4.99152531258973034955249614860724e8,-1.46259878073335513246282776957868e8,-2.35182376176656639118834979116430e9,-2.65535342587568046226359459973842e8,9.07646460040234877575524074211406e8,-1.70564667598858223692042297838629e9,2.53916346324380667181469134914878e9,-3.30657703420111658340390044144226e9,3.92174530049047927775350172534451e9,4.45597570253239351808522194200609e9,-4.31999636794063341830478059902708e9,3.92527482465604246028361038005952e9,-3.31317937667139658544089226015657e9,2.54858406421151240942889285431077e9,-1.71571112093166815193507950176966e9,9.15007828737768311758547858392052e8,-2.68103660654951880076546043611482e8,-4.31864806483922428259297344968248e9,-4.91788906000710439528483280348470e8,1.68025112229538424047795691794863e9,-3.15538247875337117426849822674240e9,4.69389041210235490876870599947953e9,-6.10832505372102735862135419667281e9,7.24043205156329605237434787339999e9,8.21915854024029991810100948941526e9,-7.96559014111108944043157683768021e9,7.23579818864099724370833998520485e9,-6.10623794411926641185466845428263e9,4.69642439348761701865431869728092e9,-3.16135994399963850315123675174904e9,1.68590104013315455770762799950928e9,-4.93968256597486353215625018711004e8,-7.96920302407097491589180187734256e9,-9.14272692980798144180138885854272e8,3.12259294477746104131312535704761e9,-5.86084234156001860553806244827222e9,8.71329842914763072898369741435482e9,-1.13324718835685394941184586788469e10,1.34259897160001423302871270737259e10,1.52283426195774437898323844675542e10,-1.47539056842114639216953490410655e10,1.33988894453628994489082283393395e10,-1.13052092293983642567929463832473e10,8.69401855769279430580908791222406e9,-5.85188323083149226166909940256737e9,3.12058743193370639568322656589848e9,-9.14313711211743903425122984126065e8,-1.47708203706465095329191136844035e10,-1.70567381593365751816664357303396e9,5.82386506847402344154236329979597e9,-1.09261598409224067343280959649247e10,1.62359123471047713601060311250939e10,-2.11061245080149772841054030442193e10,2.49940184559617196825603107666041e10,2.83281091115463344790407637441763e10,-2.74376388043934298223465557916600e10,2.49121921253414162081659291782743e10,-2.10161778872189664520676134467800e10,1.61604157802914877720175387895460e10,-1.08768488092370725436985210493222e10,5.80004611747160661643881676509714e9,-1.69935901183106346138994622864673e9,-2.74865763285621134189303540120447e10,-3.19234560993505071744889627658065e9,1.08974200340731832037006320880666e10,-2.04373051643812628752868603796256e10,3.03564774093214910301827602583364e10,-3.94456259821766761713733878958985e10,4.66929222811893130067032089309275e10,5.28848797928288206491158327714146e10,-5.12088668190242420564329942449373e10,4.64861407715394628813370703710896e10,-3.92109008767107684574246628807433e10,3.01488809662550024533771873615455e10,-2.02910492875049441349803738701300e10,1.08199639889398063533074684482629e10,-3.17013205584385266813824024658297e9,-5.13304594484973530905703221031331e10};
+initializer_list<long double> lc={0.0154869450193167023500833717209852195L,0.0347966764785355318549368480329669365L,0.0543388096510083689765544888248163633L,0.0685770443528485699346731002859041786L,0.0848579111653022593758369097508605086L,0.0907815795383537674968215362392507307L,0.0976584348866993124517635147944231879L,0.103614391565312334650434266943450435L,0.0878246928075498436333789234893741647L,0.0893708494345270992004385098092286127L,0.0623824251937336288373625760786747424L,0.0624499412399507649079899936373080741L,0.0243948537951256828890939917856914176L,0.0273197077614521375762219088531980797L,0.102149478100041281619627200460561058L,0.0193981714812099584071183642725060836L,0.0211067581595321269384689088278856971L,0.0812147734016623301141616807823382628L,0.0258665576625638579576242094470548936L,0.145641243387526741972623529055611310L,0.00994444767136215468553147558678894016L,-0.0286555841466182232167374492189037222L,0.255223732063502253724668451118362883L,-0.0907184156546528503369183057576534539L,0.296190289457875744891734070342998840L,-0.172683442046585741548980623898448194L,0.320077777512962631288309759341225109L,-0.227454600162839956356144809992447400L,0.171351790248598479487707427156181844L,0.204859804763547539836953839081394169L,0.113688429867082598734025855331250315L,-0.308613981193017107824369934470719051L,0.727375257813943516108082822490208953L,-0.998172389124787087616820476829332386L,1.59721297186962217800471317997565358L,-1.90974051079655838856568297392233880L,-2.97167478571669483352920550482216496L,3.73060305486499643577796354389709463L,-4.08449365511804195024511836719309440L,4.74737005774694525706071798627405102L,-4.91675159778169040577300801088887601L,4.96016241074329084725891390972426089L,-3.90907825775496795972698551744942420L,1.67315939063792175565197540515954615L,2.62485031223674153658447392233677585L,1.88580900253093878361396655114896775L,-6.49778495123396098437547963412245148L,12.8281341280113046578862786168580481L,-20.1064705369167713609061429113167436L,28.5432442006493521060645979733522765L,-37.2891865469350535959879714743264183L,-55.9313057238696354711469531463395067L,65.0558983076782470462013788185943300L,-72.5935844685481143635014092880241594L,77.9823140841539920358662294757070738L,-78.2142130947997093845535569555196653L,70.1772214122543311104267368297103626L,-49.2190188212640522182059376189894060L,17.7350553400107355862713233241532572L,46.7816788025983110286388464118070658L,27.9098377517754591402830895894294010L,-97.2596598638625198804594321224946264L,189.815551125285219596575144887664990L,-298.461811011544000193532867992752827L,418.826309288299638884339914665086746L,-545.689463960823270727714085472009654L,-797.940752576250410377248373746137489L,907.353425468146675320822286260322501L,-988.163392576820182697769296746732399L,1020.40163032340346989937642983267523L,-973.849431154567663626879897152298608L,814.739069356774195233771008535090345L,-527.270999228228294390799265342945255L,176.266288211543401551490191335048584L,674.537912760564012843976540101426103L,324.059353367123777403974597268982494L,-1128.62769803241402776986315757190108L,2195.60898521404155951684715603774812L,-3440.15901853179208339385118212757336L,4798.46389611808612192589588380577538L,-6206.27696884675524791643653081922802L,-8861.18003004179452869270760415856356L,9894.48975249218212218719649166761154L,-10524.7678992382721415709596652829634L,10533.9297486363477341328568460322586L,-9664.01402688642734409872323995029105L,7708.39741934490292399641297142775187L,-4745.68834292279959114504038630258117L,1525.71511789219256291918500131342063L,7591.35263576183938082026421497406252L,20375.3374178553975523514611918219013L,-70785.1120715013878825120896394537619L,137038.628791758585965055436050339653L,-213177.771685122817876412067209667823L,294358.796797329751977701047044678120L,-375652.010664281449393760109325379443L,-515294.502249172738683228193717704207L,559135.101312459409169816810804140289L,-573806.954444953602804825753152564039L,549618.907715129344010004073488937519L,-478886.934050045383231570373011397255L,361128.693780810763405839187726645343L,-210876.326212495653042635221579337588L,65329.6658016080765567060172489534626L,451495.979760621704277469774079987829L,110499.916857196721073965166853283074L,-383466.710314185051221272384178719701L,740898.901636714353856677680303029098L,-1149091.68456520394598378919898957017L,1580150.35097157429449793367284587395L,-2005654.83597023984868138701015789547L,-2708763.56880501024343682791849776778L,2908201.82848946984802581448334682137L,-2946765.35136763793593806735275741250L,2781148.19582519389587123880616617489L,-2384093.32684987061784812889940103183L,1768448.03489813220790575433696413290L,-1017870.02042487328003243261874862777L,312365.408664412633069601063268368753L,2393994.46155137396755818132329749288L,467718.680215139478567807765207797051L,-1621617.89097922054593645517815792187L,3127815.31916065842616096427226352606L,-4838766.05855045155381333002493900221L,6630914.82591260602196353480279497541L,-8378630.01237972234949815159296173783L,-11172933.7155909569793149781856494070L,11894393.9858366304201907995897869079L,-11932764.3315317169254901877229891519L,11135847.1465056785505233877101147728L,-9431327.03396404088225473489787705461L,6913219.36614735699991984592737959942L,-3939018.83592911290843120598430574004L,1200990.96363052308097655746082468109L,9944159.28859230270521783100711144124L,1553616.42404633949494766486029521514L,-5382402.45868455858586787011227456914L,10367191.0341222706072290989506173746L,-16004841.0495776597746610009495697817L,21870747.7032009437931837430441074266L,-27534583.8349539852336366836989128018L,-36347405.6771096834327833090597096647L,38439005.7629011798001304459439824647L,-38268877.1864589368917625636038650966L,35410431.8128623750083302902520158465L,-29723410.7333955233922637228043877594L,21600808.8569020862311051268357178770L,-12219714.0831280397465376869431752471L,3708881.58781215515940986018652572691L,32530553.6269471232674460308672463576L,4072208.79620974924203906909434938148L,-14099364.3501256613911866249047680760L,27127108.0880390649974628864248832288L,-41810079.6329303380387029471014313263L,57007183.9342349237902109517671900849L,-71565967.1510015634791911945169940581L,-93735971.3156387866527486747633085502L,98631965.8595446476272329634809752324L,-97632445.6969186291947342158997549296L,89772380.8093880840892767486076076231L,-74865172.6581101583233636074138175987L,54071624.0456833269188212550437485637L,-30433707.0081207235948076016227857548L,9207838.92484741626777175044155134304L,84252399.2171075134220042650706478634L,8464554.53624971320210832553394913750L,-29293847.3602025826438702107447060645L,56314485.9802012358668998187227508947L,-86689203.9972065854474494438683506006L,118003781.814440258535329923050169483L,-147827416.587845477487832591076157436L,-192513147.620062819072016821747616717L,201828541.253952906274897851280636247L,-198958084.569058701677406635642420630L,182121195.782605187786178480331813826L,-151183260.950060829222744744373629442L,108723885.487027764896951417743269271L,-60980235.9292955401310744225542937562L,18409745.9433442012988729375799770505L,173579008.140014559526369723864932896L,14009987.2767972028467227591219536969L,-48470293.5760090248514813540173638419L,93126672.8440816809306137021650789958L,-143237582.581474020850490476683048923L,194760678.449235142819191302507614183L,-243635138.288062646751444213110029505L,-316060616.960013131788621159689590330L,330547395.091323869360181984017959263L,-324954786.492119862714560544726220967L,296579119.640783613980167347349301713L,-245461539.833123287636986921184956874L,176033542.038770140228587227217623645L,-98510263.8674137952585221834580669565L,29698612.0367803128276792695064175288L,285574216.189080503059316213137207845L,18520473.0125206478132342115283241411L,-64064297.7813418933539149111675607031L,123049458.595642658079948557065868645L,-189175054.468812404008712648433537551L,257064090.467037756819004678028547955L,-321322125.066545155390657508506229039L,-415966587.038819033785895914406441879L,434457864.665617455022013722956633993L,-426475689.589787793480538604060674006L,388618068.625559946758418318369431160L,-321121911.501632983867725428561182318L,229952248.138314054669475715832570633L,-128530065.861470339096494573673653632L,38720400.6045717026438319708509329018L,376273129.193141640188255128421752557L,2918.95739068146461205798480651872670L,-10153.0774676073994887239382372187331L,19701.1770372710568343940817188075628L,-30752.6741021942642529991020838850495L,42666.5700069128994006066976896415912L,-54794.5847026103563527833853358624814L,-76571.6271601709094966321309131389811L,84175.8865485478639677539447960522118L,-87781.4438422124693878643936915084675L,85712.4134667229778772459278940561049L,-76339.9086251301931952843500922121996L,58915.6595599487120581358589786681920L,-35135.7036001379779991667575774523433L,11041.8353782663681982373465828494788L,66397.9195146652285077610651505326900L};
 copy(lc.begin(),lc.end(),c);
 
 }
 template<> void extrapcoeffs<16,long double>(long double* c)
 {
-initializer_list<double> lc={1.35465586136337391900281724085720e8,-4.60681378644386487887601593772952e8,8.58568449225997832682178025409777e8,1.62980773270973641453271705140326e9,-1.91373075459200241155012678369982e9,2.09118614227476511733595116081119e9,-2.15005805360944102792070842260647e9,2.09102196956134013566894213456307e9,-1.92558853554248175112214812646667e9,1.67352394854122819317382764185891e9,-1.36020107464601806028832611356813e9,1.01435436480691009151354550549362e9,3.49584899423826116223953835347481e8,-1.26514772220659452690528051068934e9,-6.66637158937146244809428227231107e8,-1.01468413496771250043602267236614e8,2.13698102776088093102068660799828e8,-7.26651643725632218446143588957117e8,1.35400497598124126723163176832037e9,2.56884012864949079504936425309200e9,-3.01529366070543441468830308377036e9,3.29366429732966960126439914579969e9,-3.38510199896387421751648681176189e9,3.29093246868170466804924787798564e9,-3.02951042107920902295667436712553e9,2.63211004982918810348222158226231e9,-2.13873281272469159670876550910865e9,1.59457537089069805630466550391776e9,5.49388050833458226665432022937496e8,-1.99469441956459511222788101258213e9,-1.04777723912036782956698488667852e9,-1.59451248582420824011235117577176e8,3.46179119632867422180361892421379e8,-1.17700185017008697081301055775435e9,2.19273022556746252397254266645035e9,4.15757248555689025008358777852561e9,-4.87830966579960689466631515614827e9,5.32653734381584282987804801012083e9,-5.47217522280448760559629396267116e9,5.31782203070486394434035762705560e9,-4.89355244890849863842168778451261e9,4.25019022200676523612320885483864e9,-3.45249335639224360380912322534260e9,2.57344885137091979793774453797781e9,8.86360944215550505897410531842017e8,-3.22941047851843465008671486532367e9,-1.69066473638409420223747677415076e9,-2.57233463555048944287832531353201e8,5.74550352097123966490317496104936e8,-1.95322920656860278575451117520258e9,3.63807852891860964783365161250257e9,6.89373052502165243535062220123914e9,-8.08563814693808035476157014207225e9,8.82487707688357463693020080489212e9,-9.06230806320038789805912521008274e9,8.80302126900001059567728268232927e9,-8.09751909260216097761661351814071e9,7.03043156111107887506025238554071e9,-5.70916490931232484133173905374457e9,4.25446069345865902331058192014210e9,1.46485258112289369546657485307289e9,-5.35657887415311429504642910236961e9,-2.79447771840905246784522408141932e9,-4.25086576174537446598152390992177e8,9.74350531965399648673486895160017e8,-3.31198693789156486956133689529064e9,6.16761497062241239427037027146678e9,1.16794850684560995531332926186623e10,-1.36934172240668320329142423294719e10,1.49390267320388378279973984039555e10,-1.53343263602179146851662059439186e10,1.48892810876267542234066159031190e10,-1.36905440569801971249550807740509e10,1.18821135186836820226130106236059e10,-9.64601175244933638677916751161119e9,7.18632240660337806607026679908251e9,2.47347410659889856199754404325688e9,-9.07838500087137476824864565407325e9,-4.71927430280217558808508779772449e9,-7.17722787110710841393697038135016e8,1.68363922014979923355250012144451e9,-5.72230730910881338628620162021075e9,1.06539436457305440044304428759058e10,2.01624459762315877644928415037318e10,-2.36298331196368946463066509860859e10,2.57684480966715521912678004604370e10,-2.64389235702123098815177105870213e10,2.56607613941237459370375526806370e10,-2.35854238545739746079186248142472e10,2.04625562001404622897978310961085e10,-1.66064781922920821670660719103858e10,1.23686818860366106212148268851797e10,4.25574146871824866742651408982429e9,-1.56775672703677721966172668039817e10,-8.12090209574214146370064147860485e9,-1.23478247569652544992292596943630e9,2.95639463017022167804279124185411e9,-1.00469570232252270154846115651337e10,1.87019319741559276409937502125899e10,3.53713735800732417604294801682623e10,-4.14383398482399553659640868019392e10,4.51700815076961454669342550974257e10,-4.63258223869437976662935740888650e10,4.49437206598976949895417732939619e10,-4.12927048006168631631220764500189e10,3.58125546471211940486365444011457e10,-2.90548498810793334479105981735519e10,2.16348138448418583494311990487511e10,7.44146145894016621881345639152575e9,-2.75127845540867692898851482503563e10,-1.42019377534288192757231171850883e10,-2.15893605512744324979998181939147e9,5.26250596088382863972559969775324e9,-1.78820157069352342352547256350806e10,3.32800603954485044892262678778178e10,6.29058590822657732171314199065487e10,-7.36681671297085854353791765694255e10,8.02702972936204879978802472497388e10,-8.22904397739252557112708882974213e10,7.98032485587854402700157178692675e10,-7.32925370648378550505202258751760e10,6.35435727433751900219644818654459e10,-5.15375934115427657250097008484006e10,3.83663189492253977706619700051552e10,1.31920441352421336121270057662428e10,-4.89458676379515329967477445807620e10,-2.51802659679264751729285847065493e10,-3.82702042588865281266649200559407e9,9.47565036430903449640665785945322e9,-3.21948671848913610296358894484459e10,5.99064314843571740652132410237003e10,1.13170276042200029252856885256574e11,-1.32484717799703171531639852430712e11,1.44302499393943397971000718016006e11,-1.47875817260534326171352825233778e11,1.43350721830768467417306323818018e11,-1.31607205015484831587561504088862e11,1.14063450821080379111863443581742e11,-9.24852549527192292873645902077266e10,6.88324903560049336554445266216987e10,2.36601170172989736586014144059391e10,-8.80833748595017561920392325998345e10,-4.51670881409721173239982665410738e10,-6.86331209603907212105420324350209e9,1.72273590250514430799784071040663e10,-5.85264483575631486546433171245547e10,1.08883438463478578592329689603019e11,2.05581338087554129386881965253243e11,-2.40584938694816488729366701882097e11,2.61948904020391694197375057803596e11,-2.68333992994466946743589072609106e11,2.60025938266161633796276775969695e11,-2.38640001381177234205884008005390e11,2.06761920804096751298756009823921e11,-1.67600285203898629145930001818213e11,1.24708077425131338242926468690478e11,4.28533180055518198129945324690095e10,-1.60057445931818799762669078474389e11,-8.18171957682459101307551161794265e10,-1.24299857653248033167547417981923e10,3.15760688895882210232311092035000e10,-1.07262890123747067473050192246173e11,1.99519643417147285924522119350000e11,3.76514298828259568627938630150477e11,-4.40478056514774096893247323736062e11,4.79423779431057655464464639163514e11,-4.90932241172344318313226379903544e11,4.75562479272391469294284223711539e11,-4.36302030664672334673287212196292e11,3.77903264429747490970688017621934e11,-3.06244199181637611363413617880987e11,2.27819298485906332866534475739444e11,7.82621932380898963083888259899838e10,-2.93223157785053847250225304628886e11,-1.49439347908153424422177016959302e11,-2.26991026417088687863842085937837e10,5.82744182866121185237413753647345e10,-1.97938096311649591028306775784207e11,3.68125245178410352250250551137856e11,6.94346133516680423273414827373877e11,-8.12051159771349038486919924147219e11,8.83553153296300335165238777670035e11,-9.04449702225396765096183193685514e11,8.75834658131935830574279554145252e11,-8.03269018580641923822604919955700e11,6.95546285962339095525897011935226e11,-5.63509250312167449070680108206096e11,4.19112300516614172597797992326083e11,1.43935745017730938301449359870104e11,-5.40893277127645259415525823057143e11,-2.74873153282338733162107263965912e11,-4.17442822953457160346539119222824e10,1.08174897022043774913286819217461e11,-3.67400605899282814785510162318200e11,6.83186806881003286667446139847790e11,1.28799617450494569820119924796588e12,-1.50588800346528894251233324261117e12,1.63795687158529932084820192240820e12,-1.67614079972666936202694987964882e12,1.62258031463885973255229434671086e12,-1.48768237169146738063542139692607e12,1.28781100997480481543659027712950e12,-1.04308452491538952171934709223484e12,7.75638475396162988558284058656091e11,2.66304976097499642959649999835576e11,-1.00360632572114631043108723233254e12,-5.08617894321550326460552733481756e11,-7.72290003597422071278287698319203e10,2.01805253626465064381466294889615e11,-6.85345516813585467883937519823857e11,1.27422371708031566412290390870519e12,2.40118080284000218343044217113823e12,-2.80659308193092434626324973666100e12,3.05179823944878247369561231758514e12,-3.12195241811468291255503432087730e12,3.02124483787884063649787683687501e12,-2.76924006275222852695470862187051e12,2.39653853871372854702821295987993e12,-1.94065559347154342384697985197274e12,1.44278749072165805433202804535348e12,4.95231982313350082869824911346474e11,-1.87146535130246210704964047871247e12,-9.45949168472138123493071668835338e11,-1.43609669765500883728244171793124e11,3.78085907103031653818728155860857e11,-1.28390527785669622145796474457798e12,2.38675847070303124394510000933157e12,4.49573191722506532847975381049802e12,-5.25335570894090752107205676158958e12,5.71064800265115961080076962954542e12,-5.84014964178037905034669307091516e12,5.65006034047515201420659947896795e12,-5.17730348572118309323158345172440e12,4.47933981801193598842710187260520e12,-3.62642590597336915425893963137719e12,2.69556698932695389456710812495211e12,9.25011744460729384465661449729955e11,-3.50477943848595192894071681087866e12,-1.76706004392648546320388881630852e12,-2.68223687272014518817131952143896e11,7.10965349508295549690815343928992e11,-2.41411433735432732830550508129189e12,4.48719912799502667824377591195344e12,8.44866336634231526657628551693527e12,-9.86986304382097783357418124210916e12,1.07259835049051542222792229295468e13,-1.09660216164093621653132163886639e13,1.06060289636498706211628516006678e13,-9.71592200995287362219538694348032e12,8.40398658134252900492184533167933e12,-6.80228297274856186883108458943108e12,5.05529595199178494848567152044560e12,1.73435763137283681440950207903501e12,-6.58790428096974039978572929006612e12,-3.31349220653666687252507413684109e12,-5.02880009315234999769261500204813e11};
+initializer_list<long double> lc={0.0134902209777615546928857850345981080L,0.0314279629951824571654827355119910959L,0.0469873733079429458666402319428443835L,0.0734547857533043094067218881208000583L,0.0863693918254083886359991394800480939L,0.0890178071285127236164968634241197006L,0.0975477126653731910543608072690555473L,0.0913143081988729873364578487343849265L,0.0953607662004949410710941168426104146L,0.0797941749996627884527309014396922062L,0.0804155398351338833169827556545343170L,0.0556981153764456892398509437563906090L,0.0215756265895184880769650340393217390L,0.0632564400077259263278134786590519249L,0.0554622987341079963370658862746589467L,0.0241270079087267631043744970907316149L,0.0104155520313118903445611651733060547L,0.0421911438622431849044125333569926821L,0.0258525969066147136896289140566797599L,0.0256254787501219415117735716163831768L,0.150002317804577593948539364859571525L,0.00813628998446800016665465903718202584L,0.197055438658690702608191468586676426L,-0.0281810370330493689170612216319687326L,0.236225846046013615009800230605291312L,-0.0838260077453458936216054537697681617L,0.267960334392693434420180821343248545L,-0.155765333785017525388363036922707662L,-0.202695621772206622927513247212677008L,0.0968529828342800279162661168409564000L,0.285856805797583099642470013914300671L,0.152005701730404918653069892379228815L,-0.0653713376999448705369583829618576539L,0.307294036540076148545471916779882423L,-0.493985968495464789168591461831771420L,-1.14470357745165178782422310989852963L,1.70043564961898856113956922269284521L,-1.95108712992003212224561222853426863L,2.58804720929326144549111842851681507L,-2.86689986399994767719806939492181542L,3.52786775445603385005347168691682593L,-3.81373965736643694238437364212646060L,4.38010995449944330847413959941385537L,-4.50169597608380466102674113646069785L,-3.53639368540261078332648271232690242L,0.921440256457842158051759609026744538L,4.50879936970458113742867436871287902L,1.50706736465575115258661328814625951L,-24.6657301146237929877697621996598394L,86.1817045027888068592853823211435293L,-168.236204899845183108876081108955438L,-373.441382816493373029546191645537690L,489.304692651204969716129234646022741L,-608.671094569978257639454534737123949L,727.727514055202494926638378338626119L,-839.694251197893918192225918737010860L,936.616377462601794663550012014033309L,-1004.66603331262690893316228603770277L,1024.77872737830999732404449651592739L,-968.237138827915539935403316404623980L,-516.433159972726808912184967309491735L,265.434547547872619694086376795903108L,803.303986914590144675668304275128721L,171.888507077331633004997537391296942L,-309.634526623075306854178652539683729L,1079.68800541371710461211605427577883L,-2104.34412085771012638538909783779316L,-4633.91709243287320352416604267930424L,6031.86900480969531758217346535335592L,-7443.95538188348979194092614181582983L,8801.82580751819807219366620482214293L,-10014.8963730262748891093920622114250L,10962.0676139265928359134392885496564L,-11475.7614176367137468804906451297984L,11336.4924494640186328497012413152738L,-10287.7205240168730099129557996233920L,-4971.52511999643335612311308855976400L,3307.61998012851996768468309845045799L,8132.18181521138666141887918046638937L,1591.28087161248622478278178744244328L,-3066.77599191240814203940727791159641L,10680.8335819876280415797887291965460L,-20774.1351400782291544188780789683740L,-45397.1178908667974886774406131919081L,58741.0540382806537405480402547657906L,-71934.5343640372424166767478870596232L,84207.8843991905527639813857913870325L,-94594.3496831367343091409935559432265L,101861.415867479925804018434111240599L,-104461.238383421932331533206948528409L,100594.622952465445626275623558874129L,-88560.7324268511237876366672908475832L,-40077.7637726854264665753020601133296L,32547.2921793482883009246786658590124L,67696.0374787591183096026516138595511L,12538.8663537028918803114257571306599L,-23920.3926365912164505832816262851942L,83219.2875466966444604433183446755494L,-161542.355128963400825365207284599226L,-350530.171579421643165929067838301491L,451117.358218552182751547108883323347L,-548605.010182238703005354106531637526L,636549.829525179244074530507346221220L,-707170.548605885708110766101829000127L,751082.307122328762398276921421440579L,-757420.763621166149210997828895429364L,714978.664146321039989255712205211469L,-615381.713818484619117642476131141823L,-266254.139140391115369672972421636811L,252341.279672878292248914798029456105L,459424.648385544170816734439180177888L,82113.1725893872996978881444878576919L,-147059.628816562928788176067475272311L,511128.809572384153687646321470412759L,-990428.374293658459161636709991644802L,-2135658.31882445462549273584324647637L,2735451.41045676257224843216503205450L,-3306480.63156054914502927981974815728L,3807537.05877252684981681067062467827L,-4190601.33068117599815410192498719108L,4400647.22033996532057014851957521953L,-4378475.07499855470009578367276834564L,4069719.95624418976046974542290563122L,-3444219.99701987240104975537313805955L,-1443884.31058700388915690310168399054L,1543025.33835793985032882744478131613L,2528237.22109668601941713583348377884L,441062.199447632539208346227825714032L,-714824.615809461091913758602973173699L,2482394.00882840661514685865512064616L,-4802777.00852231277784392342582478234L,-10300048.0889698590552305352435219344L,13139133.1812503705137329266471043405L,-15800508.2738135997617223527381383008L,18079680.2231937896481000380199495644L,-19745839.6059916890330879206887411597L,20546204.2872860527752127835029594755L,-20226136.7530778006234599353154664804L,18577012.4224926566004568834046464485L,-15524325.9116465995633827354103827759L,-6362337.64160427888551494941742390594L,7465221.86912415690920455795499683232L,11256439.0804710798083693822414078969L,1930714.46759086331156213703151755949L,-2759131.07675456888128879841315446221L,9574870.55875139065346506833938742428L,-18500598.4374404913684696495164589598L,-39495096.1923454929457615195188471931L,50210302.7851943736323221945570820141L,-60124074.4311844675618172287755002099L,68439615.2696064990578615521648792455L,-74282043.8949315833786108885169860932L,76729869.7283766331545001457805243433L,-74907361.6528662176181689569173870637L,68173169.4342992365307164203209308869L,-56432508.5365378062131943526577433225L,-22749874.0261605060198513399425581678L,28700643.0730368720094623818635695821L,40550722.7951948495730905550635332694L,6871496.33276966820435810933993842809L,-8497625.16981641543814580910686162985L,29471487.4721889078997949519456553705L,-56883564.3892161654701213509301650134L,-120980602.259859993715462425745153881L,153378479.917537948455610230313986514L,-183032340.660954160832833573419879102L,207480804.493325970902358172636116688L,-224082861.369776703533872010287558828L,230146369.069878552443385728526283588L,-223238582.180160374726237551836406219L,201761599.615486128356185815326159635L,-165834362.296836525107096368208083454L,-66054237.6360703146451735056739071546L,88104843.5162361034091777126663116209L,118375850.285025886847422247877349421L,19884743.4019492773563296101394883268L,-20980096.6994467175159426533594861799L,72729170.6655503126098606624530492466L,-140256257.942843350020662535737939210L,-297416905.262703629662190762374208950L,376245864.364738125291285884877381921L,-447785903.969452531978945857684619296L,505961986.240574628628457946407684540L,-544375304.919324915630249507789141530L,556673364.651590187933176783344831461L,-537351897.842330999780318977577624467L,483146167.341148258167127946709868805L,-395046860.853888261308015599058897876L,-155990013.222193995376867881781981313L,216963769.789043581434615398199855346L,280636140.209768933441412258800069855L,46846779.3274725779447584115187082464L,-66936838.2722942588617835391585341647L,231904548.171185105440498281373987009L,-446739494.859080603831664124565985120L,-943803948.078646824053179153476496736L,1190720384.50436021984506596296523062L,-1412409571.54593095363396216338574943L,1589556758.05469586055842637307062448L,-1702294261.69607841417963698507284763L,1731560161.98547413882756365389884694L,-1661742878.86093259123391699770176535L,1484943191.77918783850312598608018323L,-1206750740.66084056447709829510617247L,-471731994.730148703781388575414218370L,689968300.480172000856586566775171953L,852471948.262551245986260452876117168L,141284437.438614015571718844880602085L,-1.54802321059089708742942901292333537L,5.48846374473792911383978182077035744L,-10.6348521786169909394903793591518915L,-23.8181559150436853262299696200473061L,31.5709233469585431640684161022528354L,-39.4120913453794049553180072081562895L,47.8342828508167114062451045338846622L,-55.8253652163597984178423082698869497L,63.7195744948158109033791093143642414L,-70.0882767419069828319552438971567821L,74.4203999789014843254020100671376938L,-73.9645515445087855433830409536483569L,-45.9159851823877100847011080954631522L,16.9614830260572478858734711747157581L,65.8615709721192041418657359401115482L,16.4729007162098227287283068657732456L,-41697253.5017956878225020606263125519L,144495997.522200392640483470019270255L,-278477997.818981190608241853216169854L,-589213471.490983209170574491707729342L,744177939.291513526827707913726557586L,-883917523.435468413020619065443042147L,996378571.298225904136161284683013471L,-1069042083.09018866987586681856312033L,1089727989.45620912323655784986747432L,-1048225183.07152110624173706200608984L,938995415.884092771521667682336218300L,-764936807.691755480601561282975903063L,-300210159.315238704097199185774426665L,430373303.063877221619146054840529417L,541561630.932572111198853680551643541L,90009633.9000570114516397562283208609L,-87011219.2017913504180854832107153035L,301412944.836952957835803241918679264L,-580500275.594049056741928648187024039L,-1225378680.93541619925683715895925823L,1545031076.06157884618481344916177265L,-1831337459.16643546166456587959586162L,2059221161.60305526088332176389733547L,-2203025012.38544882850621267990325471L,2238322462.10980866910963490818848937L,-2145370224.21022861193130683123682926L,1914587738.24651322799412575016520175L,-1553877495.35593863782328734497572606L,-606142008.159184685051531708620142294L,896238209.851561278845092915824472397L,1096391674.30744454926670396058512075L,181437109.986278508770084711245816949L};
 copy(lc.begin(),lc.end(),c);
 
 }
-- 
2.43.0


From 8e0df9ee98e9642917b2892e5d0a31d6cc6ff583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:26 +0000
Subject: [PATCH 36/48] fix: Rock4 may never recompute the spectral radius
 after a rejected step

---
 Rock4-NG/include/Rock4.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index 6761967..e78c902 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -267,7 +267,6 @@ namespace odes {
 	      hp=h; h=hnew;
 	      errp=err;
 	      switchAdr(temp,y); switchAdr(g0,fn);
-	      ++nrho;
 	      nrho=(nrho+1)%10;
 	      if(1.1*h>=ABS(tend-t)) h=ABS(tend-t);
 	    }
-- 
2.43.0


From e46c43e5dcc8d1fe62cd4eaa7556257681da124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 37/48] fix: Crank-Nicolson of the SDIRK solver weights its
 stage with 1 instead of b/a=2, and is not consistent

---
 SDIRKL/include/CrN.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SDIRKL/include/CrN.hpp b/SDIRKL/include/CrN.hpp
index 531d5c7..c0603bc 100644
--- a/SDIRKL/include/CrN.hpp
+++ b/SDIRKL/include/CrN.hpp
@@ -15,7 +15,7 @@ struct CrN
   CrN()
   {
     A[0][0]=0.5;
-    D[0]=1.;
+    D[0]=2.;
     S[0]=0.5;
     name="CrN";
   }
-- 
2.43.0


From 83b0861de4a13bd5145cdadef3446eaa2ea1e3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 38/48] fix: Radau5 ends exactly at the requested end time

---
 Radau5-NG/include/Radau5cc.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 7e01ae6..e94368e 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -612,7 +612,8 @@ namespace odes
 		  erracc=MAX(0.01,err);
 		}
 	      xold=x,hold=h;
-	      x=xph;
+	      // do not miss xend because of rounding errors:
+	      x= last||0.1*ABS(xend-xph)<=ABS(xph)*uround? xend : xph;
 	      Y+=Z3;
 	      
 	      double uC2M1=1./C2M1,uC2=1./C2;
-- 
2.43.0


From 7db6123ee0368aed1c5f1f490ba9139baa25dfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 39/48] fix: Rodas ends exactly at the requested end time

---
 Rodas-NG/include/Rodascc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 5640479..7efb498 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -456,7 +456,7 @@ namespace odes
 		  Y=YNEW;
 		  Y.put(y);
 		  xold=x;
-		  x+=h;
+		  x= last? xend : x+h;
 		  if(ABS(hnew)>hmaxn) hnew=posneg*hmaxn;
 		  if(reject) hnew=posneg*MIN(ABS(hnew),ABS(h));
 		  reject=false;
-- 
2.43.0


From 12116476f3145a610233def9e73efcdd4974b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:37 +0000
Subject: [PATCH 40/48] fix: Radau5 assumes the caller's array is aligned and
 crashes when it is not (ALIGN_BLOCKED)

---
 common/include/fortranVector.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/common/include/fortranVector.hpp b/common/include/fortranVector.hpp
index cf90099..9724395 100644
--- a/common/include/fortranVector.hpp
+++ b/common/include/fortranVector.hpp
@@ -95,7 +95,7 @@ public:
   inline void operator=(fortranVector V)
   {
     //std::copy(V.x,V.x+size,x);
-    ASSUME_ALIGNED(x);ASSUME_ALIGNED(V.x);
+    // (nothing is known of the alignment of an array we adopted).
 #include "Ivdep.hpp"
     for(int i=0;i<size;i++)
       x[i]=V.x[i];
@@ -104,7 +104,6 @@ public:
   //! \param F to be added.
   inline void operator+=(fortranVector& F)
     {
-      ASSUME_ALIGNED(x);ASSUME_ALIGNED(F.x);
 #include "Ivdep.hpp"
       for(int i=0;i<size;i++)
 	x[i]+=F.x[i];
@@ -206,7 +205,6 @@ public:
 			       n,X.get_size(),Y.get_size());
 #endif
       double *xx=&X,*yy=&Y;
-      ASSUME_ALIGNED(xx);ASSUME_ALIGNED(yy);
 #include "Ivdep.hpp"
       for(int i=0;i<n;i++)
       	y[i]=xx[i]+yy[i];
@@ -244,7 +242,7 @@ public:
     //! \param Y fortranVector<n>
     inline void sum(fortranVectorF<n>& X,fortranVector& Y)
     {
-     ASSUME_ALIGNED(y);ASSUME_ALIGNED(X.y);ASSUME_ALIGNED(Y.x);
+     ASSUME_ALIGNED(y);ASSUME_ALIGNED(X.y);
 #include "Ivdep.hpp"
       for(int i=0;i<n;i++)
 	y[i]=X.y[i]+Y.x[i];
-- 
2.43.0


From 0980e233b91405e0e9a3012bec01f503db822821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:51 +0000
Subject: [PATCH 41/48] fix: Radau5 accepts a step whose error estimate is not
 a number

---
 Radau5-NG/include/Radau5cc.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index e94368e..097db2d 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -264,7 +264,7 @@ namespace odes
 #include "Ivdep.hpp"
       for(int i=1;i<=n;i++)
 	err+=pow(CONT1(i)/scal(i),2);
-      err=MAX(sqrt(err*n1),1.e-10);
+      err=MAX(1.e-10,sqrt(err*n1)); // in this order: keep a NaN.
  
       if(err>=1.0)
        if(first||reject)
@@ -277,7 +277,7 @@ namespace odes
 	   err=0.0;
 	   for(int i=1;i<=n;i++)
 	     err+=pow(CONT1(i)/scal(i),2);
-	  err=MAX(sqrt(err*n1),1.e-10);
+	  err=MAX(1.e-10,sqrt(err*n1)); // same remark.
 	 }
 
       return err;
@@ -591,7 +591,8 @@ namespace odes
 	  double err=estrad(y0,Y,x,first,reject);
 	  // new h.
 	  double fac=MIN(safe,cfac/(newt+2*nit));
-	  double quot=MAX(facr,MIN(facl,sqrt(sqrt(err))/fac));
+	  // MIN in this order: if err is a NaN, the step is divided by facl.
+	  double quot=MAX(facr,MIN(sqrt(sqrt(err))/fac,facl));
 	  double hnew=h/quot;
 	  if(err<1.0)
 	    {
-- 
2.43.0


From 98fce851f26c5ebe3b95300e684bdb51f90015fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:25 +0000
Subject: [PATCH 42/48] fix: Rodas reduces the step when the error estimate is
 not a number

---
 Rodas-NG/include/Rodascc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 7efb498..4e1b318 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -434,7 +434,7 @@ namespace odes
 	      
 	      // computation of hnew. 
 	      // We require: .2<=hnew/h<=6.
-	      fac=MAX(fac2,MIN(fac1,sqrt(sqrt(err))/safe));
+	      fac=MAX(fac2,MIN(sqrt(sqrt(err))/safe,fac1)); // in this order: a NaN reduces the step.
 	      double hnew=h/fac;
 	      //Is error small enough ?
 	      if(err<=1.0)
-- 
2.43.0


From 4115a31f1603f1ad2d54d1c7cdf220b66770390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:08 +0000
Subject: [PATCH 43/48] fix: the SDIRK solver loses its work array when the
 initialisation of the operator throws

---
 SDIRKL/include/Sdirkl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SDIRKL/include/Sdirkl.hpp b/SDIRKL/include/Sdirkl.hpp
index 1e58917..bd8a5d3 100644
--- a/SDIRKL/include/Sdirkl.hpp
+++ b/SDIRKL/include/Sdirkl.hpp
@@ -112,6 +112,9 @@ public:
   //!\param _affine true iff we solve du/dt=Au+B and B!=0.
   Sdirkl(int _n, double _dt,bool _affine=false): n(_n),dt(_dt),affine(_affine)
   {
+    //Op.init can throw: nothing must be allocated before.
+    diag=RK.A[0][0];
+    Op.init(n,dt*diag);
     if(affine)
       z=new double[n*(nstage+2)];
     else
@@ -123,8 +126,6 @@ public:
       }
     Work=z+n*nstage;
     if(affine) Work1=Work+n;
-    diag=RK.A[0][0];
-    Op.init(n,dt*diag);
     for(int i=0;i<nstage;i++)
 #include "Ivdep.hpp"
       for(int j=0;j<=i;j++)
-- 
2.43.0


From 90f02816d1bf693e7723ca76992fa2e31f46c5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:47 +0000
Subject: [PATCH 44/48] fix: Rodas reduces a rejected step until it makes no
 progress in time and accepts it

---
 Rodas-NG/include/Rodascc.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Rodas-NG/include/Rodascc.hpp b/Rodas-NG/include/Rodascc.hpp
index 4e1b318..9334208 100644
--- a/Rodas-NG/include/Rodascc.hpp
+++ b/Rodas-NG/include/Rodascc.hpp
@@ -468,6 +468,9 @@ namespace odes
 		  last=false;
 		  h=hnew;
 		  if(naccpt>0) ++nrejct;
+		  // such a step could be accepted without any progress in time.
+		  if(0.1e0*ABS(h)<=ABS(x)*uround)
+		    throw OdesException("Rodascc():, h too small",h);
 		}
 	    }
 	  while(reject);
-- 
2.43.0


From 560616f5b10c2f56f763a7313c1212431a9bb6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:47 +0000
Subject: [PATCH 45/48] fix: Radau5 makes steps too small to make progress in
 time

---
 Radau5-NG/include/Radau5cc.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Radau5-NG/include/Radau5cc.hpp b/Radau5-NG/include/Radau5cc.hpp
index 097db2d..4e0c9f2 100644
--- a/Radau5-NG/include/Radau5cc.hpp
+++ b/Radau5-NG/include/Radau5cc.hpp
@@ -507,6 +507,9 @@ namespace odes
 	    if(nstep>nmax)
 	      throw OdesException("Radau5cc() nstep=",nstep,"too large, nmax=",
 				  nmax);
+	    // a step as small as this makes no progress in time.
+	    if(!last&&0.1*ABS(h)<=ABS(x)*uround)
+	      throw OdesException("Radau5cc(): h too small",h);
 	    // starting values for newton iteration:
 	    xph=x+h;
 	    if(startn||first)
-- 
2.43.0


From a57a539a06f85ec2f20c684db9e2757c02f80748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:24 +0000
Subject: [PATCH 46/48] fix: the linear Rock4 makes a step for a spectral
 radius that is not a number or too large for an int

---
 Rock4-L/include/Rock4L.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/Rock4-L/include/Rock4L.hpp b/Rock4-L/include/Rock4L.hpp
index cbf411d..9b60579 100644
--- a/Rock4-L/include/Rock4L.hpp
+++ b/Rock4-L/include/Rock4L.hpp
@@ -305,11 +305,13 @@ namespace odes{
 				     10.0e0*uround);
 
 	  ++pass;
-	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
-	  if (mdeg>152)
+	  // can be too large for an int (or not a number).
+	  double need=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  if (!(need<153.e0))
 	    throw OdesException("Rock4: degree limited to 152."
-				   "Here you need:",mdeg,
+				   "Here you need:",need,
 				   "You should decrease time step");
+	  mdeg=need;
 	  mdeg=max(mdeg,5)-4;
 	  if(mdeg!=mdego)
 	    {
@@ -356,11 +358,13 @@ namespace odes{
 				     10.0e0*uround);
 
 	  ++pass;
-	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
-	  if (mdeg>152)
+	  // can be too large for an int (or not a number).
+	  double need=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  if (!(need<153.e0))
 	    throw OdesException("Rock4: degree limited to 152."
-				   "Here you need:",mdeg,
+				   "Here you need:",need,
 				   "You should decrease time step");
+	  mdeg=need;
 	  mdeg=max(mdeg,5)-4;
 	  if(mdeg!=mdego)
 	    {
-- 
2.43.0


From 71bebad3387a3ce3028b51bb133b0b47bb1a02e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:24 +0000
Subject: [PATCH 47/48] fix: Rock4 uses five stages for a spectral radius that
 is not a number or too large for an int, and never ends for a step that is
 not a number

---
 Rock4-NG/include/Rock4.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Rock4-NG/include/Rock4.hpp b/Rock4-NG/include/Rock4.hpp
index e78c902..140fc65 100644
--- a/Rock4-NG/include/Rock4.hpp
+++ b/Rock4-NG/include/Rock4.hpp
@@ -210,22 +210,28 @@ namespace odes {
 	      last=true;
 	    }
 
-	  if (h<10.0e0*uround)
+	  if (!(h>=10.0e0*uround))
 	    throw OdesException("Rock4: step too small h=",h,"limit:",
 				     10.0e0*uround);
 	  if(nrho==0)
 	    eigmax=F.rho();
 	  
-	  mdeg=sqrt((3.e0+h*eigmax)/0.353e0)+1;
+	  // can be too large for an int (or not a number).
+	  double need=sqrt((3.e0+h*eigmax)/0.353e0)+1;
 
 	  ++pass;
 
-	  if (mdeg>152)
+	  if (!(need<153.e0))
 	    {
 	      h=0.8e0*(152.e0*152.e0*0.353e0-3.e0)/eigmax;
 	      mdeg=152;
 	      last=false;
+	      if (!(h>=10.0e0*uround))
+		throw OdesException("Rock4: no step for the spectral radius",
+				    eigmax);
 	    }
+	  else
+	    mdeg=need;
 	  mdeg=max(mdeg,5)-4;
 	  if(mdeg!=mdego)
 	    {
-- 
2.43.0


From 6e95b081f1ad10e2c27755db5fd6b767ead34e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:16 +0000
Subject: [PATCH 48/48] fix: Rock4 accepts a step with an infinite result
 because its error weight is infinite

---
 Rock4-NG/include/ToolOMP.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Rock4-NG/include/ToolOMP.hpp b/Rock4-NG/include/ToolOMP.hpp
index 789ffa8..9967ba5 100644
--- a/Rock4-NG/include/ToolOMP.hpp
+++ b/Rock4-NG/include/ToolOMP.hpp
@@ -150,7 +150,7 @@ namespace odes {
 	  double ab=ABS(y[i])*rtol+atol;
 	  double d=1.e0/ab;
 	  double s=a1*x1[i]+a2*x2[i]+a3*x3[i]+a4*x4[i]+a5*x5[i];
-	  ret+=s*s*d*d;
+	  ret+=s*s*d*d+0.e0*ab; // NaN, not 0, if y[i] is infinite.
 	}
       return ret;
     }
-- 
2.43.0

