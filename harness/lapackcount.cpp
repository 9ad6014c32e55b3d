// Counts the LAPACK factorizations really made: the library's routines are called through these.
#include <dlfcn.h>
#include "lapackcount.hpp"
namespace lapackcount { long R=0,C=0; }
#define LC_WRAP(name,cnt,proto,args) extern "C" void name proto { ++lapackcount::cnt; typedef void(*FN)proto; static FN fn=(FN)dlsym(RTLD_NEXT,#name); fn args; }
LC_WRAP(dgetrf_,R,(int*m,int*n,double*a,int*l,int*p,int*i),(m,n,a,l,p,i))
LC_WRAP(zgetrf_,C,(int*m,int*n,void*a,int*l,int*p,int*i),(m,n,a,l,p,i))
LC_WRAP(dgbtrf_,R,(int*m,int*n,int*kl,int*ku,double*a,int*l,int*p,int*i),(m,n,kl,ku,a,l,p,i))
LC_WRAP(zgbtrf_,C,(int*m,int*n,int*kl,int*ku,void*a,int*l,int*p,int*i),(m,n,kl,ku,a,l,p,i))
