// the general method's step (independent model, coefficient tables of the general solver), compiled apart from Rock4-L's headers
#define RockRef NGRockRef
#define allocDoubleArray ng_alloc
#define destroyDoubleArray ng_free
#include "rock_ref.hpp"
void ng_step(REnv&e,const std::vector<LD>&y,LD h,int deg,std::vector<LD>&out,int&used){ RWorld w; w.env=&e; w.record=false; NGRockRef R(e.n,&w); std::vector<LD> fn,fnew; R.F(y,fn); LD nz; R.step(y,fn,h,deg,out,fnew,nz,used); }
