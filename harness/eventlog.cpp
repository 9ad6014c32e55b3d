// Event log: every operation sequence on the log against a list model.
#include "mc.hpp"
#include "logger.hpp"
using namespace std;
struct Ev{ double t; int step; int type; double v; };
static const char*NM[]={"success","rejectedStep","NewtonFailed","NewtonWillNotConverge","changedH"};
static string model(const vector<Ev>&L,int f){ string r; int c=0; for(auto&e:L) if(f==5||e.type==f){ r+=to_string(++c)+" Time: "+to_string(e.t)+" step: "+to_string(e.step)+" Event: "+NM[e.type]; if(e.type==4||e.type==1) r+=" new step: "+to_string(e.v); r+="\n"; } return r; }
// compare the meaning, not the layout: the sequence of tokens
static vector<string> toks(const string&s){ vector<string> r; stringstream ss(s); string t; while(ss>>t) r.push_back(t); return r; }
int main(int c,char**v){ return mc::run(c,v,[]{
  odes::logger L; vector<Ev> M; int depth=mc::thorough()?7:6;
  for(int d=0;d<depth;d++){
    int op=mc::choose(6,"op"); if(d==1) mc::shard();
    if(op<5){ double t=0.25*d,val=0.5/(1+d); L.put(t,d+1,(odes::eventType)op,val); M.push_back({t,d+1,op,val}); }
    else { L.clear(); M.clear(); }
    mc::step();
  }
  uint64_t h=0;
  for(int f=0;f<=5;f++){ string a=L.tostring((odes::eventType)f),b=model(M,f); mc::step(); h=mc::mix(h,mc::hstr(b.c_str()));
    auto ta=toks(a),tb=toks(b);
    MC_REQUIRE(ta==tb,mc::fmt("log:filter%d",f),"the log reports\n%s instead of\n%s",a.c_str(),b.c_str()); 
    MC_REQUIRE(std::count(a.begin(),a.end(),'\n')==std::count(b.begin(),b.end(),'\n'),"log:lines","one line per event expected"); }
  ostringstream o; o<<L; MC_REQUIRE(toks(o.str())==toks(model(M,5)),"log:stream","streaming the log differs from its text"); 
  mc::gstate(h); mc::outcome(h); mc::validated();
}); }
