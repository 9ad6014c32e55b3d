// mc.hpp - a small stateless model checker: exhaustive depth-first enumeration of every
// sequence of choices a harness body can make, each executed on the real code.
//
//   int  mc::choose(n,"label")   next environment/operation choice, 0..n-1
//   void mc::shard()             end of the choices used to split the space over processes
//   void mc::step(k)             k transitions (calls into the implementation) were taken
//   void mc::state(h)            a state (fingerprint of what was observed) was reached
//   void mc::outcome(h)          fingerprint of the final observation of this execution
//   mc::require(ok,key,fmt...)   the property; a failure ends this execution only
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <iostream>
#include <fstream>
#include <sstream>
#include <functional>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>

namespace mc {
struct Stop {};            // this execution is over (violation recorded)
struct Skip {};            // not ours / not interesting: not counted
struct Choice { int n, v; const char* label; };
struct Viol { std::string key, msg, path; };

struct Global {
  std::vector<Choice> path;        // choices of the current execution
  size_t depth=0;
  std::vector<int> prefix;
  bool replaying=false;
  long execs=0, skipped=0, trans=0, traces=0, evals=0;
  std::unordered_set<uint64_t> states, outcomes, nontrivial;
  std::vector<std::string> samples;
  std::vector<Viol> viols;
  std::map<std::string,long> counters;
  std::map<std::string,int> keycount;
  int shard=0, nshards=1;
  bool thorough=false, sharded=false, complete=true, bad=false;
  double budget=600; int execlimit=30;
  int* cur=nullptr;
  std::string desc;
  std::set<std::string> labels;
  int maxdepth=0;
};
inline Global& G(){ static Global* g=new Global; return *g; }
inline bool thorough(){ return G().thorough; }
inline double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }

inline uint64_t mix(uint64_t h,uint64_t v){
  h^=v+0x9e3779b97f4a7c15ULL+(h<<6)+(h>>2);
  h*=0xff51afd7ed558ccdULL; h^=h>>32; return h; }
inline uint64_t hstr(const char*s){ uint64_t h=1469598103934665603ULL; for(;*s;++s){h^=(unsigned char)*s;h*=1099511628211ULL;} return h; }
inline uint64_t hd(uint64_t h,double x){ if(x==0) x=0; uint64_t u; memcpy(&u,&x,8); return mix(h,u); }
// rounded fingerprint (7 significant digits) so that a state is not a rounding accident
inline uint64_t hr(uint64_t h,double x){ char b[40]; snprintf(b,40,"%.6e",x); return mix(h,hstr(b)); }

inline uint64_t pathhash(){ uint64_t h=7; for(auto&c:G().path) h=mix(h,c.v*131+c.n); return h; }

inline int choose(int n,const char*label){
  Global&g=G();
  if(n<=0){ fprintf(stderr,"mc: choose(%d,%s)\n",n,label); _exit(95); }
  int v=0;
  if(g.depth<g.prefix.size()){
    v=g.prefix[g.depth];
    if(v>=n||v<0){ fprintf(stderr,"mc: divergence at depth %zu: choice %d of %d (%s)\n",g.depth,v,n,label); _exit(95); }
  }
  g.path.push_back({n,v,label}); ++g.depth;
  if(g.cur){ g.cur[g.depth]=v; g.cur[0]=(int)g.depth; }
  if((int)g.depth>g.maxdepth) g.maxdepth=(int)g.depth;
  return v;
}
template<class T,size_t N> inline const T& pick(const T(&a)[N],const char*label){ return a[choose((int)N,label)]; }
// variation bound on tiers: quick uses the first q of n
inline int chooseq(int q,int n,const char*label){ return choose(G().thorough?n:q,label); }

inline void shard(){
  Global&g=G();
  if(g.sharded) return; g.sharded=true;
  if(g.replaying||g.nshards==1) return;
  if((int)(pathhash()%(uint64_t)g.nshards)!=g.shard) throw Skip();
}
inline void skip(){ throw Skip(); }
inline void step(long k=1){ G().trans+=k; }
inline void state(uint64_t h){ G().states.insert(mix(h,G().sharded?pathhash():0)); }
inline void gstate(uint64_t h){ G().states.insert(h); }   // state identified by observation alone
inline void outcome(uint64_t h){ G().outcomes.insert(h); }
inline void nontrivial(uint64_t h){ G().nontrivial.insert(h); }
inline void eval(long k=1){ G().evals+=k; }
inline void validated(long k=1){ G().traces+=k; }
inline void count(const char*k,long n=1){ G().counters[k]+=n; }
inline void countmax(const char*k,double v){ long n=(long)(v); auto&c=G().counters[strncmp(k,"max",3)?std::string("max: ")+k:std::string(k)]; if(n>c)c=n; }
inline std::string fmt(const char*f,...) __attribute__((format(printf,1,2)));
inline std::string fmt(const char*f,...){ char b[4096]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap); return b; }
inline void describe(const std::string&s){ G().desc=s; }
inline void sample(const std::string&s){ if(G().samples.size()<3) G().samples.push_back(s); }
inline std::string pathstr(){ std::string s; for(auto&c:G().path){ if(!s.empty())s+=","; s+=std::to_string(c.v);} return s; }
inline std::string pathlabels(){ std::string s; for(auto&c:G().path){ if(!s.empty())s+=" "; s+=std::string(c.label)+"="+std::to_string(c.v);} return s; }

inline void report(const std::string&key,const std::string&msg){
  Global&g=G(); g.bad=true;
  int&k=g.keycount[key]; ++k;
  if(k<=2 && g.viols.size()<60) g.viols.push_back({key,(g.desc.empty()?"":g.desc+": ")+msg+"  ["+pathlabels()+"]",pathstr()});
}
inline void fail(const std::string&key,const std::string&msg){ report(key,msg); throw Stop(); }
#define MC_REQUIRE(ok,key,...) do{ if(!(ok)) mc::fail(key,mc::fmt(__VA_ARGS__)); }while(0)
#define MC_CHECK(ok,key,...) do{ if(!(ok)) mc::report(key,mc::fmt(__VA_ARGS__)); }while(0)

inline std::string jesc(const std::string&s){ std::string r; for(unsigned char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c=='\n') r+="\\n"; else if(c<32||c>126){char b[8];snprintf(b,8,"\\u%04x",c);r+=b;} else r+=c;} return r; }

inline void onalarm(int){ if(G().cur) G().cur[4095]=1; _exit(96); }

inline void dump(const char*out,double wall){
  Global&g=G(); std::ofstream o(out);
  o<<"{\"execs\":"<<g.execs<<",\"skipped\":"<<g.skipped<<",\"transitions\":"<<g.trans<<",\"states\":"<<g.states.size()
   <<",\"outcomes\":"<<g.outcomes.size()<<",\"nontrivial\":"<<g.nontrivial.size()<<",\"evals\":"<<g.evals
   <<",\"traces\":"<<g.traces<<",\"complete\":"<<(g.complete?"true":"false")<<",\"maxdepth\":"<<g.maxdepth<<",\"wall\":"<<wall<<",\"samples\":[";
  for(size_t i=0;i<g.samples.size();++i) o<<(i?",":"")<<"\""<<jesc(g.samples[i])<<"\"";
  o<<"],\"counters\":{"; bool f=true; for(auto&k:g.counters){ o<<(f?"":",")<<"\""<<jesc(k.first)<<"\":"<<k.second; f=false; }
  o<<"},\"keys\":{"; f=true; for(auto&k:g.keycount){ o<<(f?"":",")<<"\""<<jesc(k.first)<<"\":"<<k.second; f=false; }
  o<<"},\"violations\":["; for(size_t i=0;i<g.viols.size();++i) o<<(i?",":"")<<"{\"key\":\""<<jesc(g.viols[i].key)<<"\",\"msg\":\""<<jesc(g.viols[i].msg)<<"\",\"path\":\""<<g.viols[i].path<<"\"}";
  o<<"]}\n";
}
inline void arm(int s){ itimerval it; memset(&it,0,sizeof it); it.it_value.tv_sec=s; setitimer(ITIMER_PROF,&it,nullptr); }

inline int run(int argc,char**argv,const std::function<void()>&body){
  Global&g=G(); const char*out=nullptr; const char*cur=nullptr; std::string rep; bool verbose=false;
  for(int i=1;i<argc;++i){ std::string a=argv[i];
    auto nx=[&]{ return argv[++i]; };
    if(a=="--shard") g.shard=atoi(nx()); else if(a=="--shards") g.nshards=atoi(nx());
    else if(a=="--thorough") g.thorough=true; else if(a=="--out") out=nx();
    else if(a=="--cur") cur=nx(); else if(a=="--budget") g.budget=atof(nx());
    else if(a=="--execlimit") g.execlimit=atoi(nx());
    else if(a=="--replay"){ g.replaying=true; rep=nx(); } else if(a=="-v") verbose=true;
  }
  if(cur){ int fd=open(cur,O_RDWR|O_CREAT|O_TRUNC,0644); if(ftruncate(fd,16384)==0){ void*p=mmap(0,16384,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); if(p!=MAP_FAILED) g.cur=(int*)p; } }
  if(!verbose){ std::cout.setstate(std::ios::badbit); std::cerr.setstate(std::ios::badbit); }
#ifndef __SANITIZE_ADDRESS__
  { rlimit rl; rl.rlim_cur=rl.rlim_max=3ul<<30; setrlimit(RLIMIT_AS,&rl); }
#endif
  signal(SIGPROF,onalarm);
  double t0=now();
  if(g.replaying){ std::stringstream ss(rep); std::string t; while(std::getline(ss,t,',')) if(!t.empty()) g.prefix.push_back(atoi(t.c_str())); }
  for(;;){
    g.path.clear(); g.depth=0; g.sharded=false; g.bad=false; g.desc.clear(); if(g.cur) g.cur[0]=0;
    arm(g.execlimit);
    bool counted=true;
    try{ body(); } catch(Stop&){} catch(Skip&){ counted=false; }
    catch(std::exception&e){ report("escaped-exception",std::string("exception escaped: ")+e.what()); }
    catch(...){ report("escaped-exception","an unexpected exception escaped"); }
    if(counted) ++g.execs; else ++g.skipped;
    if(g.replaying) break;
    // next path: backtrack
    while(!g.path.empty() && g.path.back().v+1>=g.path.back().n) g.path.pop_back();
    if(g.path.empty()) break;
    g.prefix.clear(); for(auto&c:g.path) g.prefix.push_back(c.v); ++g.prefix.back();
    if(now()-t0>(g.viols.empty()?g.budget:std::min(g.budget,60.0))){ g.complete=false; break; } // a violation is enough: do not wait for the rest
  }
  arm(0);
  if(out) dump(out,now()-t0);
  if(g.replaying){ for(auto&v:g.viols) printf("REPLAY-VIOLATION key=%s\n  %s\n",v.key.c_str(),v.msg.c_str()); if(g.viols.empty()) printf("REPLAY-OK\n"); }
  fflush(stdout);
  _exit(g.viols.empty()?0:1);
}
} // namespace mc
