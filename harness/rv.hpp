// Runtime-verification support shared by all harnesses: seeded RNG, case loop,
// violation reporting, distinct-case counting and a status page that survives a crash.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <iostream>
#include <functional>
#include <stdexcept>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>

namespace rv {

struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t &x){ uint64_t z=(x+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
  explicit Rng(uint64_t seed){ s[0]=mix(seed); s[1]=mix(seed); }
  uint64_t next(){ uint64_t a=s[0]; const uint64_t b=s[1]; s[0]=b; a^=a<<23; s[1]=a^b^(a>>18)^(b>>5); return s[1]+b; }
  // [0,n)
  uint64_t below(uint64_t n){ return n? next()%n : 0; }
  int range(int lo,int hi){ return lo+(int)below((uint64_t)(hi-lo)+1); }
  double unit(){ return (next()>>11)*(1.0/9007199254740992.0); }
  bool chance(double p){ return unit()<p; }
  template<class V> const typename V::value_type& pick(const V&v){ return v[below(v.size())]; }
};

struct StatusPage { volatile uint64_t case_id; volatile uint64_t done; char op[256]; };

struct Opts {
  uint64_t seed=1, from=0, to=0; bool only=false; std::string tier="quick", out, status, scratch; int cpu_limit=40;
  bool thorough() const { return tier=="thorough"; }
};

inline Opts &opts(){ static Opts o; return o; }
inline StatusPage *&status(){ static StatusPage *p=nullptr; return p; }
inline FILE *&outf(){ static FILE*f=nullptr; return f; }

struct Stats {
  uint64_t evals=0;
  std::vector<uint64_t> hashes;                 // hashes of non-trivial cases seen since last flush
  std::map<std::string,uint64_t> counters;
  std::vector<std::string> samples;
  std::map<std::string,int> violcount;
};
inline Stats &st(){ static Stats s; return s; }

inline std::string jesc(const std::string &s){
  std::string o; char b[8];
  for(unsigned char c: s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c<32||c>126){ snprintf(b,8,"\\u%04x",c); o+=b;} else o+=c; }
  return o;
}

inline void op(const std::string &name){ if(status()){ strncpy((char*)status()->op,name.c_str(),255); } }

struct Hash { uint64_t h=1469598103934665603ull; void add(uint64_t v){ for(int i=0;i<8;i++){ h^=(v>>(8*i))&255; h*=1099511628211ull; } } void addd(double d){ uint64_t u; memcpy(&u,&d,8); add(u);} void adds(const std::string&s){for(char c:s){h^=(unsigned char)c;h*=1099511628211ull;}} };

inline void count(const std::string &k,uint64_t n=1){ st().counters[k]+=n; }
inline void nontrivial(uint64_t h){ st().hashes.push_back(h); }
inline void sample(const std::string &s){ if(st().samples.size()<3) st().samples.push_back(s.substr(0,600)); }
inline bool want_sample(){ return st().samples.size()<3; }

inline void flush(){
  if(!outf()) return;
  auto &s=st();
  fprintf(outf(),"{\"t\":\"sum\",\"evals\":%llu,\"hashes\":[",(unsigned long long)s.evals);
  for(size_t i=0;i<s.hashes.size();i++) fprintf(outf(),"%s%llu",i?",":"",(unsigned long long)(s.hashes[i]>>11));
  fprintf(outf(),"],\"counters\":{");
  bool first=true; for(auto&kv:s.counters){ fprintf(outf(),"%s\"%s\":%llu",first?"":",",jesc(kv.first).c_str(),(unsigned long long)kv.second); first=false; }
  fprintf(outf(),"},\"samples\":[");
  for(size_t i=0;i<s.samples.size();i++) fprintf(outf(),"%s\"%s\"",i?",":"",jesc(s.samples[i]).c_str());
  fprintf(outf(),"]}\n"); fflush(outf());
  s.evals=0; s.hashes.clear(); s.counters.clear();
  static bool sent=false; if(s.samples.size()>=3||sent){ sent=true; } 
}

// Report a violation. key identifies the failing call and the broken clause.
inline void fail(const std::string &key,const std::string &msg){
  int n=++st().violcount[key];
  if(n>3) return;
  fprintf(outf(),"{\"t\":\"viol\",\"key\":\"%s\",\"case\":%llu,\"msg\":\"%s\"}\n",jesc(key).c_str(),(unsigned long long)status()->case_id,jesc(msg.substr(0,3000)).c_str());
  fflush(outf());
}
inline bool check(bool ok,const std::string &key,const std::string &msg){ if(!ok) fail(key,msg); return ok; }

inline std::string fmt(const char *f,...){ char b[4096]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }

inline void on_cpu(int){ // async-signal-safe exit: the driver reads the status page
  _exit(97);
}
inline void arm(int sec){ struct itimerval t{}; t.it_value.tv_sec=sec; setitimer(ITIMER_PROF,&t,nullptr); }

using CaseFn=std::function<void(Rng&,uint64_t)>;

inline int main_loop(int argc,char**argv,const CaseFn &fn){
  auto &o=opts();
  for(int i=1;i<argc;i++){
    std::string a=argv[i]; auto val=[&](){ return std::string(argv[++i]); };
    if(a=="--seed") o.seed=std::stoull(val()); else if(a=="--from") o.from=std::stoull(val()); else if(a=="--to") o.to=std::stoull(val());
    else if(a=="--tier") o.tier=val(); else if(a=="--out") o.out=val(); else if(a=="--status") o.status=val(); else if(a=="--scratch") o.scratch=val();
    else if(a=="--cpu") o.cpu_limit=std::stoi(val());
  }
  if(o.out.empty()) outf()=stdout; else outf()=fopen(o.out.c_str(),"a");
  if(!o.status.empty()){
    int fd=open(o.status.c_str(),O_RDWR|O_CREAT,0600); if(fd<0||ftruncate(fd,sizeof(StatusPage))){ perror("status"); return 3; }
    status()=(StatusPage*)mmap(nullptr,sizeof(StatusPage),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
  } else status()=(StatusPage*)calloc(1,sizeof(StatusPage));
  signal(SIGPROF,on_cpu);
  for(uint64_t c=o.from;c<o.to;c++){
    status()->case_id=c; op("case");
    arm(o.cpu_limit);
    uint64_t sd=o.seed*1000003ull+c*0x9E3779B97F4A7C15ull;
    Rng rng(sd);
    try { fn(rng,c); }
    catch(const std::exception &e){ fail(std::string("exception:")+std::string((char*)status()->op),std::string("unexpected exception: ")+e.what()); }
    catch(...){ fail(std::string("exception:")+std::string((char*)status()->op),"unexpected exception"); }
    st().evals++;
    if((c-o.from)%16==15) flush();
  }
  arm(0);
  flush();
  status()->done=1;
  fprintf(outf(),"{\"t\":\"end\"}\n"); fflush(outf());
  return 0;
}
}
