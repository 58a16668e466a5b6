// C32: the progress bar (what reaches std::cerr is captured and parsed) and the timer (lock-step model with its own clock readings).
#include "rv.hpp"
#include <cmath>
#include <chrono>
#include <thread>
#include <limits>
#include <omp.h>
#include <richdem/common/ProgressBar.hpp>
using namespace rv; using namespace richdem;
struct Shown { int pct,eq,sp,thr; double eta; bool ok; };
static std::vector<Shown> parse(const std::string&s,const std::string&ctx,bool&bad){ std::vector<Shown> v; size_t i=0; bad=false; std::string t=s; size_t k; while((k=t.find("\r\033[2K"))!=std::string::npos) t.replace(k,5,"\n"); std::istringstream is(t); std::string l; while(std::getline(is,l)){ if(l.empty()) continue; Shown q{0,0,0,0,0,true}; size_t e=l.find(']'); int n=0; if(l[0]!='['||e==std::string::npos||sscanf(l.c_str()+e,"] (%d%% - %lfs - %d threads)%n",&q.pct,&q.eta,&q.thr,&n)!=3||e+n!=l.size()){ fail("ProgressBar:malformed-line","'"+l.substr(0,200)+"' "+ctx); bad=true; return v; } for(size_t j=1;j<e;j++){ q.eq+=l[j]=='='; q.sp+=l[j]==' '; } if(q.eq+q.sp!=(int)e-1) { fail("ProgressBar:malformed-bar",l+" "+ctx); bad=true; } v.push_back(q); } (void)i; return v; }
static void bar(Rng&r){
  std::stringbuf cap; struct G{ std::streambuf*o; std::ios_base::fmtflags f; std::streamsize p; G(std::streambuf*b):o(std::cerr.rdbuf(b)),f(std::cerr.flags()),p(std::cerr.precision()){} ~G(){ std::cerr.rdbuf(o); } } g(&cap);
  ProgressBar pb; int rounds=r.range(1,3); bool early=r.chance(0.1); if(early){ op("ProgressBar-before-start"); try{ pb.update(r.below(5)); ++pb; }catch(const std::runtime_error&){} cap.str(""); bool t=false; try{ pb.stop(); }catch(const std::runtime_error&){ t=true; } check(t,"ProgressBar:stop-without-start-accepted",""); }
  for(int q=0;q<rounds;q++){
    cap.str(""); static const uint64_t ks[]={0,1,2,3,99,100,101,199,200,201,1000,42949672,42949673,4294967294ull,4294967295ull,4294967296ull,4294967297ull,10000000000ull,1ull<<40,1ull<<56}; uint64_t total=r.chance(0.5)?ks[r.below(20)]:r.chance(0.5)?r.below(5000):r.next()>>r.range(2,50);
    int T=r.chance(0.7)?1:r.range(2,6); int order=r.range(0,3); int n=r.range(0,400); std::string ctx=fmt("total %llu threads %d order %d updates %d",(unsigned long long)total,T,order,n); op("ProgressBar "); 
    std::vector<uint64_t> w; for(int i=0;i<n;i++){ uint64_t v; switch(order){ case 0: v=(uint64_t)((long double)total*i/std::max(1,n-1)); break; case 1: v=i; break; case 2: v=total?r.next()%total:0; break; default: v=(uint64_t)((long double)total*i/std::max(1,n-1)*1.5L); } w.push_back(v); }
    if(order==0&&n) w.back()=total;
    pb.start(total); bool inc=r.chance(0.2); auto t0=std::chrono::steady_clock::now();
    std::vector<std::pair<size_t,uint64_t>> seen; // bytes printed before/after each update
    uint64_t last=0; if(T==1){ for(auto v:w){ if(inc){ ++pb; last++; } else { pb.update(v); last=v; } seen.push_back({cap.str().size(),last}); } }
    else {
      #pragma omp parallel num_threads(T)
      { for(auto v:w){ if(inc){ ++pb; if(omp_get_thread_num()==0){ last++; } } else { pb.update(v/T); if(omp_get_thread_num()==0) last=v/T; } if(omp_get_thread_num()==0) seen.push_back({cap.str().size(),last}); } }
    }
    int tail=T>1?r.range(0,3):0; for(int i=0;i<tail;i++){ uint64_t v=total?r.next()%total:0; pb.update(v); last=v; seen.push_back({cap.str().size(),last}); } int serial_from=(int)seen.size()-tail;
    if(pb.cellsProcessed()!=last) fail("ProgressBar:work-misreported",ctx+fmt(" says %llu did %llu",(unsigned long long)pb.cellsProcessed(),(unsigned long long)last));
    auto dt0=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); double took=pb.stop(); double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); if(!(took>=dt0-0.005-0.01*dt0&&took<=dt+0.005+0.01*dt)||took!=pb.time_it_took()) fail("ProgressBar:duration",ctx+fmt(" reports %g s, measured %g to %g",took,dt0,dt));
    std::string out=cap.str(); bool bad; auto v=parse(out,ctx,bad); if(bad) return; int prev=0; count("lines_shown",v.size());
    if(v.size()>101) fail("ProgressBar:unbounded-output",ctx+fmt(" %zu lines",v.size()));
    for(auto&s:v){ if(s.pct<prev){ fail("ProgressBar:percentage-decreased",ctx+fmt(" %d after %d",s.pct,prev)); break; } if(s.pct>100||s.pct<0){ fail("ProgressBar:percentage-beyond-100",ctx+fmt(" %d",s.pct)); break; } if(s.eq!=s.pct/2||s.eq+s.sp!=50){ fail("ProgressBar:bar-length",ctx+fmt(" %d%% drawn as %d of %d",s.pct,s.eq,s.eq+s.sp)); break; } if(!(s.eta>=0)||std::isinf(s.eta)){ fail("ProgressBar:negative-or-infinite-estimate",ctx+fmt(" %g",s.eta)); break; } prev=s.pct; }
    // what a line says is the share of the work just reported
    if(total){ size_t li=0,at=0; for(size_t i=0;i<seen.size();i++){ if(seen[i].first>at+(i==0?5:0)){ at=seen[i].first; if(li<v.size()){ int thr=(int)i<serial_from?T:1; long double p=100.0L*seen[i].second*thr/total; if(p>100) p=100; if(std::fabs((double)(v[li].pct-std::floor(p)))>(std::fabs((double)(p-std::round(p)))<1e-6?1:0)||v[li].thr!=thr){ fail("ProgressBar:wrong-percentage",ctx+fmt(" shows %d%% (%d threads) after %llu of %llu on %d",v[li].pct,v[li].thr,(unsigned long long)seen[i].second,(unsigned long long)total,thr)); return; } li++; } } else if(i==0) at=seen[i].first; }
      if(T==1&&order==0&&!inc&&n>210){ int best=v.empty()?0:v.back().pct; if(best<98) fail("ProgressBar:stalls",ctx+fmt(" last shown %d%%",best)); } count("percentages_judged",li); }
    else if(!v.empty()) count("lines_for_no_work",v.size());
    nontrivial(Rng(total).next()+n*7+T+order*1000+inc);
  }
  if(std::cerr.flags()!=g.f||std::cerr.precision()!=g.p) fail("ProgressBar:stream-formatting-changed","flags or precision of std::cerr differ after use");
}
static void timer(Rng&r){
  Timer t; bool run=false; using C=std::chrono::system_clock; C::time_point s0,s1; double lo=0,hi=0; auto sec=[](C::time_point a,C::time_point b){ return std::chrono::duration<double>(b-a).count(); }; const double eps=1e-6; std::string hist; int n=r.range(6,30);
  for(int i=0;i<n;i++){ int k=r.range(0,9); bool threw=false; double v=-1; auto a=C::now(),b=a; op("Timer"); switch(k){
      case 0: case 1: case 2: hist+="start "; try{ t.start(); }catch(const std::runtime_error&){ threw=true; } b=C::now(); if(threw!=run){ fail("Timer:start",hist); return; } if(!run){ run=true; s0=a; s1=b; } break;
      case 3: case 4: hist+="stop "; try{ v=t.stop(); }catch(const std::runtime_error&){ threw=true; } b=C::now(); if(threw==run){ fail("Timer:stop",hist); return; } if(run){ run=false; lo+=std::max(0.0,sec(s1,a)); hi+=sec(s0,b); if(!(v>=lo-eps&&v<=hi+eps)){ fail("Timer:stop-total",hist+fmt("%.9g not in [%.9g,%.9g]",v,lo,hi)); return; } } break;
      case 5: case 6: hist+="accumulated "; try{ v=t.accumulated(); }catch(const std::runtime_error&){ threw=true; } if(threw!=run){ fail("Timer:accumulated",hist); return; } if(!run&&!(v>=lo-eps&&v<=hi+eps)){ fail("Timer:accumulated-total",hist+fmt("%.9g not in [%.9g,%.9g]",v,lo,hi)); return; } break;
      case 7: hist+="lap "; try{ v=t.lap(); }catch(const std::runtime_error&){ threw=true; } b=C::now(); if(threw==run){ fail("Timer:lap",hist); return; } if(run&&!(v>=sec(s1,a)-eps&&v<=sec(s0,b)+eps)){ fail("Timer:lap-time",hist+fmt("%.9g",v)); return; } break;
      case 8: if(r.chance(0.3)){ hist+="reset "; t.reset(); run=false; lo=hi=0; } break;
      default: std::this_thread::sleep_for(std::chrono::microseconds(r.range(10,1500))); hist+="wait "; }
    count("timer_steps"); }
  Hash h; h.adds(hist); nontrivial(h.h); if(want_sample()) sample(hist);
}
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t c){ if(c%3) bar(r); else timer(r); }); }
