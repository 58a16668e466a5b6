// C24: random streams. Scripts of draws are replayed after re-seeding, restoring the state and distracting draws, on 1 to 40
// threads; ranges and frequencies of every kind of draw; Perlin terrain against a transcription.
#include "rv.hpp"
#include <cmath>
#include <limits>
#include <algorithm>
#include <numeric>
#include <omp.h>
#include <richdem/common/Array2D.hpp>
#include <richdem/common/random.hpp>
#include <richdem/terrain_generation.hpp>
using namespace rv; using namespace richdem;
using Seq=std::vector<uint64_t>;
static uint64_t bits(double d){ uint64_t u; memcpy(&u,&d,8); return u; }
struct Step { int k; double a,b; };
static std::vector<Step> script(Rng&r,int n){ std::vector<Step> s; for(int i=0;i<n;i++){ Step t; t.k=r.range(0,5); t.a=r.range(-1000,1000); t.b=t.a+r.range(1,5000); s.push_back(t); } return s; }
static uint64_t draw(const Step&t){ switch(t.k){ case 0: return (uint64_t)uniform_rand_int((int)t.a,(int)t.b); case 1: return bits(uniform_rand_real(t.a,t.b)); case 2: case 3: return bits(normal_rand(t.a,t.b-t.a)); case 4: return uniform_bits<uint32_t>(); default: return uniform_bits<uint64_t>(); } }
// every thread draws its own script; per-thread sequences
static std::vector<Seq> all(int T,const std::vector<std::vector<Step>>&sc){ std::vector<Seq> out(T);
  #pragma omp parallel num_threads(T)
  { int me=omp_get_thread_num(); for(auto&s:sc[me%sc.size()]) out[me].push_back(draw(s)); }
  return out; }
// Ken Perlin's improved noise over a shuffled permutation
struct RefPerlin { std::vector<int> p; RefPerlin(unsigned seed){ p.resize(256); std::iota(p.begin(),p.end(),0); std::default_random_engine e(seed); std::shuffle(p.begin(),p.end(),e); p.insert(p.end(),p.begin(),p.end()); }
  static double fade(double t){ return 6*t*t*t*t*t-15*t*t*t*t+10*t*t*t; }
  static double grad(int h,double x,double y,double z){ static const int g[16][3]={{1,1,0},{-1,1,0},{1,-1,0},{-1,-1,0},{1,0,1},{-1,0,1},{1,0,-1},{-1,0,-1},{0,1,1},{0,-1,1},{0,1,-1},{0,-1,-1},{1,1,0},{0,-1,1},{-1,1,0},{0,-1,-1}}; const int*q=g[h&15]; return q[0]*x+q[1]*y+q[2]*z; }
  double at(double x,double y,double z)const{ int X=(int)std::floor(x)&255,Y=(int)std::floor(y)&255,Z=(int)std::floor(z)&255; x-=std::floor(x); y-=std::floor(y); z-=std::floor(z); double u=fade(x),v=fade(y),w=fade(z),s=0;
    for(int i=0;i<2;i++)for(int j=0;j<2;j++)for(int k=0;k<2;k++) s+=(i?u:1-u)*(j?v:1-v)*(k?w:1-w)*grad(p[p[p[X+i]+Y+j]+Z+k],x-i,y-j,z-k); return (s+1)/2; } };
static void one(Rng&r,uint64_t cs){
  static const int ts[]={1,1,2,3,4,8,16,31,33,40}; int T=ts[r.below(r.chance(0.2)?10:6)]; omp_set_dynamic(0); omp_set_num_threads(T);
  static const uint64_t sp[]={1,2,3,0xffffffffull,0x100000000ull,0xffffffffffffffffull,0x8000000000000000ull,0x200000001ull}; uint64_t seed=r.chance(0.3)?sp[r.below(8)]:r.chance(0.3)?1+r.below(50):r.next()|1;
  std::vector<std::vector<Step>> sc; int m=r.range(1,3); for(int i=0;i<m;i++) sc.push_back(script(r,r.range(3,25))); Step raw{5,0,0}; std::string ctx=fmt("seed %llu threads %d ",(unsigned long long)seed,T);
  nontrivial(seed*31+T+cs*0); count("threads",T);
  op("seed_rand"); seed_rand(seed); auto a=all(T,sc); 
  { int k=r.range(0,7); auto junk=script(r,k); all(T,{junk}); if(r.chance(0.3)) seed_rand(r.next()|1); if(r.chance(0.5)) normal_rand(0,1); }
  seed_rand(seed); auto b=all(T,sc); for(int t=0;t<T;t++) if(a[t]!=b[t]){ size_t i=0; while(a[t][i]==b[t][i]) i++; fail("seed_rand:sequence-not-reproduced",ctx+fmt("thread %d draw %zu kind %d",t,i,sc[t%m][i].k)); break; }
  { std::vector<std::vector<Step>> rs{{raw,raw,raw,raw}}; seed_rand(seed); auto x=all(T,rs); for(int t=0;t<T;t++)for(int u=0;u<t;u++) if(x[t]==x[u]) { fail("seed_rand:threads-share-a-stream",ctx+fmt("threads %d and %d",u,t)); t=T; break; }
    uint64_t s2; do { s2=r.chance(0.3)?seed^(1ull<<r.below(64)):r.chance(0.3)?seed+1+r.below(3):r.chance(0.2)?seed+0x100000000ull:r.next(); } while(s2==0||s2==seed); seed_rand(s2); auto y=all(T,rs); for(int t=0;t<T;t++)for(int u=0;u<T;u++) if(x[t]==y[u]){ fail("seed_rand:different-seeds-same-stream",ctx+fmt("and seed %llu threads %d %d",(unsigned long long)s2,t,u)); t=T; break; }
    if(r.chance(0.1)){ seed_rand(0); auto p=all(T,rs); seed_rand(0); auto q=all(T,rs); for(int t=0;t<T;t++) if(p[t]==q[t]||p[t]==x[t]){ fail("seed_rand:zero-seed-repeats",ctx); break; } } count("streams_compared",T); }
  // save and restore, on this thread and on every thread
  { op("SaveRandomState"); seed_rand(seed); auto pre=script(r,r.range(0,9)); for(auto&s:pre) draw(s); auto st=SaveRandomState(); auto s1=script(r,r.range(2,30)); Seq x,y; for(auto&s:s1) x.push_back(draw(s)); if(r.chance(0.5)) seed_rand(r.next()|1); auto j=script(r,r.range(0,5)); for(auto&s:j) draw(s); SetRandomState(st); for(auto&s:s1) y.push_back(draw(s)); if(x!=y) fail("SetRandomState:sequence-not-resumed",ctx); if(SaveRandomState()==st&&s1.size()) fail("SaveRandomState:state-does-not-advance",ctx);
    std::vector<std::string> sts(T); 
    #pragma omp parallel num_threads(T)
    sts[omp_get_thread_num()]=SaveRandomState();
    auto p=all(T,sc);
    #pragma omp parallel num_threads(T)
    SetRandomState(sts[omp_get_thread_num()]);
    auto q=all(T,sc); if(p!=q) fail("SetRandomState:thread-sequence-not-resumed",ctx); count("restores",T+1); }
  // ranges
  { op("uniform_rand_int"); int lo,hi; int k=r.range(0,4); if(k==0){ lo=hi=r.range(-5,5); } else if(k<3){ lo=r.range(-20,20); hi=lo+r.range(1,12); } else if(k==3){ lo=std::numeric_limits<int>::min(); hi=std::numeric_limits<int>::max(); } else { lo=std::numeric_limits<int>::max()-r.range(0,9); hi=std::numeric_limits<int>::max(); }
    uint64_t w=(uint64_t)((int64_t)hi-lo)+1; int N=w<=13?(int)w*400:400; std::map<int,int> h; double mean=0; for(int i=0;i<N;i++){ int v=uniform_rand_int(lo,hi); if(v<lo||v>hi){ fail("uniform_rand_int:out-of-range",ctx+fmt("%d not in [%d,%d]",v,lo,hi)); return; } h[v]++; mean+=((double)v-lo)/std::max<double>(1,(double)w-1)/N; }
    if(w<=13){ double e=400,sd=std::sqrt(400.0); for(int64_t v=lo;v<=hi;v++) if(std::fabs(h[(int)v]-e)>8*sd+1&&w>1){ fail("uniform_rand_int:biased",ctx+fmt("value %d in [%d,%d] drawn %d times in %d",(int)v,lo,hi,h[(int)v],N)); return; } } else if(std::fabs(mean-0.5)>8*0.2887/std::sqrt((double)N)) fail("uniform_rand_int:biased-wide",ctx+fmt("mean %g",mean)); count("draws",N); }
  { op("uniform_rand_real"); double lo,hi; int k=r.range(0,3); if(k==0){ lo=0; hi=1; } else if(k==1){ lo=(r.unit()-0.5)*1e6; hi=lo+r.unit()*1e3+1e-3; } else if(k==2){ lo=std::ldexp(1.0,r.range(0,60)); hi=lo; int s=r.range(1,6); for(int i=0;i<s;i++) hi=std::nextafter(hi,1e300); } else { lo=-1e300; hi=1e300; }
    int N=500; double m=0; for(int i=0;i<N;i++){ double v=uniform_rand_real(lo,hi); if(!(v>=lo&&v<hi)){ fail("uniform_rand_real:out-of-range",ctx+fmt("%.17g not in [%.17g,%.17g)",v,lo,hi)); return; } m+=(v/2-lo/2)/(hi/2-lo/2)/N; } if(k!=2&&std::fabs(m-0.5)>8*0.2887/std::sqrt((double)N)) fail("uniform_rand_real:biased",ctx+fmt("mean %g",m)); count("draws",N); }
  { op("normal_rand"); double mu=(r.unit()-0.5)*100,sd=r.unit()*10+0.01; int N=800; double m=0,v=0; int in1=0; for(int i=0;i<N;i++){ double x=(normal_rand(mu,sd)-mu)/sd; if(!(std::fabs(x)<10)){ fail("normal_rand:implausible",ctx+fmt("%g deviations",x)); return; } m+=x/N; v+=x*x/N; in1+=std::fabs(x)<1; } if(std::fabs(m)>8/std::sqrt((double)N)||std::fabs(v-1)>8*std::sqrt(2.0/N)||std::fabs(in1/(double)N-0.6827)>8*std::sqrt(0.6827*0.3173/N)) fail("normal_rand:distribution",ctx+fmt("mean %g var %g within one %d of %d",m,v,in1,N)); count("draws",N); }
  { op("uniform_bits"); uint64_t o=0,n=~0ull; uint32_t o3=0,n3=~0u; for(int i=0;i<64;i++){ uint64_t v=uniform_bits<uint64_t>(); o|=v; n&=v; uint32_t q=uniform_bits<uint32_t>(); o3|=q; n3&=q; } if(~o||n||~o3||n3) fail("uniform_bits:stuck-bit",ctx); }
  // generated terrain
  { op("generate_perlin_terrain"); int s=r.range(1,24); uint32_t ps=r.chance(0.3)?r.below(4):(uint32_t)r.next(); Array2D<double> x(s,s,-5.0),y(s,s,7.0); generate_perlin_terrain(x,ps); if(r.chance(0.5)) uniform_rand_int(0,5); generate_perlin_terrain(y,ps); RefPerlin ref(ps);
    for(int yy=0;yy<s;yy++)for(int xx=0;xx<s;xx++){ if(bits(x(xx,yy))!=bits(y(xx,yy))){ fail("perlin:not-reproducible",fmt("size %d seed %u",s,ps)); return; } double e=ref.at(10*xx/(double)s,10*yy/(double)s,0.8); if(!(std::fabs(e-x(xx,yy))<1e-9)){ fail("perlin:value",fmt("size %d seed %u cell %d,%d is %.17g expected %.17g",s,ps,xx,yy,x(xx,yy),e)); return; } } count("terrain_cells",s*s);
    if(s>1){ Array2D<double> z(s,s-1,0.0); bool t=false; try{ generate_perlin_terrain(z,ps); }catch(const std::runtime_error&){ t=true; } check(t,"perlin:oblong-accepted",fmt("%dx%d",s,s-1)); } }
  if(want_sample()) sample(ctx);
}
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t c){ one(r,c); }); }
