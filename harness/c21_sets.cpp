// C21: disjoint sets against a label vector, the recency cache against a list.
#include "rv.hpp"
#include <algorithm>
#include <numeric>
#include <list>
#include <richdem/common/disjoint_dense_int_set.hpp>
#include <richdem/tiled/lru.hpp>
using namespace rv; using namespace richdem;
struct SetModel { std::vector<unsigned> lab; std::map<unsigned,unsigned> rep; /* label -> representative known by a directed merge */ void grow(size_t n){ while(lab.size()<n) lab.push_back(lab.size()); } 
  void join(unsigned a,unsigned b){ unsigned x=lab[a],y=lab[b]; for(auto&l:lab) if(l==x) l=y; } };
static void sets(Rng&r,Hash&hh){
  unsigned N=r.chance(0.2)?0:r.range(1,r.chance(0.2)?300:25); op("sets:construct"); DisjointDenseIntSet d=N==0&&r.chance(0.5)?DisjointDenseIntSet():DisjointDenseIntSet(N); SetModel m; m.grow(N); int steps=r.range(10,opts().thorough()?800:150); double pdir=r.chance(0.3)?0:r.unit();
  // representative of each set as last observed, valid until the set takes part in a union
  std::map<unsigned,unsigned> known; auto forget=[&](unsigned l){ known.erase(l); };
  auto find=[&](unsigned a){ unsigned q=d.findSet(a); count("finds"); if(q>=m.lab.size()||m.lab[q]!=m.lab[a]) fail("findSet:outside-set",fmt("find(%u) = %u",a,q)); else { auto it=known.find(m.lab[a]); if(it==known.end()) known[m.lab[a]]=q; else if(it->second!=q) fail("findSet:representative",fmt("find(%u) = %u expected %u",a,q,it->second)); } return q; };
  for(int s=0;s<steps&&st().violcount.empty();s++){ size_t n=m.lab.size(); int o=r.range(0,99); 
    if(n==0||o<4){ op("makeSet"); unsigned k=r.below(n+6); d.makeSet(k); m.grow(k+1); if(d.maxElement()!=m.lab.size()-1) fail("maxElement",fmt("%u expected %zu",d.maxElement(),m.lab.size()-1)); hh.add(k); }
    else if(o<40){ unsigned a=r.below(n),b=r.below(n); if(r.chance(pdir)){ op("mergeAintoB"); a=find(a); if(r.chance(0.2)) b=r.chance(0.5)?n+r.below(4):b; if(b<n&&m.lab[a]==m.lab[b]) continue; if(b>=n) m.grow(b+1); unsigned target; if(b>=n) target=b; else target=r.chance(0.8)?(b=find(b)):find(b); d.mergeAintoB(a,b); forget(m.lab[a]); forget(m.lab[b]); m.join(a,b); known[m.lab[b]]=target; count("directed_merges"); if(d.findSet(a)!=target) fail("mergeAintoB:representative",fmt("merge(%u,%u): find = %u expected %u",a,b,d.findSet(a),target)); }
      else { op("unionSet"); if(r.chance(0.1)) b=a; d.unionSet(a,b); if(m.lab[a]!=m.lab[b]){ unsigned ra=m.lab[a],rb=m.lab[b]; forget(ra); forget(rb); m.join(a,b); } count("unions"); } hh.add(a*1000+b); }
    else if(o<70){ op("findSet"); find(r.below(n)); }
    else if(o<90){ op("sameSet"); unsigned a=r.below(n),b=r.below(n); if(d.sameSet(a,b)!=(m.lab[a]==m.lab[b])) fail("sameSet",fmt("(%u,%u)",a,b)); }
    else if(o<94){ op("findSet:range"); bool t=false; try{ d.findSet(n+r.below(3)); }catch(const std::exception&){ t=true; } if(!t) fail("findSet:out-of-range-accepted",""); if(d.maxElement()!=n-1) fail("findSet:grew",""); }
    else { op("copy"); DisjointDenseIntSet c(d); unsigned a=r.below(n),b=r.below(n); if(c.sameSet(a,b)!=(m.lab[a]==m.lab[b])) fail("copy",fmt("(%u,%u)",a,b)); } }
  op("sets:all"); if(st().violcount.empty()) for(size_t a=0;a<m.lab.size();a++) find(a); 
  std::map<unsigned,unsigned> rep; for(size_t a=0;a<m.lab.size()&&st().violcount.empty();a++){ unsigned q=d.findSet(a); auto it=rep.find(q); if(it==rep.end()) rep[q]=m.lab[a]; else if(it->second!=m.lab[a]) fail("findSet:joined-unrelated",""); } }
static void long_chain(Rng&r){ op("long-chain"); unsigned n=r.range(200000,opts().thorough()?3000000:800000); DisjointDenseIntSet d(n); bool up=r.chance(0.5); if(up) for(unsigned i=0;i+1<n;i++) d.mergeAintoB(i,i+1); else for(unsigned i=n-1;i>0;i--) d.mergeAintoB(i,i-1); unsigned root=up?n-1:0; unsigned a=r.chance(0.5)?(up?0:n-1):r.below(n); if(d.findSet(a)!=root) fail("long-chain:representative",""); if(d.findSet(n/2)!=root||!d.sameSet(0,n-1)) fail("long-chain:broken",""); count("long_chains"); }
template<class T> T mk(unsigned i); template<> int mk<int>(unsigned i){ return (int)i-3; } static int pool[64]; template<> int* mk<int*>(unsigned i){ return pool+i; } template<> std::string mk<std::string>(unsigned i){ return "k"+std::to_string(i); }
template<class T> void cache(Rng&r,Hash&hh){ op("lru"); LRU<T> c; std::list<T> m; int cap=-1; unsigned dom=r.range(1,12); int steps=r.range(10,opts().thorough()?1000:200); int last=-1; 
  for(int s=0;s<steps;s++){ int o=r.range(0,99); 
    if(o<60){ unsigned i=r.chance(0.2)&&last>=0?last:r.below(dom); last=i; T e=mk<T>(i); c.insert(e); auto it=std::find(m.begin(),m.end(),e); if(it!=m.end()) m.splice(m.begin(),m,it); else { m.push_front(e); while(cap!=-1&&(int)m.size()>cap) m.pop_back(); } hh.add(i); count("inserts"); }
    else if(o<70){ if(!m.empty()){ if(!(c.back()==m.back())) fail("lru:back",""); if(r.chance(0.7)){ c.pop_back(); m.pop_back(); count("evictions"); } } }
    else if(o<77){ cap=r.chance(0.2)?-1:r.range(r.chance(0.1)?0:1,8); c.setCapacity(cap); hh.add(cap+99); if(r.chance(0.5)){ c.prune(); while(cap!=-1&&(int)m.size()>cap) m.pop_back(); } }
    else if(o<82){ c.prune(); while(cap!=-1&&(int)m.size()>cap) m.pop_back(); }
    if(c.getCapacity()!=cap) fail("lru:capacity",""); if(c.size()!=(int)m.size()) fail("lru:size",fmt("%d expected %zu",c.size(),m.size())); if(c.full()!=(cap!=-1&&(int)m.size()>=cap)) fail("lru:full",fmt("size %zu capacity %d",m.size(),cap)); if(!(std::equal(c.cache.begin(),c.cache.end(),m.begin(),m.end()))) fail("lru:contents",fmt("step %d size %zu",s,m.size())); if(!m.empty()&&!(c.back()==m.back())) fail("lru:back",""); count("cache_states"); if(!st().violcount.empty()) return; } }
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t c){ st().violcount.clear(); Hash h; h.add(c%5); sets(r,h); if(c%500==7) long_chain(r); switch(r.range(0,2)){ case 0: cache<int>(r,h); break; case 1: cache<int*>(r,h); break; default: cache<std::string>(r,h); } nontrivial(h.h); if(want_sample()) sample(fmt("case %llu",(unsigned long long)c)); }); }
