// C20: priority queues against a model multiset; cell comparisons against the order of elevations with NaN lowest.
#include "rv.hpp"
#include <memory>
#include <algorithm>
#include <deque>
#include <cmath>
#include <limits>
#include <richdem/common/radix_heap.hpp>
#include <richdem/common/grid_cell.hpp>
using namespace rv; using namespace richdem;
template<class T> const char* tn(){ return std::is_same<T,float>::value?"f32":std::is_same<T,double>::value?"f64":std::is_signed<T>::value?(sizeof(T)==1?"i8":sizeof(T)==2?"i16":sizeof(T)==4?"i32":"i64"):(sizeof(T)==1?"u8":sizeof(T)==2?"u16":sizeof(T)==4?"u32":"u64"); }
template<class T> T key(Rng&r,int style){ using L=std::numeric_limits<T>; if constexpr(L::is_integer){ switch(style){ case 0: return (T)r.next(); case 1: return (T)r.range(L::is_signed?-3:0,3); case 2: return r.chance(0.5)?(T)(L::max()-r.range(0,3)):(T)(L::lowest()+r.range(0,3)); default: return r.chance(0.5)?(T)r.range(0,100):(T)((T)1<<r.below(sizeof(T)*8-1)); } }
  else { switch(style){ case 0: return (T)((r.unit()-0.5)*std::pow(10.,r.range(-30,30))); case 1: { static const T v[]={0,(T)-0.,1,-1,L::min(),-L::min(),L::denorm_min(),-L::denorm_min(),(T)0.5,-L::epsilon()}; return v[r.below(10)]; } case 2: switch(r.range(0,5)){ case 0: return L::infinity(); case 1: return -L::infinity(); case 2: return L::max(); case 3: return L::lowest(); case 4: return (T)0.; default: return (T)-0.; } default: return (T)(r.range(-50,50)/4.); } } }
// ---- radix heaps
struct Val { std::unique_ptr<uint64_t> p; uint64_t id() const { return p?*p:~0ull; } Val()=default; explicit Val(uint64_t i):p(new uint64_t(i)){} Val(uint64_t a,uint64_t b):p(new uint64_t(a+b)){} Val(const Val&o):p(o.p?new uint64_t(*o.p):nullptr){} Val(Val&&)=default; Val&operator=(const Val&o){ p.reset(o.p?new uint64_t(*o.p):nullptr); return *this; } Val&operator=(Val&&)=default; };
template<class K> struct Model { std::multimap<K,uint64_t> m; bool moved=false; K floor{}; void reset(){ m.clear(); moved=false; } void fix(){ floor=m.begin()->first; moved=true; } bool can(K k){ return !moved||!(k<floor); } };
template<class K> void radix(Rng&r,Hash&hh){
  typedef radix_heap::radix_heap<K> H; typedef radix_heap::pair_radix_heap<K,Val> P; H h[2]; P p[2]; Model<K> mh[2],mp[2]; uint64_t next=0; std::string T=tn<K>(); int style=r.range(0,4); double pushb=0.35+r.unit()*0.35; int steps=r.range(20,opts().thorough()?3000:400);
  auto F=[&](const std::string&q,const std::string&k,const std::string&d=""){ fail(q+":"+k,T+" "+d); };
  auto nk=[&](Model<K>&m){ for(int t=0;t<8;t++){ K k=key<K>(r,style==4?r.range(0,3):style); if(m.can(k)) return k; } K k=m.floor; if constexpr(!std::numeric_limits<K>::is_integer) if(k==0&&r.chance(0.5)) return (K)-k; return r.chance(0.5)?k:std::max(k,std::numeric_limits<K>::max()); };
  for(int s=0;s<steps;s++){ int i=r.below(2); 
    if(r.chance(0.4)){ auto&q=h[i]; auto&m=mh[i]; op("radix_heap"); int o=r.range(0,99); bool push=r.chance(pushb);
      if(push||m.m.empty()){ K k=nk(m); q.push(k); m.m.emplace(k,0); hh.addd((double)k); count("pushes"); }
      else if(o<70){ if(r.chance(0.5)){ K t=q.top(); m.fix(); if(!(t==m.floor)) F("radix_heap","top",fmt("%.17g expected %.17g",(double)t,(double)m.floor)); } else if(r.chance(0.4)){ K t=q.min(); if(!(t==m.m.begin()->first)) F("radix_heap","min",fmt("%.17g expected %.17g",(double)t,(double)m.m.begin()->first)); } q.pop(); m.fix(); m.m.erase(m.m.begin()); count("pops"); }
      else if(o<90){ K t=q.min(); if(!(t==m.m.begin()->first)) F("radix_heap","min",fmt("%.17g expected %.17g",(double)t,(double)m.m.begin()->first)); }
      else if(o<93){ h[0].swap(h[1]); std::swap(mh[0],mh[1]); } else if(o<95){ q.clear(); m.reset(); } else if(o<97){ H c(q); Model<K> k=m; while(!c.empty()){ if(!(c.top()==k.m.begin()->first)){ F("radix_heap","copy"); break; } c.pop(); k.m.erase(k.m.begin()); } if(!k.m.empty()) F("radix_heap","copy-lost"); }
      if(h[i].size()!=mh[i].m.size()||h[i].empty()!=mh[i].m.empty()) F("radix_heap","size",fmt("%zu expected %zu",h[i].size(),mh[i].m.size())); }
    else { auto&q=p[i]; auto&m=mp[i]; op("pair_radix_heap"); int o=r.range(0,99); bool push=r.chance(pushb);
      auto take=[&](K k,uint64_t id,const char*w){ auto e=m.m.equal_range(k); for(auto it=e.first;it!=e.second;++it) if(it->second==id){ m.m.erase(it); return; } F("pair_radix_heap",w,fmt("key %.17g item %llu",(double)k,(unsigned long long)id)); };
      if(push||m.m.empty()){ K k=nk(m); uint64_t id=next++; switch(r.range(0,2)){ case 0: { Val v(id); q.push(k,v); if(v.id()!=id) F("pair_radix_heap","push-moved-from-lvalue"); break; } case 1: q.push(k,Val(id)); break; default: q.emplace(k,id/2,id-id/2); } m.m.emplace(k,id); hh.addd((double)k); count("pushes"); }
      else { K e=m.m.begin()->first; if(r.chance(0.3)){ K t=q.min_key(); if(!(t==e)) F("pair_radix_heap","min_key",fmt("%.17g expected %.17g",(double)t,(double)e)); }
        if(o<75){ if(r.chance(0.7)){ K t=q.top_key(); if(!(t==e)) F("pair_radix_heap","top_key",fmt("%.17g expected %.17g",(double)t,(double)e)); } m.fix(); uint64_t id=q.top_value().id(); q.pop(); take(e,id,"pop-wrong-item"); count("pops"); }
        else if(o<83){ auto v=q.extract_top_values(); m.fix(); size_t n=m.m.count(e); if(v.size()!=n) F("pair_radix_heap","extract-count",fmt("%zu expected %zu",v.size(),n)); for(auto&x:v) take(e,x.second.id(),"extract-wrong-item"); count("pops",v.size()); if constexpr(std::is_unsigned<K>::value) for(auto&x:v) if((K)x.first!=e) F("pair_radix_heap","extract-key"); }
        else if(o<88){ q.pop_top_values(); m.fix(); m.m.erase(e); }
        else if(o<91){ p[0].swap(p[1]); std::swap(mp[0],mp[1]); } else if(o<93){ q.clear(); m.reset(); } else if(o<96){ P c(q); Model<K> k=m; size_t n=0; while(!c.empty()&&n<=m.m.size()){ if(!(c.top_key()==k.m.begin()->first)){ F("pair_radix_heap","copy"); break; } c.pop(); k.m.erase(k.m.begin()); n++; } } }
      if(p[i].size()!=mp[i].m.size()||p[i].empty()!=mp[i].m.empty()) F("pair_radix_heap","size",fmt("%zu expected %zu",p[i].size(),mp[i].m.size())); }
    if(!st().violcount.empty()) return; }
  for(int i=0;i<2;i++){ op("radix_heap:drain"); auto&m=mh[i].m; while(!m.empty()){ if(h[i].empty()){ F("radix_heap","lost-items"); break; } K t=h[i].top(); if(!(t==m.begin()->first)){ F("radix_heap","drain-order",fmt("%.17g expected %.17g",(double)t,(double)m.begin()->first)); return; } h[i].pop(); m.erase(m.begin()); count("pops"); } if(!h[i].empty()) F("radix_heap","extra-items");
    op("pair_radix_heap:drain"); auto&q=mp[i].m; while(!q.empty()){ if(p[i].empty()){ F("pair_radix_heap","lost-items"); break; } K t=p[i].top_key(); if(!(t==q.begin()->first)){ F("pair_radix_heap","drain-order",fmt("%.17g expected %.17g",(double)t,(double)q.begin()->first)); return; } uint64_t id=p[i].top_value().id(); auto e=q.equal_range(t); bool f=false; for(auto it=e.first;it!=e.second;++it) if(it->second==id){ q.erase(it); f=true; break; } if(!f){ F("pair_radix_heap","drain-wrong-item"); return; } p[i].pop(); count("pops"); } if(!p[i].empty()) F("pair_radix_heap","extra-items"); }
}
// ---- grid cells
template<class T> bool nan_(T v){ if constexpr(std::numeric_limits<T>::is_integer) return false; else return std::isnan(v); }
template<class T> bool lt(T a,T b){ if(nan_(a)||nan_(b)) return nan_(a)&&!nan_(b); return a<b; }
template<class T> T elev(Rng&r,int style){ if constexpr(!std::numeric_limits<T>::is_integer) if(r.chance(0.15)) return r.chance(0.5)?std::numeric_limits<T>::quiet_NaN():-std::numeric_limits<T>::quiet_NaN(); return key<T>(r,style==4?r.range(0,3):style); }
template<class T> void orders(Rng&r){ op("compare"); std::string n=tn<T>();
  for(int t=0;t<40;t++){ T a=elev<T>(r,r.range(0,3)),b=r.chance(0.3)?a:elev<T>(r,r.range(0,3)); GridCellZ<T> x(r.range(-5,5),1,a),y(2,3,b); bool L=lt(a,b),G=lt(b,a); std::string w=n+fmt(" %.17g %.17g",(double)a,(double)b);
    if((x>y)!=G) fail("GridCellZ:greater",w); if(x.isnan()!=nan_(a)) fail("GridCellZ:isnan",w);
    if constexpr(!std::numeric_limits<T>::is_integer){ if((x<y)!=L) fail("GridCellZ:less",w); if((x>=y)==L) fail("GridCellZ:greater-equal",w); if((x<=y)==G) fail("GridCellZ:less-equal",w); if((x==y)!=(!L&&!G)) fail("GridCellZ:equal",w); if((x!=y)!=(L||G)) fail("GridCellZ:not-equal",w); }
    int k1=r.range(0,4),k2=r.range(0,4); GridCellZk_low<T> l1(0,0,a,k1),l2(0,0,b,k2); if((l1>l2)!=(G||(!L&&k1>k2))) fail("GridCellZk_low:greater",w+fmt(" k %d %d",k1,k2)); GridCellZk_high<T> h1(0,0,a,k1),h2(0,0,b,k2); if((h1>h2)!=(G||(!L&&k1<k2))) fail("GridCellZk_high:greater",w+fmt(" k %d %d",k1,k2)); count("comparisons"); } }
template<class T> struct Item { int x,y; T z; uint64_t n; };
template<class T,class Q> void cells(Rng&r,const std::string&nm,int tie,Hash&hh){ // tie: 0 any, 1 first in first out, -1 last in first out
  op(nm); Q q; std::vector<Item<T>> m; uint64_t n=0; int style=r.range(0,4),steps=r.range(20,opts().thorough()?3000:300); double pb=0.3+r.unit()*0.4; std::string w=tn<T>();
  auto pop=[&](){ auto t=q.top(); size_t best=0; for(size_t i=1;i<m.size();i++){ if(lt(m[i].z,m[best].z)) best=i; else if(!lt(m[best].z,m[i].z)){ if(tie==1? m[i].n<m[best].n : tie==-1? m[i].n>m[best].n : (m[i].x==t.x&&m[i].y==t.y)) best=i; } }
    bool same=t.x==m[best].x&&t.y==m[best].y&&((t.z==m[best].z)||(nan_(t.z)&&nan_(m[best].z))); if(!same){ fail(nm+":pop",w+fmt(" got (%d,%d,%.17g) expected (%d,%d,%.17g) of %zu",t.x,t.y,(double)t.z,m[best].x,m[best].y,(double)m[best].z,m.size())); } q.pop(); m.erase(m.begin()+best); count("pops"); return same; };
  for(int s=0;s<steps;s++){ if(m.empty()||r.chance(pb)){ Item<T> i{(int)n,r.range(-9,9),elev<T>(r,style),n}; n++; q.emplace(i.x,i.y,i.z); m.push_back(i); hh.addd((double)i.z); count("pushes"); } else if(!pop()) return; if(q.size()!=m.size()||q.empty()!=m.empty()){ fail(nm+":size",w); return; } }
  while(!m.empty()){ if(q.empty()){ fail(nm+":lost-items",w); return; } if(!pop()) return; } if(!q.empty()) fail(nm+":extra-items",w); }
// long histories: few distinct keys, so that the order among equal keys rests on hundreds of thousands of insertions
template<class T,class Q> void long_cells(Rng&r,const std::string&nm,int tie,Hash&hh){ op(nm+":long"); Q q; std::map<T,std::deque<int>> m; int n=0; size_t sz=0; const int total=opts().thorough()?r.range(100000,3000000):r.range(70000,220000),keys=r.range(1,6); const size_t most=r.chance(0.3)?total:r.range(1,5000); hh.add(total); hh.add(keys); hh.add(most);
  auto pop=[&]{ auto b=m.begin(); auto t=q.top(); int want=tie==1?b->second.front():b->second.back(); if(t.z!=b->first||t.x!=want){ fail(nm+":long-pop",tn<T>()+fmt(" got item %d key %g, expected item %d key %g after %d insertions",t.x,(double)t.z,want,(double)b->first,n)); return false; } q.pop(); if(tie==1) b->second.pop_front(); else b->second.pop_back(); if(b->second.empty()) m.erase(b); sz--; return true; };
  while(n<total){ if(sz==0||(sz<most&&r.chance(0.6))){ T z=(T)r.range(0,keys); q.emplace(n,0,z); m[z].push_back(n); n++; sz++; } else if(!pop()) return; if(q.size()!=sz){ fail(nm+":long-size",tn<T>()); return; } }
  while(sz) if(!pop()) return; if(!q.empty()) fail(nm+":long-extra-items",tn<T>()); count("long_histories"); count("pushes",n); count("pops",n); }
template<class T> void all_cells(Rng&r,Hash&h){ orders<T>(r); cells<T,GridCellZ_pq<T>>(r,"GridCellZ_pq",0,h); cells<T,GridCellZk_low_pq<T>>(r,"GridCellZk_low_pq",1,h); cells<T,GridCellZk_high_pq<T>>(r,"GridCellZk_high_pq",-1,h); if(r.chance(0.006)){ if(r.chance(0.5)) long_cells<T,GridCellZk_low_pq<T>>(r,"GridCellZk_low_pq",1,h); else long_cells<T,GridCellZk_high_pq<T>>(r,"GridCellZk_high_pq",-1,h); } }
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t c){ st().violcount.clear(); Hash h; h.add(c%7); 
  switch(r.range(0,9)){ case 0: radix<uint8_t>(r,h); break; case 1: radix<int8_t>(r,h); break; case 2: radix<uint16_t>(r,h); break; case 3: radix<int16_t>(r,h); break; case 4: radix<uint32_t>(r,h); break; case 5: radix<int32_t>(r,h); break; case 6: radix<uint64_t>(r,h); break; case 7: radix<int64_t>(r,h); break; case 8: radix<float>(r,h); break; default: radix<double>(r,h); }
  switch(r.range(0,6)){ case 0: all_cells<uint8_t>(r,h); break; case 1: all_cells<int16_t>(r,h); break; case 2: all_cells<int32_t>(r,h); break; case 3: all_cells<uint32_t>(r,h); break; case 4: all_cells<int64_t>(r,h); break; case 5: all_cells<float>(r,h); break; default: all_cells<double>(r,h); }
  nontrivial(h.h); if(want_sample()) sample(fmt("case %llu: %llu pushes so far",(unsigned long long)c,(unsigned long long)st().counters["pushes"])); }); }
