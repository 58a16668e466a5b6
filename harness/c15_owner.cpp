// C15: ownership histories over ManagedVector (element type counting live instances, injected constructor faults)
// and over Array2D/Array3D wrapping caller memory.
#include "gen.hpp"
#include <richdem/common/Array3D.hpp>
#include <richdem/common/ManagedVector.hpp>
#include <memory>
using namespace rv; using namespace richdem;
static std::string hist; static long g_live=0, g_ctor=0, g_fault=-1; static std::unordered_set<const void*> g_alive; static std::string g_err;
struct Fault{};
struct T15 { // live-instance monitor
  int v; uint32_t magic;
  void born(){ if(g_fault>=0&&g_fault--==0) throw Fault(); g_live++; g_ctor++; if(!g_alive.insert(this).second) g_err="constructed-twice"; magic=0xA11CE; }
  T15():v(0){born();} T15(int x):v(x){born();} T15(const T15&o):v(o.v){ if(o.magic!=0xA11CE) g_err="copied-from-dead"; born(); }
  T15&operator=(const T15&o){ if(magic!=0xA11CE||o.magic!=0xA11CE) g_err="assigned-dead"; v=o.v; return *this; }
  ~T15(){ if(magic!=0xA11CE||!g_alive.erase(this)) g_err="destroyed-twice"; g_live--; magic=0xDEAD; }
};
struct Ext { std::vector<T15> mem; };           // caller memory
struct MM { bool owned=true; int ext=-1; size_t n=0; std::vector<int> v; }; // ext>=0: aliases Ext
typedef ManagedVector<T15> MV;
static void managed(Rng&r){
  hist.clear(); g_err.clear(); g_fault=-1; g_alive.clear(); g_live=0; Hash hh; auto h=[&](const std::string&s){ hist+=s+";"; hh.adds(s); };
  const int K=4,E=2;
  { std::vector<std::unique_ptr<Ext>> ext; std::vector<std::vector<int>> ev(E); long extlive=0;
    for(int e=0;e<E;e++){ auto x=std::make_unique<Ext>(); int n=r.range(1,9); x->mem.reserve(n); for(int i=0;i<n;i++){ x->mem.emplace_back(100*e+i); ev[e].push_back(100*e+i); } extlive+=n; ext.push_back(std::move(x)); }
    { std::vector<std::unique_ptr<MV>> a(K); std::vector<MM> m(K); for(auto&p:a) p=std::make_unique<MV>();
    bool ok=true; auto F=[&](const std::string&k){ fail("ManagedVector:"+k,hist); ok=false; };
    auto val=[&](int k,size_t i)->int&{ return m[k].ext>=0?ev[m[k].ext][i]:m[k].v[i]; };
    auto verify=[&](const std::string&nm){ if(!g_err.empty()) return F(nm+":"+g_err); long want=extlive; for(int k=0;k<K;k++){ auto&A=*a[k]; auto&M=m[k]; const MV&C=A; if(M.ext<0) want+=M.n; if(A.size()!=M.n||A.empty()!=(M.n==0)) return F(nm+":size"); if(M.n&&A.owned()!=M.owned) return F(nm+":owned"); if(!M.n&&!A.owned()&&M.ext<0) return F(nm+":owned-empty"); if(M.ext>=0&&A.data()!=ext[M.ext]->mem.data()) return F(nm+":wrapped-pointer"); for(size_t i=0;i<M.n;i++){ count("reads"); int q=val(k,i); if(A[i].v!=q||C[i].v!=q||A.data()[i].v!=q||C.data()[i].v!=q) return F(nm+":contents"); } for(int j=0;j<k;j++) if(m[j].n&&M.n&&m[j].ext<0&&a[j]->data()==A.data()) return F(nm+":shared-owned-memory"); }
      for(int e=0;e<E;e++) for(size_t i=0;i<ev[e].size();i++) if(ext[e]->mem[i].v!=ev[e][i]) return F(nm+":caller-memory-contents"); if(g_live!=want) return F(nm+(g_live>want?":not-released":":released-too-much")); };
    int steps=opts().thorough()?60:26;
    for(int s=0;s<steps&&ok;s++){ int k=r.below(K),j=r.below(K); auto&A=a[k]; auto&M=m[k]; std::string o="noop"; bool faulted=false; 
      int c=r.range(0,14); if(r.chance(0.12)) g_fault=r.range(0,12);
      op("ManagedVector"); 
      auto own=[&](size_t n,int v){ M=MM(); M.n=n; M.v.assign(n,v); };
      try{ switch(c){
        case 0:{ int n=r.range(0,9); h(o=fmt("%d=MV(%d,5)",k,n)); auto p=std::make_unique<MV>(n,T15(5)); A.swap(p); own(n,5); break; }
        case 1: case 2:{ int e=r.below(E); h(o=fmt("%d=wrap%d",k,e)); auto p=std::make_unique<MV>(ext[e]->mem.data(),ext[e]->mem.size()); A.swap(p); M=MM(); M.owned=false; M.ext=e; M.n=ev[e].size(); break; }
        case 3:{ h(o=fmt("%d=copyctor%d",k,j)); auto p=std::make_unique<MV>(*a[j]); std::vector<int> c2; for(size_t i=0;i<m[j].n;i++) c2.push_back(val(j,i)); A.swap(p); M=MM(); M.n=c2.size(); M.v=c2; break; }
        case 4:{ h(o=fmt("%d=copy%d",k,j)); std::vector<int> c2; for(size_t i=0;i<m[j].n;i++) c2.push_back(val(j,i)); *A=*a[j]; M=MM(); M.n=c2.size(); M.v=c2; break; }
        case 5:{ h(o=fmt("%d=movector%d",k,j)); if(k==j){ auto p=std::make_unique<MV>(std::move(*a[j])); if(!a[j]->empty()||!a[j]->owned()) F("movector:source-not-empty"); A.swap(p); break; } auto p=std::make_unique<MV>(std::move(*a[j])); A.swap(p); M=m[j]; m[j]=MM(); break; }
        case 6: case 7:{ h(o=fmt("%d=move%d",k,j)); *A=std::move(*a[j]); if(k!=j){ M=m[j]; m[j]=MM(); } break; }
        case 8:{ h(o=fmt("swap%d,%d",k,j)); if(k!=j){ std::swap(*A,*a[j]); std::swap(M,m[j]); } break; }
        case 9: case 10:{ size_t n=r.chance(0.3)?M.n:r.range(0,9); h(o=fmt("%d.resize(%d)",k,(int)n)); bool t=false; try{ A->resize(n); }catch(const std::runtime_error&){ t=true; } if(!M.owned&&n!=M.n){ if(!t) F("resize:unowned-accepted"); count("refused_resizes"); } else { if(t) F("resize:owned-refused"); else if(n!=M.n) own(n,0); } break; }
        case 11:{ if(!M.n) break; size_t i=r.below(M.n); int v=r.range(0,99); h(o=fmt("%d[%d]=%d",k,(int)i,v)); if(r.chance(0.5)) (*A)[i].v=v; else A->data()[i].v=v; val(k,i)=v; break; }
        case 12:{ int e=r.below(E); size_t i=r.below(ev[e].size()); int v=r.range(0,99); h(o=fmt("ext%d[%d]=%d",e,(int)i,v)); ext[e]->mem[i].v=v; ev[e][i]=v; break; }
        case 13:{ h(o=fmt("%d=MV<int>",k)); ManagedVector<int> t((size_t)r.range(0,6),7); if(r.chance(0.5)){ *A=t; } else { auto p=std::make_unique<MV>(t); A.swap(p); } own(t.size(),7); break; }
        default:{ h(o=fmt("grow%d",k)); std::vector<MV> vec; for(int i=0;i<3;i++) vec.push_back(*a[j]); vec.emplace_back(std::move(*A)); MV back=std::move(vec.back()); vec.clear(); *A=std::move(back); break; }
      } }catch(const Fault&){ faulted=true; count("injected_faults"); h("!fault"); }
      bool had=g_fault>=0; g_fault=-1;
      if(faulted){ // a faulted operation may leave its target as before or empty; everything else is as before
        if(c==13||c==9||c==10||c==4){ if(A->size()==0&&(M.owned||c!=9)){ M=MM(); } }
        else if(c==14){ /* temporaries: A may have been moved out of */ if(A->size()==0&&M.n){ M=MM(); } }
      } (void)had;
      std::string nm; for(char ch:o) if(isalpha((unsigned char)ch)) nm+=ch; if(nm.empty()) nm="write"; verify("after "+nm+(faulted?"!fault":"")); count("steps"); }
    hist+="destroy"; }
    if(g_live!=extlive) fail("ManagedVector:destroy:"+std::string(g_live>extlive?"leak":"caller-memory-freed"),hist);
    for(int e=0;e<E;e++) for(size_t i=0;i<ev[e].size();i++) if(ext[e]->mem[i].v!=ev[e][i]||ext[e]->mem[i].magic!=0xA11CE){ fail("ManagedVector:destroy:caller-memory",hist); break; }
  }
  if(g_live!=0||!g_err.empty()) fail("ManagedVector:end:"+(g_err.empty()?"balance":g_err),hist);
  nontrivial(hh.h); if(want_sample()) sample(hist);
}
// ---- rasters over caller memory: every wrapped raster is an alias of its buffer
template<class AR,int NB> struct Acc;
template<class AR,int NB,class T> static void raster(Rng&r,const char*cls){
  hist.clear(); Hash hh; auto h=[&](const std::string&s){ hist+=s+";"; hh.adds(s); }; const int K=4,E=2;
  struct RM{ bool owned=true; int ext=-1; int w=0,h=0; std::vector<T> v; };
  std::vector<std::vector<T>> ext(E),ev(E); std::vector<std::pair<int,int>> ed(E); for(int e=0;e<E;e++){ ed[e]={r.range(1,6),r.range(1,6)}; ext[e].resize((size_t)ed[e].first*ed[e].second*NB); for(auto&x:ext[e]) x=(T)r.range(0,9); ev[e]=ext[e]; }
  { std::vector<AR> a(K); std::vector<RM> m(K); bool ok=true; auto F=[&](const std::string&k){ fail(std::string(cls)+":"+k,hist); ok=false; };
  auto cells=[&](int k)->std::vector<T>&{ return m[k].ext>=0?ev[m[k].ext]:m[k].v; };
  auto ptr=[&](AR&A){ if constexpr(NB==1) return A.data(); else return A.getData(); };
  auto verify=[&](const std::string&nm){ for(int k=0;k<K;k++){ auto&A=a[k]; auto&M=m[k]; auto&v=cells(k); if(A.empty()!=v.empty()) return F(nm+":empty"); if(v.empty()) continue; if(A.width()!=M.w||A.height()!=M.h) return F(nm+":size"); if(A.owned()!=(M.ext<0)) return F(nm+":owned"); if((M.ext>=0)&&ptr(A)!=ext[M.ext].data()) return F(nm+":wrapped-pointer"); for(size_t i=0;i<v.size();i++){ count("reads"); if(ptr(A)[i]!=v[i]) return F(nm+":contents"); if constexpr(NB==1){ if(A((uint32_t)i)!=v[i]) return F(nm+":contents"); } else if(A.getIN(i/9,i%9)!=v[i]) return F(nm+":contents"); } } for(int e=0;e<E;e++) if(ext[e]!=ev[e]) return F(nm+":caller-memory"); };
  int steps=opts().thorough()?50:24;
  for(int s=0;s<steps&&ok;s++){ int k=r.below(K),j=r.below(K); auto&A=a[k]; auto&M=m[k]; std::string o="noop"; T v=(T)r.range(0,9); int c=r.range(0,13); op(cls);
    switch(c){
      case 0: case 1: case 2:{ int e=r.below(E); h(o=fmt("wrap %d<-ext%d",k,e)); int w=ed[e].first,q=ed[e].second; if(r.chance(0.3)) std::swap(w,q); A=AR(ext[e].data(),w,q); M=RM(); M.owned=false; M.ext=e; M.w=w; M.h=q; break; }
      case 3:{ h(o=fmt("copy %d=%d",k,j)); auto c2=cells(j); RM n=m[j]; A=a[j]; if(k!=j||true){ M=n; M.ext=-1; M.owned=true; M.v=c2; } break; }
      case 4:{ h(o=fmt("copyctor %d=%d",k,j)); AR t(a[j]); RM n=m[j]; n.v=cells(j); n.ext=-1; n.owned=true; A=std::move(t); M=n; break; }
      case 5:{ h(o=fmt("move %d=%d",k,j)); if(k==j) break; A=std::move(a[j]); M=m[j]; m[j]=RM(); if(!a[j].empty()||!a[j].owned()) F("move:source-not-empty"); if(r.chance(0.5)){ a[j].resize(2,1,v); m[j].w=2; m[j].h=1; m[j].v.assign(2*NB,v); } else a[j]=AR(); break; }
      case 6:{ h(o=fmt("swap %d %d",k,j)); if(k!=j){ std::swap(A,a[j]); std::swap(M,m[j]); } break; }
      case 7: case 8:{ int w=r.range(0,6),q=r.range(0,6); if(M.ext>=0&&r.chance(0.4)){ w=M.h; q=M.w; } h(o=fmt("resize %d (%d,%d)",k,w,q)); bool t=false; try{ A.resize(w,q,v); }catch(const std::runtime_error&){ t=true; } bool refuse=M.ext>=0&&(size_t)w*q*NB!=ev[M.ext].size(); if(refuse!=t) F(t?"resize:refused":"resize:unowned-accepted"); if(refuse) count("refused_resizes"); else { M.w=w; M.h=q; if(M.ext>=0) std::fill(ev[M.ext].begin(),ev[M.ext].end(),v); else M.v.assign((size_t)w*q*NB,v); } break; }
      case 9:{ h(o=fmt("setAll %d",k)); A.setAll(v); for(auto&x:cells(k)) x=v; break; }
      case 10:{ auto&cv=cells(k); if(cv.empty()) break; size_t i=r.below(cv.size()); h(o=fmt("write %d",k)); ptr(A)[i]=v; cv[i]=v; break; }
      case 11:{ int e=r.below(E); size_t i=r.below(ev[e].size()); h(o=fmt("callerwrite %d",e)); ext[e][i]=v; ev[e][i]=v; break; }
      case 12:{ if constexpr(NB==1){ if(cells(k).empty()) break; int z=r.range(0,3); h(o=fmt("%s %d",z==0?"flipVert":z==1?"flipHorz":z==2?"transpose":"expand",k)); auto&cv=cells(k); auto n=cv; int w=M.w,q=M.h; if(z==3){ bool t=false; try{ A.expand(w+1,q+1,v); }catch(const std::runtime_error&){ t=true; } if(t!=(M.ext>=0)) F("expand:ownership"); if(!t){ RM x; x.w=w+1; x.h=q+1; x.v.assign((size_t)(w+1)*(q+1),v); for(int y=0;y<q;y++)for(int xx=0;xx<w;xx++) x.v[(size_t)y*(w+1)+xx]=cv[(size_t)y*w+xx]; M=x; } break; }
          if(z==0) A.flipVert(); else if(z==1) A.flipHorz(); else A.transpose(); for(int y=0;y<q;y++)for(int x=0;x<w;x++){ T u=cv[(size_t)y*w+x]; if(z==0) n[(size_t)(q-1-y)*w+x]=u; else if(z==1) n[(size_t)y*w+w-1-x]=u; else n[(size_t)x*q+y]=u; } cv=n; if(z==2){ 
            std::swap(M.w,M.h); } } break; }
      default:{ h(o=fmt("grow %d",k)); std::vector<AR> vec; vec.push_back(a[j]); vec.push_back(std::move(A)); vec.push_back(a[j].empty()?AR():AR(a[j])); AR b=std::move(vec[1]); vec.clear(); A=std::move(b); break; }
    }
    verify("after "+o.substr(0,o.find(' '))); count("raster_steps"); } }
  for(int e=0;e<E;e++) if(ext[e]!=ev[e]) fail(std::string(cls)+":destroy:caller-memory",hist);
  nontrivial(hh.h);
}
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t){ st().violcount.clear(); switch(r.range(0,6)){ case 0: case 1: case 2: managed(r); break; case 3: case 4: raster<Array2D<int>,1,int>(r,"Array2D"); break; case 5: raster<Array2D<double>,1,double>(r,"Array2D"); break; default: raster<Array3D<float>,9,float>(r,"Array3D"); } }); }
