// C04: detection, pit masks, watersheds and flood directions against the minimax surface.
#include "gen.hpp"
#include <richdem/depressions/depressions.hpp>
using namespace rv; using namespace richdem;
template<class T> void one(Rng&r){
  T ndv; int ndmode=r.chance(0.4)?1:0; int maxdim=opts().thorough()? (r.chance(0.05)?100:36) : (r.chance(0.05)?60:24);
  Dem d=make_dem<T>(r,maxdim,ndmode,ndv);
  if(r.chance(0.35)){ // drain it so that the negative answer is exercised too
    auto F=ref_fill(d,r.chance(0.5)); for(size_t i=0;i<d.z.size();i++) if(!d.nd[i]) d.z[i]=F[i]; d.kind+="+filled"; if(r.chance(0.3)){ size_t i=r.below(d.z.size()); if(!d.nd[i]&&d.z[i]>3&&d.z[i]-1>(double)ndv) d.z[i]-=1; } }
  Array2D<T> a0; to_array(d,ndv,a0); const std::string tn=TypeInfo<T>::name(); const std::string D=tn+" "+dump(d);
  const double NINF=-std::numeric_limits<double>::infinity();
  for(int t=0;t<2;t++){
    const bool d4=t; auto F=ref_fill(d,d4); bool dep=false; for(size_t i=0;i<d.z.size();i++) if(!d.nd[i]&&F[i]>d.z[i]) dep=true;
    const std::string tp=std::string("<")+topo_name(d4)+">";
    count(dep?"with_depressions":"without_depressions");
    { op("HasDepressions"+tp); Array2D<T> a(a0); bool got= d4? HasDepressions<Topology::D4>(a):HasDepressions<Topology::D8>(a);
      if(got!=dep) fail("HasDepressions"+tp+(got?":false-positive":":missed"),D); if(!(a==a0)) fail("HasDepressions"+tp+":altered-input",D); }
    { op("pit_mask"+tp); Array2D<uint8_t> m; if(r.chance(0.5)){ m.resize(d.w,d.h,1);} if(d4) pit_mask<Topology::D4>(a0,m); else pit_mask<Topology::D8>(a0,m);
      if(m.width()!=d.w||m.height()!=d.h) fail("pit_mask"+tp+":shape",D); else
      for(int i=0;i<(int)d.z.size();i++){ int want=d.nd[i]?3:F[i]>d.z[i]?1:0; if(m((uint32_t)i)!=want){ fail("pit_mask"+tp+":"+(want==3?"nodata":want?"missed":"spurious"),fmt("cell (%d,%d) got %d want %d ",i%d.w,i/d.w,(int)m((uint32_t)i),want)+D); break; } }
      if(m.noData()!=3) fail("pit_mask"+tp+":nodata-value",D); }
    for(int alter=0;alter<2;alter++){
      const std::string nm="Watersheds"+tp+(alter?"+alter":""); op(nm);
      Array2D<T> a(a0); Array2D<int32_t> lab; if(r.chance(0.5)) lab.resize(d.w,d.h,7);
      if(d4) PriorityFloodWatersheds_Barnes2014<Topology::D4>(a,lab,alter); else PriorityFloodWatersheds_Barnes2014<Topology::D8>(a,lab,alter);
      bool ok=true;
      for(int i=0;i<(int)d.z.size()&&ok;i++){ T want=d.nd[i]?ndv:alter?(T)F[i]:(T)d.z[i]; if(a((uint32_t)i)!=want){ fail(nm+(alter?":surface-differs":":altered-input"),fmt("cell (%d,%d) ",i%d.w,i/d.w)+D); ok=false; } }
      std::map<int,size_t> cnt;
      for(int i=0;i<(int)d.z.size()&&ok;i++){ int l=lab((uint32_t)i); if(d.nd[i]){ if(l!=lab.noData()){ fail(nm+":nodata-labelled",fmt("cell (%d,%d) label %d ",i%d.w,i/d.w,l)+D); ok=false; } } else { if(l<=0||l==lab.noData()){ fail(nm+":unlabelled",fmt("cell (%d,%d) label %d ",i%d.w,i/d.w,l)+D); ok=false; } cnt[l]++; } }
      if(!ok) continue; count("watersheds",cnt.size());
      // within its own watershed every cell must reach an outlet at its flood level, and the watershed is one piece
      std::vector<double> g(d.z.size(),std::numeric_limits<double>::infinity()); std::vector<int> q;
      for(int i=0;i<(int)d.z.size();i++){ if(d.nd[i]) continue; int x=i%d.w,y=i/d.w; bool out=d.edge(x,y); for(int n=1;n<=8&&!out;n++){ if(d4&&n%2==0) continue; if(d.in(x+DX8[n],y+DY8[n])&&d.isnd(x+DX8[n],y+DY8[n])) out=true; } if(out){ g[i]=d.z[i]; q.push_back(i);} }
      for(size_t h=0;h<q.size();h++){ int c=q[h]; for(int n=1;n<=8;n++){ if(d4&&n%2==0) continue; int x=c%d.w+DX8[n],y=c/d.w+DY8[n]; if(!d.in(x,y)||d.isnd(x,y)) continue; int k=y*d.w+x; if(lab((uint32_t)k)!=lab((uint32_t)c)) continue; double v=std::max(d.z[k],g[c]); if(v<g[k]){ g[k]=v; q.push_back(k);} } }
      for(int i=0;i<(int)d.z.size()&&ok;i++) if(!d.nd[i]&&g[i]!=F[i]){ fail(nm+":does-not-drain-within",fmt("cell (%d,%d) level within watershed %g, true %g ",i%d.w,i/d.w,g[i],F[i])+D); ok=false; }
      if(!ok) continue;
      std::vector<char> seen(d.z.size(),0); std::set<int> started;
      for(int s=0;s<(int)d.z.size()&&ok;s++){ if(d.nd[s]||seen[s]) continue; int l=lab((uint32_t)s); if(!started.insert(l).second){ fail(nm+":label-in-two-pieces",fmt("label %d ",l)+D); ok=false; break; }
        std::vector<int> st{s}; seen[s]=1; while(!st.empty()){ int c=st.back(); st.pop_back(); for(int n=1;n<=8;n++){ if(d4&&n%2==0) continue; int x=c%d.w+DX8[n],y=c/d.w+DY8[n]; if(!d.in(x,y)||d.isnd(x,y)) continue; int k=y*d.w+x; if(seen[k]||lab((uint32_t)k)!=l) continue; seen[k]=1; st.push_back(k);} } }
    }
    if(dep&&!d4){ nontrivial(hash(d)); if(want_sample()) sample(D); }
  }
  { const std::string nm="FloodFlowdirs"; op(nm); auto F=ref_fill(d,false); Array2D<d8_flowdir_t> fd; if(r.chance(0.5)) fd.resize(d.w,d.h,9); PriorityFloodFlowdirs_Barnes2014(a0,fd);
    bool ok=true; const int N=(int)d.z.size();
    if(fd.width()!=d.w||fd.height()!=d.h){ fail(nm+":shape",D); return; }
    std::vector<int> nxt(N,-2);
    for(int i=0;i<N&&ok;i++){ int dir=fd((uint32_t)i); int x=i%d.w,y=i/d.w;
      if(d.nd[i]){ if(dir!=NO_FLOW){ fail(nm+":nodata-directed",fmt("cell (%d,%d) dir %d ",x,y,dir)+D); ok=false; } continue; }
      if(dir<1||dir>8){ fail(nm+":undirected",fmt("cell (%d,%d) dir %d ",x,y,dir)+D); ok=false; break; }
      int nx=x+DX8[dir],ny=y+DY8[dir]; 
      if(!d.in(nx,ny)){ nxt[i]=-1; continue; }
      if(d.edge(x,y)){ fail(nm+":edge-points-inward",fmt("cell (%d,%d) dir %d ",x,y,dir)+D); ok=false; break; }
      if(d.isnd(nx,ny)){ nxt[i]=-1; continue; }
      int k=ny*d.w+nx; nxt[i]=k; if(F[k]>F[i]){ fail(nm+":rises",fmt("cell (%d,%d) dir %d ",x,y,dir)+D); ok=false; } }
    for(int i=0;i<N&&ok;i++){ if(d.nd[i]) continue; int c=i,steps=0; while(c>=0&&steps<=N){ c=nxt[c]; steps++; } if(c>=0){ fail(nm+":cycle",fmt("from cell (%d,%d) ",i%d.w,i/d.w)+D); ok=false; } }
    count("flow_paths",N);
  }
}
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t){ switch(r.range(0,4)){case 0:one<float>(r);break;case 1:one<double>(r);break;case 2:one<uint8_t>(r);break;case 3:one<int16_t>(r);break;default:one<int32_t>(r);} }); }
