// C03: size-limited filling against components of {cells below their spill level}.
#include "gen.hpp"
#include <richdem/depressions/depressions.hpp>
using namespace rv; using namespace richdem;
template<class T> void one(Rng&r){
  T ndv; int ndmode=r.chance(0.4)?1:0; int maxdim=opts().thorough()? (r.chance(0.05)?100:40) : (r.chance(0.05)?60:26);
  Dem d=make_dem<T>(r,maxdim,ndmode,ndv);
  Array2D<T> a0; to_array(d,ndv,a0); const std::string tn=TypeInfo<T>::name();
  for(int t=0;t<2;t++){
    const bool d4=t; auto F=ref_fill(d,d4);
    // components
    std::vector<int> comp(d.z.size(),-1); std::vector<size_t> csz; std::vector<char> shared;
    for(size_t s=0;s<d.z.size();s++){ if(d.nd[s]||comp[s]>=0||!(d.z[s]<F[s])) continue;
      int id=(int)csz.size(); csz.push_back(0); shared.push_back(0); std::vector<int> q{(int)s}; comp[s]=id;
      while(!q.empty()){ int c=q.back(); q.pop_back(); csz[id]++; for(int n=1;n<=8;n++){ if(d4&&n%2==0) continue; int x=c%d.w+DX8[n],y=c/d.w+DY8[n]; if(!d.in(x,y)) continue; size_t k=(size_t)y*d.w+x; if(d.nd[k]||comp[k]>=0||!(d.z[k]<F[k])) continue; comp[k]=id; q.push_back((int)k);} } }
    // a cell at a depression's own level touching two depressions of that level may make them count as one
    for(int i=0;i<(int)d.z.size();i++){ if(comp[i]>=0) continue; std::set<int> touch; double z=d.nd[i]?0:d.z[i]; if(d.nd[i]) continue;
      for(int n=1;n<=8;n++){ if(d4&&n%2==0) continue; int x=i%d.w+DX8[n],y=i/d.w+DY8[n]; if(!d.in(x,y)) continue; size_t k=(size_t)y*d.w+x; if(comp[k]>=0&&F[k]==z) touch.insert(comp[k]); }
      if(touch.size()>1) for(int c:touch) shared[c]=1; }
    std::set<uint64_t> lims{0,1,2,(uint64_t)d.z.size(),(uint64_t)r.range(0,12)}; for(size_t i=0;i<csz.size()&&i<3;i++){ size_t k=r.below(csz.size()); lims.insert(csz[k]); if(csz[k]) lims.insert(csz[k]-1);} 
    const std::string name=std::string("max_dep<")+topo_name(d4)+">";
    for(uint64_t N:lims){
      op(name); Array2D<T> a(a0);
      if(d4) PriorityFlood_Barnes2014_max_dep<Topology::D4>(a,N); else PriorityFlood_Barnes2014_max_dep<Topology::D8>(a,N);
      count("fills");
      std::vector<int> state(csz.size(),-1); bool ok=true; size_t filled=0,left=0;
      for(int i=0;i<(int)d.z.size()&&ok;i++){
        T got=a((uint32_t)i); T orig=d.nd[i]?ndv:(T)d.z[i];
        auto ctx=[&](){ return fmt("type %s limit %llu cell (%d,%d) got %.17g original %.17g fill %.17g depression size %zu; dem ",tn.c_str(),(unsigned long long)N,i%d.w,i/d.w,(double)got,(double)orig,F[i],comp[i]>=0?csz[comp[i]]:0)+dump(d); };
        if(comp[i]<0){ if(got!=orig){ fail(name+":altered-outside",ctx()); ok=false; } continue; }
        int c=comp[i]; int s= got==orig?0 : got==(T)F[i]?1 : 2;
        if(s==2){ fail(name+":wrong-level",ctx()); ok=false; break; }
        if(state[c]==-1) state[c]=s; else if(state[c]!=s){ fail(name+":partly-filled",ctx()); ok=false; break; }
        if(s==1&&csz[c]>N){ fail(name+":large-filled",ctx()); ok=false; }
        if(s==0&&csz[c]<=N&&(!shared[c]||N>=d.z.size())){ fail(name+":small-left",ctx()); ok=false; }
        if(s) filled++; else left++;
      }
      count("cells_filled",filled); count("cells_left_unfilled",left);
      if(filled&&left){ Hash h; h.add(hash(d)); h.add(N); h.add(t); nontrivial(h.h); if(want_sample()) sample(fmt("%s %s limit=%llu ",tn.c_str(),name.c_str(),(unsigned long long)N)+dump(d)); }
    }
  }
}
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t){ switch(r.range(0,4)){case 0:one<float>(r);break;case 1:one<double>(r);break;case 2:one<uint8_t>(r);break;case 3:one<int16_t>(r);break;default:one<int32_t>(r);} }); }
