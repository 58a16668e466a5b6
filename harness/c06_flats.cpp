// C06: flat resolution. Part 0: flats.hpp (GetFlatMask, ResolveFlatsEpsilon, FindFlats); part 1: flat_resolution.hpp
// (barnes_flat_resolution_d8). The two headers define the same static names, so they are separate units.
#include "c06_flats.hpp"
using namespace rv;
#if RV_PART==0
#include <richdem/flats/flats.hpp>
using namespace richdem;
template<class T> void one(Rng&r){
  T ndv; int maxdim=opts().thorough()? (r.chance(0.05)?100:36) : (r.chance(0.04)?60:24);
  Dem d=make_dem<T>(r,maxdim,r.chance(0.4)?1:0,ndv); for(auto&v:d.z) if(v<=(double)ndv+1) v=(double)(T)((double)ndv+2);
  bool filled=r.chance(0.75); if(filled){ auto F=ref_fill(d,false); for(size_t i=0;i<F.size();i++) if(!d.nd[i]) d.z[i]=F[i]; }
  Flats f=ref_flats(d); bool any=false; for(int i=0;i<d.w*d.h;i++) if(f.flat[i]&&f.isdrain(i)) any=true;
  if(any){ nontrivial(hash(d)); count("flat_cells",f.flatcells); if(want_sample()) sample(std::string(TypeInfo<T>::name())+" "+dump(d)); }
  if(filled&&f.undrained) fail("oracle:undrained-flat-in-filled",dump(d));
  Array2D<T> a0; to_array(d,ndv,a0);
  { op("FindFlats"); Array2D<int8_t> fl; FindFlats(a0,fl); for(int i=0;i<d.w*d.h;i++){ int want=d.nd[i]?-1:f.flat[i]; if(fl((uint32_t)i)!=want||fl.isNoData((uint32_t)i)!=(bool)d.nd[i]){ fail("FindFlats:wrong",fmt("cell (%d,%d) got %d want %d; ",i%d.w,i/d.w,(int)fl((uint32_t)i),want)+dump(d)); break; } } }
  { op("GetFlatMask"); Array2D<int32_t> m,l; Array2D<T> a(a0); GetFlatMask(a,m,l); check_mask("GetFlatMask",d,f,l,m);
    if(!std::is_floating_point<T>::value){ op("ResolveFlatsEpsilon"); bool thrown=false; try{ ResolveFlatsEpsilon(a); }catch(const std::exception&){ thrown=true; } count("integer_refused",thrown); if(!(a==a0)) fail("ResolveFlatsEpsilon:integer-altered",dump(d)); }
    else if(any){ op("ResolveFlatsEpsilon_Barnes2014"); ResolveFlatsEpsilon_Barnes2014(m,l,a); Array2D<T> b(a0); op("ResolveFlatsEpsilon"); ResolveFlatsEpsilon(b);
      bool room=true; if constexpr(std::is_floating_point<T>::value) room=headroom<T>(d,f); count(room?"altered_judged":"altered_without_headroom");
      check_altered<T>("ResolveFlatsEpsilon_Barnes2014",d,f,a,ndv,room); check_altered<T>("ResolveFlatsEpsilon",d,f,b,ndv,room); } }
  run_old<T>(r,d,ndv,f,filled);
}
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t){ switch(r.range(0,6)){case 0:case 1:one<float>(r);break;case 2:case 3:one<double>(r);break;case 4:one<uint8_t>(r);break;case 5:one<int16_t>(r);break;default:one<int32_t>(r);} }); }
#else
#include <richdem/flats/flat_resolution.hpp>
using namespace richdem;
template<class T> void run_old(Rng&r,const Dem&d,T ndv,const Flats&f,bool filled){
  Array2D<T> a0; to_array(d,ndv,a0); const int N=d.w*d.h;
  Array2D<d8_flowdir_t> base; op("d8_flow_directions"); d8_flow_directions(a0,base);
  { op("resolve_flats_barnes"); Array2D<int32_t> m,l; resolve_flats_barnes(a0,base,m,l); check_mask("resolve_flats_barnes",d,f,l,m); }
  for(int alter=0;alter<2;alter++){
    if(alter&&!std::is_floating_point<T>::value) continue;
    bool room=true; if constexpr(std::is_floating_point<T>::value) room=headroom<T>(d,f);
    const std::string nm=alter?"barnes_flat_resolution_d8-alter":"barnes_flat_resolution_d8"; op(nm);
    Array2D<T> a(a0); Array2D<d8_flowdir_t> fd; barnes_flat_resolution_d8(a,fd,alter);
    if(alter) check_altered<T>(nm,d,f,a,ndv,room); else if(!(a==a0)) fail(nm+":elevations-altered",dump(d));
    if(alter&&!room) continue;
    std::vector<int> st(N,0); // 0 unknown 1 on path 2 ends well 3 ends in unresolved
    for(int i=0;i<N;i++){ int x=i%d.w,y=i/d.w; int g=fd((uint32_t)i); auto where=[&]{ return fmt("cell (%d,%d) dir %d base %d; ",x,y,g,(int)base((uint32_t)i))+dump(d); };
      if(d.nd[i]){ if(g!=FLOWDIR_NO_DATA||fd.noData()!=FLOWDIR_NO_DATA){ fail(nm+":nodata-direction",where()); return; } continue; }
      if(g<0||g>8){ fail(nm+":invalid-direction",where()); return; }
      if(!alter&&base((uint32_t)i)!=NO_FLOW&&g!=base((uint32_t)i)){ fail(nm+":existing-direction-changed",where()); return; }
      bool unres= f.flat[i]&&!f.isdrain(i);
      if(unres!=(g==NO_FLOW)){ fail(nm+(g==NO_FLOW?":drainable-cell-without-flow":":undrainable-cell-with-flow"),where()); return; }
      if(g!=NO_FLOW){ int nx=x+DX8[g],ny=y+DY8[g]; if(d.in(nx,ny)&&!d.isnd(nx,ny)&&d.at(nx,ny)>d.z[i]){ fail(nm+":flows-uphill",where()); return; } if(!d.in(nx,ny)&&!d.edge(x,y)) fail(nm+":leaves-grid-from-inside",where()); }
    }
    for(int s=0;s<N;s++) if(!d.nd[s]&&!st[s]){ std::vector<int> path; int c=s,end=2; while(true){ if(st[c]==1){ fail(nm+":cycle",fmt("through (%d,%d); ",c%d.w,c/d.w)+dump(d)); return; } if(st[c]){ end=st[c]; break; } st[c]=1; path.push_back(c); int g=fd((uint32_t)c); if(g==NO_FLOW){ end=3; break; } int nx=c%d.w+DX8[g],ny=c/d.w+DY8[g]; if(!d.in(nx,ny)||d.isnd(nx,ny)) break; c=ny*d.w+nx; } for(int p:path) st[p]=end; if(filled&&end==3){ fail(nm+":does-not-leave-data",dump(d)); return; } }
    count("paths_walked",N);
  }
}
template void run_old<float>(Rng&,const Dem&,float,const Flats&,bool); template void run_old<double>(Rng&,const Dem&,double,const Flats&,bool);
template void run_old<uint8_t>(Rng&,const Dem&,uint8_t,const Flats&,bool); template void run_old<int16_t>(Rng&,const Dem&,int16_t,const Flats&,bool); template void run_old<int32_t>(Rng&,const Dem&,int32_t,const Flats&,bool);
#endif
