// C22/C23: every parallel operation, run under our own OpenMP runtime (rvgomp.cpp) at many thread counts and schedules.
// Default: results must be bit-identical to one thread (C22). With RV_RACES: built with ThreadSanitizer, which watches the
// accesses; counts and sums are compared with one thread (C23).
#include "parops.hpp"
#if RV_PART==0
#ifdef RV_DIGEST
#include <richdem/depressions/depressions.hpp>
#include <richdem/common/logger.hpp>
#endif
using namespace rv;
namespace {
#ifdef RV_DIGEST
// C32: one line per operation result; builds with and without logging and progress must print the same lines
template<class T> void digest(Rng&r,uint64_t cs){
  static Ops<T> ops; if(ops.empty()){ ops_flow(ops); ops_flats_new(ops); ops_flats_old(ops); ops_dephier(ops); ops_misc(ops);
    ops.push_back({"PriorityFlood_Barnes2014",EXACT,[](const In<T>&in,Out&o){ Array2D<T> a(in.dem); PriorityFlood_Barnes2014<Topology::D8>(a); o.arr("dem",a); }}); ops.push_back({"PriorityFlood_Zhou2016",EXACT,[](const In<T>&in,Out&o){ Array2D<T> a(in.dem); PriorityFlood_Zhou2016(a); o.arr("dem",a); }}); ops.push_back({"CompleteBreaching_Lindsay2016",EXACT,[](const In<T>&in,Out&o){ Array2D<T> a(in.dem); CompleteBreaching_Lindsay2016<Topology::D8>(a); o.arr("dem",a); }}); }
  In<T> in; rvgomp_set(1,0,1); in.land=make_land<T>(r,20); Dem&d=in.land.d; T ndv=(T)-9999; in.x=pick_x(r); in.seed=r.next(); for(auto&v:d.z) if(v<=(double)ndv+1) v=0; to_array(d,ndv,in.dem); in.dem.geotransform={0,1+r.unit(),0,0,0,-1-r.unit()};
  nontrivial(hash(d)); for(int q=0;q<6;q++){ auto&o=ops[(cs*6+q)%ops.size()]; op(o.name); rvgomp_set(r.range(1,4),0,r.next()); seed_rand(in.seed|1); Out x; try{ o.f(in,x); }catch(const std::exception&e){ x.raw(e.what(),strlen(e.what())); } if(o.kind==STOCHASTIC||o.kind==ROUNDED) continue; Hash h; for(auto c:x.b) h.add(c); fprintf(outf(),"{\"t\":\"dig\",\"case\":%llu,\"op\":\"%s\",\"q\":%d,\"h\":%llu}\n",(unsigned long long)cs,jesc(o.name).c_str(),q,(unsigned long long)h.h); count("results_digested"); } rvgomp_set(1,0,1); }
#endif
 template<class T> void run(Rng&r,uint64_t cs){
  static Ops<T> ops; if(ops.empty()){ ops_flow(ops); ops_flats_new(ops); ops_flats_old(ops); ops_dephier(ops); ops_misc(ops); }
  In<T> in; rvgomp_set(1,0,1); in.land=make_land<T>(r,r.chance(0.1)?40:20); Dem&d=in.land.d; T ndv=std::is_integral<T>::value?(T)-9999:(T)-9999; in.x=pick_x(r); in.seed=r.next();
  for(auto&v:d.z) if(v<=(double)ndv+1) v=0; if(r.chance(0.5)){ auto F=ref_fill(d,false); for(size_t i=0;i<F.size();i++) if(!d.nd[i]&&std::isfinite(F[i])) d.z[i]=F[i]; }
  to_array(d,ndv,in.dem); in.dem.geotransform={0,1+r.unit(),0,0,0,-1-r.unit()};
  int k=opts().thorough()?5:3; bool big=d.w>2&&d.h>2; if(big) { nontrivial(hash(d)); if(want_sample()) sample(std::string(TypeInfo<T>::name())+" "+dump(d)); }
  for(int q=0;q<k;q++){ auto&o=ops[(cs*k+q*7+r.below(3))%ops.size()]; 
#ifndef RV_RACES
    if(o.kind==STOCHASTIC) continue;
    Out base; op(o.name+" (one thread)"); rvgomp_set(1,0,1); o.f(in,base);
#else
    Out base; if(o.kind==ROUNDED){ rvgomp_set(1,0,1); o.f(in,base); }
#endif
    static const int nts[]={2,3,4,5,8,13}; for(int rep=0;rep<(opts().thorough()?5:3);rep++){ int n=nts[r.below(6)]; int mode=r.chance(0.5);
#ifdef RV_RACES
      mode=0; // turns would order the accesses
#endif

      uint64_t s=r.next(); rvgomp_set(n,mode,s); op(o.name); uint64_t reg=rvgomp_regions(); Out got; o.f(in,got); count("parallel_regions",rvgomp_regions()-reg); count(mode?"runs_one_at_a_time":"runs_free"); rvgomp_set(1,0,1);
      std::string ctx=fmt("threads %d mode %d seed %llu; ",n,mode,(unsigned long long)s);
#ifndef RV_RACES
      if(got.b!=base.b){ size_t i=0; while(i<got.b.size()&&i<base.b.size()&&got.b[i]==base.b[i]) i++; fail(o.name+":differs-from-one-thread",ctx+"first difference at "+base.where(i)+"; "+TypeInfo<T>::name()+" "+in.land.what+" | "+dump(d)); break; }
      count("comparisons"); count("bytes_compared",got.b.size());
#endif
      if(o.kind==ROUNDED) for(size_t i=0;i<base.approx.size();i++) if(!(std::fabs(got.approx[i]-base.approx[i])<=1e-9*std::fabs(base.approx[i]))){ fail(o.name+":differs-from-one-thread",ctx+fmt("%.17g instead of %.17g; ",got.approx[i],base.approx[i])+TypeInfo<T>::name()+" "+dump(d)); break; }
    } } }
}
#ifdef RV_DIGEST
#define run digest
#endif
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t cs){ switch(r.range(0,2)){ case 0: run<float>(r,cs); break; case 1: run<double>(r,cs); break; default: run<int16_t>(r,cs); } }); }
#elif RV_PART==1
#include <richdem/methods/terrain_attributes.hpp>
#include <richdem/flowmet/d8_flowdirs.hpp>
#include <richdem/flowmet/dinf_flowdirs.hpp>
#include <richdem/methods/d8_methods.hpp>
#include <richdem/methods/dinf_methods.hpp>
namespace rv {
template<class T> void ops_flow(Ops<T>&v){
  for(int m=0;m<NMET;m++){ v.push_back({METRICS[m].name,METRICS[m].stoch?STOCHASTIC:EXACT,[m](const In<T>&in,Out&o){ Array3D<float> p(in.dem); run_fm(m,in.dem,p,in.x); o.arr("props",p); }});
    if(m%3==0) v.push_back({std::string("FA of ")+METRICS[m].name,METRICS[m].stoch?STOCHASTIC:EXACT,[m](const In<T>&in,Out&o){ Array2D<double> a(in.dem,1.0); run_fa(m,in.dem,a,in.x); o.arr("accum",a); }}); }
#define TA(f) v.push_back({#f,EXACT,[](const In<T>&in,Out&o){ Array2D<float> a; f(in.dem,a,1.0f); o.arr("out",a); }});
  TA(TA_slope_riserun) TA(TA_slope_percentage) TA(TA_slope_radians) TA(TA_slope_degrees) TA(TA_aspect) TA(TA_curvature) TA(TA_planform_curvature) TA(TA_profile_curvature)
  v.push_back({"TA_SPI/TA_CTI",EXACT,[](const In<T>&in,Out&o){ Array2D<float> s; TA_slope_riserun(in.dem,s,1.0f); Array2D<double> acc(in.dem,1.0); acc.setNoData(-1); for(uint32_t i=0;i<(uint32_t)acc.size();i++) acc(i)=i%7+1; Array2D<double> a,b; TA_SPI(acc,s,a); TA_CTI(acc,s,b); o.arr("spi",a); o.arr("cti",b); }});
  v.push_back({"d8_flow_directions",EXACT,[](const In<T>&in,Out&o){ Array2D<d8_flowdir_t> f; d8_flow_directions(in.dem,f); o.arr("dirs",f); }});
  v.push_back({"d8_flow_accum",EXACT,[](const In<T>&in,Out&o){ Array2D<d8_flowdir_t> f; d8_flow_directions(in.dem,f); Array2D<int32_t> a; d8_flow_accum(f,a); o.arr("area",a); }});
  v.push_back({"dinf_flow_directions",EXACT,[](const In<T>&in,Out&o){ Array2D<float> f; dinf_flow_directions(in.dem,f); o.arr("dirs",f); }});
  v.push_back({"dinf_upslope_area",EXACT,[](const In<T>&in,Out&o){ Array2D<float> f; dinf_flow_directions(in.dem,f); Array2D<double> a; dinf_upslope_area(f,a); o.arr("area",a); }});
  v.push_back({"seed_rand",STOCHASTIC,[](const In<T>&in,Out&){ seed_rand(in.seed|1); }});
  v.push_back({"random draws",STOCHASTIC,[](const In<T>&in,Out&){ double s=0; 
    #pragma omp parallel for reduction(+:s)
    for(int i=0;i<40;i++) s+=uniform_rand_int(0,9)+uniform_rand_real(0,1)+normal_rand(0,1)+(uniform_bits<uint32_t>()&1)+SaveRandomState().size();
    if(!(s>0)) count("odd_sum"); }});
}
RV_INST(ops_flow)
}
#elif RV_PART==2
#include <richdem/flats/flats.hpp>
namespace rv {
template<class T> void ops_flats_new(Ops<T>&v){
  v.push_back({"FindFlats",EXACT,[](const In<T>&in,Out&o){ Array2D<int8_t> f; FindFlats(in.dem,f); o.arr("flats",f); }});
  v.push_back({"GetFlatMask",EXACT,[](const In<T>&in,Out&o){ Array2D<int32_t> m,l; GetFlatMask(in.dem,m,l); o.arr("mask",m); o.arr("labels",l); }});
  if constexpr(std::is_floating_point<T>::value) v.push_back({"ResolveFlatsEpsilon",EXACT,[](const In<T>&in,Out&o){ Array2D<T> a(in.dem); ResolveFlatsEpsilon(a); o.arr("dem",a); }});
}
RV_INST(ops_flats_new)
}
#elif RV_PART==3
#include <richdem/flats/flat_resolution.hpp>
#include <richdem/flats/flat_resolution_dinf.hpp>
namespace rv {
template<class T> void ops_flats_old(Ops<T>&v){
  for(int alter=0;alter<(std::is_floating_point<T>::value?2:1);alter++)
    v.push_back({alter?"barnes_flat_resolution_d8 altering":"barnes_flat_resolution_d8",EXACT,[alter](const In<T>&in,Out&o){ Array2D<T> a(in.dem); Array2D<d8_flowdir_t> f; barnes_flat_resolution_d8(a,f,alter); o.arr("dem",a); o.arr("dirs",f); }});
  v.push_back({"resolve_flats_barnes",EXACT,[](const In<T>&in,Out&o){ Array2D<d8_flowdir_t> f; d8_flow_directions(in.dem,f); Array2D<int32_t> m,l; resolve_flats_barnes(in.dem,f,m,l); o.arr("mask",m); o.arr("labels",l); }});
  v.push_back({"resolve_flats_barnes_dinf",EXACT,[](const In<T>&in,Out&o){ Array2D<float> f; resolve_flats_barnes_dinf(in.dem,f); o.arr("dirs",f); }});
}
RV_INST(ops_flats_old)
}
#elif RV_PART==4
#include <richdem/depressions/fill_spill_merge.hpp>
namespace rv {
template<class T,Topology topo> static auto hier(const In<T>&in,Out&o,Array2D<T>&dem,Array2D<dh::dh_label_t>&label,Array2D<int8_t>&fd){
  to_arrays(in.land,dem,label,fd); dh::DepressionHierarchy<T> deps; try{ deps=dh::GetDepressionHierarchy<T,topo>(dem,label,fd); }catch(const std::runtime_error&){ o.mark("refused"); o.num(1); return deps; }
  o.mark("hierarchy"); o.num(deps.size()); for(auto&q:deps){ o.num(q.pit_cell); o.num(q.out_cell); o.num(q.parent); o.num(q.odep); o.num(q.geolink); o.num(q.pit_elev); o.num(q.out_elev); o.num(q.lchild); o.num(q.rchild); o.num(q.ocean_parent); for(auto c:q.ocean_linked) o.num(c); o.num(q.dep_label); o.num(q.cell_count); o.num(q.dep_vol); o.num(q.water_vol); o.num(q.total_elevation); }
  o.arr("labels",label); o.arr("dirs",fd); return deps; }
template<class T> static bool seeded(const In<T>&in){ for(char c:in.land.oc) if(c) return true; return false; }
template<class T> void ops_dephier(Ops<T>&v){
  v.push_back({"GetDepressionHierarchy<D8>",EXACT,[](const In<T>&in,Out&o){ if(!seeded(in)) return; Array2D<T> a; Array2D<dh::dh_label_t> l; Array2D<int8_t> f; hier<T,Topology::D8>(in,o,a,l,f); }});
  v.push_back({"GetDepressionHierarchy<D4>",EXACT,[](const In<T>&in,Out&o){ if(!seeded(in)) return; Array2D<T> a; Array2D<dh::dh_label_t> l; Array2D<int8_t> f; hier<T,Topology::D4>(in,o,a,l,f); }});
  v.push_back({"FillSpillMerge",EXACT,[](const In<T>&in,Out&o){ if(!seeded(in)) return; Array2D<T> a; Array2D<dh::dh_label_t> l; Array2D<int8_t> f; auto deps=hier<T,Topology::D8>(in,o,a,l,f); if(deps.empty()) return; Rng r(in.seed); Array2D<double> w(in.land.d.w,in.land.d.h,0.0); for(uint32_t i=0;i<(uint32_t)w.size();i++) w(i)=in.land.oc[i]?0:r.unit()*3; dh::FillSpillMerge(a,l,f,deps,w); o.arr("water",w); }});
}
RV_INST(ops_dephier)
}
#else
#include <richdem/misc/misc_methods.hpp>
namespace rv {
template<class T> void ops_misc(Ops<T>&v){
  v.push_back({"dem_surface_area",ROUNDED,[](const In<T>&in,Out&o){ o.approx.push_back(dem_surface_area(in.dem,1.0)); }});
  v.push_back({"Perimeter",EXACT,[](const In<T>&in,Out&o){ o.mark("perimeter"); o.num(Perimeter(in.dem,PerimType::CELL_COUNT)); o.num(Perimeter(in.dem,PerimType::SQUARE_EDGE)); }});
}
RV_INST(ops_misc)
}
#endif
