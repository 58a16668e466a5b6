// C27: every operation on degenerate and extreme rasters, watched by AddressSanitizer, UndefinedBehaviorSanitizer (with
// floating to integer conversions), container assertions, a time limit and, in a second build, valgrind for uninitialised reads.
#define RV_INST(f) template void f<float>(Ops<float>&); template void f<double>(Ops<double>&); template void f<int32_t>(Ops<int32_t>&); template void f<uint8_t>(Ops<uint8_t>&);
#if RV_PART>=1 && RV_PART<=5
#include "c22_par.cpp"
#else
#include "parops.hpp"
#if RV_PART==6
#include <richdem/depressions/depressions.hpp>
#include <richdem/methods/flow_accumulation.hpp>
namespace rv {
template<class T> void ops_deps(Ops<T>&v){
#define F1(nm,call) v.push_back({nm,EXACT,[](const In<T>&in,Out&o){ Array2D<T> a(in.dem); call; o.arr("dem",a); }});
  F1("PriorityFlood_Original<D8>",PriorityFlood_Original<Topology::D8>(a)) F1("PriorityFlood_Original<D4>",PriorityFlood_Original<Topology::D4>(a)) F1("PriorityFlood_Barnes2014<D8>",PriorityFlood_Barnes2014<Topology::D8>(a)) F1("PriorityFlood_Barnes2014<D4>",PriorityFlood_Barnes2014<Topology::D4>(a))
  F1("PriorityFlood_Wei2018",PriorityFlood_Wei2018(a)) F1("PriorityFlood_Zhou2016",PriorityFlood_Zhou2016(a)) F1("FillDepressions<D8>",FillDepressions<Topology::D8>(a)) F1("FillDepressions<D4>",FillDepressions<Topology::D4>(a))
  F1("FillDepressionsEpsilon<D8>",FillDepressionsEpsilon<Topology::D8>(a)) F1("FillDepressionsEpsilon<D4>",FillDepressionsEpsilon<Topology::D4>(a)) F1("CompleteBreaching<D8>",CompleteBreaching_Lindsay2016<Topology::D8>(a)) F1("CompleteBreaching<D4>",CompleteBreaching_Lindsay2016<Topology::D4>(a))
  v.push_back({"PriorityFlood_Barnes2014_max_dep",EXACT,[](const In<T>&in,Out&o){ Rng r(in.seed); static const uint64_t ks[]={0,1,2,5,1000,~0ull}; Array2D<T> a(in.dem); if(r.chance(0.5)) PriorityFlood_Barnes2014_max_dep<Topology::D8>(a,ks[r.below(6)]); else PriorityFlood_Barnes2014_max_dep<Topology::D4>(a,ks[r.below(6)]); o.arr("dem",a); }});
  v.push_back({"HasDepressions",EXACT,[](const In<T>&in,Out&o){ o.num(HasDepressions<Topology::D8>(in.dem)); o.num(HasDepressions<Topology::D4>(in.dem)); }});
  v.push_back({"pit_mask",EXACT,[](const In<T>&in,Out&o){ Array2D<uint8_t> m; pit_mask<Topology::D8>(in.dem,m); o.arr("mask",m); pit_mask<Topology::D4>(in.dem,m); o.arr("mask4",m); }});
  v.push_back({"PriorityFloodFlowdirs_Barnes2014",EXACT,[](const In<T>&in,Out&o){ Array2D<d8_flowdir_t> f; PriorityFloodFlowdirs_Barnes2014(in.dem,f); o.arr("dirs",f); }});
  v.push_back({"PriorityFloodWatersheds_Barnes2014",EXACT,[](const In<T>&in,Out&o){ Array2D<T> a(in.dem); Array2D<int32_t> l; PriorityFloodWatersheds_Barnes2014<Topology::D8>(a,l,in.seed&1); o.arr("labels",l); o.arr("dem",a); PriorityFloodWatersheds_Barnes2014<Topology::D4>(a,l,in.seed&1); o.arr("labels4",l); }});
  if constexpr(std::is_floating_point<T>::value) v.push_back({"Lindsay2016",EXACT,[](const In<T>&in,Out&o){ Rng r(in.seed); static const int modes[]={COMPLETE_BREACHING,SELECTIVE_BREACHING,CONSTRAINED_BREACHING}; static const uint32_t ls[]={0,1,3,1000,0xFFFFFFFFu}; static const double ds[]={0,-1,1,1e30,std::numeric_limits<double>::infinity()}; Array2D<T> a(in.dem); Lindsay2016(a,modes[r.below(3)],r.chance(0.5),r.chance(0.5),ls[r.below(5)],(T)ds[r.below(5)]); o.arr("dem",a); }});
  for(int m=0;m<NMET;m++) v.push_back({std::string("FlowAccumulation of ")+METRICS[m].name,METRICS[m].stoch?STOCHASTIC:EXACT,[m](const In<T>&in,Out&o){ Rng r(in.seed); static const double ws[]={1,0,-1,1e300,0.25}; Array2D<double> a(in.dem,ws[r.below(5)]); run_fa(m,in.dem,a,in.x); o.arr("accum",a); }});
}
RV_INST(ops_deps)
}
#elif RV_PART==7
#include <richdem/methods/d8_methods.hpp>
#include <richdem/methods/flow_accumulation.hpp>
#include <richdem/misc/conversion.hpp>
#include <richdem/terrain_generation.hpp>
namespace rv {
// rasters of directions and proportions that no flow metric would produce: off the grid, in circles, invalid codes
template<class T> void ops_fields(Ops<T>&v){
  v.push_back({"d8_flow_accum of any codes",EXACT,[](const In<T>&in,Out&o){ Rng r(in.seed); Array2D<d8_flowdir_t> f(in.dem,0); int style=r.range(0,2); for(uint32_t i=0;i<(uint32_t)f.size();i++) f(i)=style==0?r.range(0,8):style==1?(r.chance(0.9)?r.range(1,8):r.range(0,255)):r.range(0,255); Array2D<double> a; d8_flow_accum(f,a); o.arr("area",a); }});
  v.push_back({"FlowAccumulation of any proportions",EXACT,[](const In<T>&in,Out&o){ Rng r(in.seed); Array3D<float> p(in.dem); bool off=r.chance(0.5); for(int y=0;y<p.height();y++)for(int x=0;x<p.width();x++){ p(x,y,0)=HAS_FLOW_GEN; int k=r.range(0,3); if(k==0){ p(x,y,0)=r.chance(0.5)?NO_FLOW_GEN:NO_DATA_GEN; continue; } for(int n=1;n<=8;n++){ bool in_=x+DX8[n]>=0&&y+DY8[n]>=0&&x+DX8[n]<p.width()&&y+DY8[n]<p.height(); p(x,y,n)=(in_||off)&&r.chance(0.4)?(float)r.unit():0; } } Array2D<double> a(in.dem,1.0); FlowAccumulation(p,a); o.arr("accum",a); }});
  v.push_back({"convert_arc_flowdirs of any codes",EXACT,[](const In<T>&in,Out&o){ Rng r(in.seed); Array2D<d8_flowdir_t> f(in.dem,0),q(in.dem,0); for(uint32_t i=0;i<(uint32_t)f.size();i++) f(i)=r.chance(0.9)?1<<r.below(8):r.range(0,255); convert_arc_flowdirs_to_richdem_d8(f,q); o.arr("dirs",q); }});
  v.push_back({"generate_perlin_terrain",EXACT,[](const In<T>&in,Out&o){ Array2D<double> a(in.dem,0.0); generate_perlin_terrain(a,(uint32_t)in.seed); o.arr("dem",a); }});
}
RV_INST(ops_fields)
}
#elif RV_PART==8
#include <richdem/flowmet/dinf_flowdirs.hpp>
#include <richdem/methods/dinf_methods.hpp>
namespace rv {
template<class T> void ops_angles(Ops<T>&v){
  v.push_back({"dinf_upslope_area of any angles",EXACT,[](const In<T>&in,Out&o){ Rng r(in.seed); Array2D<float> f(in.dem,0.f); f.setNoData(dinf_NO_DATA); int style=r.range(0,2); static const float odd[]={-1,-2,-3,0,6.2831855f,6.2831853f,7,100,-0.5f,1e30f,std::numeric_limits<float>::infinity(),std::numeric_limits<float>::quiet_NaN()}; for(uint32_t i=0;i<(uint32_t)f.size();i++) f(i)=style==0||r.chance(0.9)?(float)(r.chance(0.5)?r.unit()*6.283185:r.below(8)*M_PI/4):odd[r.below(12)]; Array2D<double> a; dinf_upslope_area(f,a); o.arr("area",a); }});
}
RV_INST(ops_angles)
}
#else
#include <dlfcn.h>
namespace rv { template<class T> void ops_deps(Ops<T>&); template<class T> void ops_fields(Ops<T>&); template<class T> void ops_angles(Ops<T>&); }
using namespace rv;
template<class T> T odd(Rng&r){ using L=std::numeric_limits<T>; switch(r.range(0,9)){ case 0: return L::max(); case 1: return L::lowest(); case 2: return 0; case 3: return L::min(); case 4: if constexpr(!L::is_integer) return L::infinity(); return L::max()-1; case 5: if constexpr(!L::is_integer) return -L::infinity(); return L::lowest()+1; case 6: if constexpr(!L::is_integer) return L::denorm_min(); return 1; case 7: if constexpr(!L::is_integer) return -(T)0; return L::max()/2; case 8: if constexpr(!L::is_integer) return L::quiet_NaN(); return L::max()/2+1; default: return (T)r.range(0,9); } }
template<class T> void run(Rng&r){
  static Ops<T> ops; if(ops.empty()){ ops_flow(ops); ops_flats_new(ops); ops_flats_old(ops); ops_dephier(ops); ops_misc(ops); ops_deps(ops); ops_fields(ops); ops_angles(ops); count("operations_"+std::string(TypeInfo<T>::name()),ops.size()); }
  rvgomp_set(1,0,1); In<T> in; int w,h; switch(r.range(0,9)){ case 0: w=h=1; break; case 1: w=1; h=r.range(2,9); break; case 2: h=1; w=r.range(2,9); break; case 3: w=2; h=r.range(1,6); break; case 4: w=h=3; break; case 5: h=2; w=r.range(1,6); break; case 6: if(r.chance(0.3)){ w=r.chance(0.5)?0:r.range(0,3); h=w?0:r.range(0,3); break; } /* fall through */ default: w=r.range(3,9); h=r.range(3,9); }
  if(r.chance(0.02)){ w=r.range(60,140); h=r.range(1,60); }
  const int N=w*h; in.dem.resize(w,h,(T)0); in.seed=r.next()|1; static const double xs[]={1,0,-1,0.5,1e10,-1e10,1e300}; in.x=xs[r.below(7)]; in.dem.geotransform={0,r.chance(0.8)?1.0:1e-12,0,0,0,r.chance(0.8)?-1.0:-1e12}; if(r.chance(0.05)) in.dem.geotransform.clear();
  int style=r.range(0,6); T c=odd<T>(r),c2=odd<T>(r); std::string st; bool nan=r.chance(0.15);
  for(uint32_t i=0;i<(uint32_t)N;i++){ T v; switch(style){ case 0: v=c; break; case 1: v=r.chance(0.5)?c:c2; break; case 2: v=odd<T>(r); break; case 3: v=r.chance(0.85)?(T)r.range(0,9):odd<T>(r); break; case 4: v=(T)r.range(0,3); break; case 5: { uint64_t b=r.next(); memcpy(&v,&b,sizeof(T)); break; } default: v=(T)(i%2?std::numeric_limits<T>::max():std::numeric_limits<T>::lowest()); } if(v!=v&&!nan) v=1; in.dem(i)=v; }
  T ndv; switch(r.range(0,5)){ case 0: ndv=odd<T>(r); break; case 1: ndv=N?in.dem((uint32_t)r.below(N)):(T)1; break; case 2: ndv=std::numeric_limits<T>::lowest(); break; case 3: ndv=std::numeric_limits<T>::max(); break; default: ndv=(T)-9999; } in.dem.setNoData(ndv);
  double pn=r.chance(0.4)?0:r.chance(0.15)?1:r.unit(); for(uint32_t i=0;i<(uint32_t)N;i++) if(r.chance(pn)) in.dem(i)=ndv; in.dem.countDataCells();
  Dem&d=in.land.d; d.w=w; d.h=h; d.nd.assign(N,0); d.z.resize(N); for(int i=0;i<N;i++) d.z[i]=(double)in.dem((uint32_t)i); in.land.oc.assign(N,0); double po=r.chance(0.3)?1:r.unit(); bool border=r.chance(0.5); for(int i=0;i<N;i++) in.land.oc[i]=border?d.edge(i%w,i/w):r.chance(po);
  std::string what=std::string(TypeInfo<T>::name())+fmt(" x %g nodata %.9g ",in.x,(double)ndv)+dump(d); Hash hh; hh.add(w); hh.add(h); for(double z:d.z) hh.addd(z); nontrivial(hh.h); if(want_sample()) sample(what); count(fmt("shape_%s",N==0?"empty":N==1?"one_cell":w==1||h==1?"line":w<3||h<3?"two_wide":"other"));
  std::vector<unsigned char> before; { Out o; o.arr("dem",in.dem); before=o.b; }
  int k=opts().thorough()?30:14; if(getenv("RV_FEW")) k=6; for(int q=0;q<k;q++){ auto&o=ops[r.below(ops.size())]; if(getenv("RV_ONLY")&&o.name.find(getenv("RV_ONLY"))==std::string::npos) continue; rvgomp_set(r.range(1,3),0,r.next()); op(o.name); Out x; in.seed=r.next()|1; count("operations_run"); try{ o.f(in,x); count("operations_completed"); }catch(const std::exception&e){ count("operations_refused"); } rvgomp_set(1,0,1);
    Out b; b.arr("dem",in.dem); if(b.b!=before){ fail(o.name+":const-input-altered",what); return; }
    // results are looked at, so that the memory checker sees results made of uninitialised memory
    uint64_t s=0; for(unsigned char c:x.b) s+=c; if(s==0x1234567) count("curious_sum"); }
}
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t){ switch(r.range(0,3)){ case 0: run<float>(r); break; case 1: run<double>(r); break; case 2: run<int32_t>(r); break; default: run<uint8_t>(r); } }); }
#endif
#endif
