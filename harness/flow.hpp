#pragma once
#include "gen.hpp"
#include <richdem/common/Array3D.hpp>
#include <richdem/common/random.hpp>
#include <richdem/methods/flow_accumulation.hpp>
namespace rv {
using namespace richdem;
template<class T> Dem flow_dem(Rng&r,T&ndv,int big,int small){
  Dem d=make_dem<T>(r,opts().thorough()? (r.chance(0.05)?big:34):(r.chance(0.04)?big/2:small), r.chance(0.25)?1:r.chance(0.35)?2:0, ndv);
  for(auto&v:d.z) if(v<=(double)ndv+1) v=(double)(T)((double)ndv+2);
  if(r.chance(0.3)){ auto F=ref_fill(d,false); for(size_t i=0;i<F.size();i++) if(!d.nd[i]) d.z[i]=std::isfinite(F[i])?F[i]:d.z[i]; }
  if(std::is_floating_point<T>::value&&r.chance(0.15)) for(size_t i=0;i<d.z.size();i++) if(std::fabs(d.z[i])>1e-3) { int k=r.range(0,6); T v=(T)d.z[i]; for(int j=0;j<k;j++) v=std::nextafter(v,std::numeric_limits<T>::max()); d.z[i]=(double)v; }  // differences of a few ulps, as epsilon filling leaves
  if(r.chance(0.15)) { double hi=-1e300; for(double v:d.z) hi=std::max(hi,v); if(hi+1<=(double)std::numeric_limits<T>::max()&&hi<1e6){ ndv=(T)(hi+1); } }   // NoData above all data
  return d;
}
struct Metric { const char*name; bool param,d4,stoch; };
static const Metric METRICS[]={{"FM_Tarboton",0,0,0},{"FM_Dinfinity",0,0,0},{"FM_Holmgren",1,0,0},{"FM_Quinn",0,0,0},{"FM_Freeman",1,0,0},{"FM_FairfieldLeymarieD8",0,0,1},{"FM_FairfieldLeymarieD4",0,1,1},{"FM_Rho8",0,0,1},{"FM_Rho4",0,1,1},{"FM_OCallaghanD8",0,0,0},{"FM_OCallaghanD4",0,1,0},{"FM_D8",0,0,0},{"FM_D4",0,1,0}};
static const int NMET=13;
template<class T> void run_fm(int m,const Array2D<T>&a,Array3D<float>&p,double x){
  switch(m){ case 0: FM_Tarboton(a,p); break; case 1: FM_Dinfinity(a,p); break; case 2: FM_Holmgren(a,p,x); break; case 3: FM_Quinn(a,p); break; case 4: FM_Freeman(a,p,x); break; case 5: FM_FairfieldLeymarie<Topology::D8>(a,p); break; case 6: FM_FairfieldLeymarie<Topology::D4>(a,p); break; case 7: FM_Rho8(a,p); break; case 8: FM_Rho4(a,p); break; case 9: FM_OCallaghan<Topology::D8>(a,p); break; case 10: FM_OCallaghan<Topology::D4>(a,p); break; case 11: FM_D8(a,p); break; default: FM_D4(a,p); } }
template<class T,class A> void run_fa(int m,const Array2D<T>&a,Array2D<A>&c,double x){
  switch(m){ case 0: FA_Tarboton(a,c); break; case 1: FA_Dinfinity(a,c); break; case 2: FA_Holmgren(a,c,x); break; case 3: FA_Quinn(a,c); break; case 4: FA_Freeman(a,c,x); break; case 5: FA_FairfieldLeymarieD8(a,c); break; case 6: FA_FairfieldLeymarieD4(a,c); break; case 7: FA_Rho8(a,c); break; case 8: FA_Rho4(a,c); break; case 9: FA_OCallaghanD8(a,c); break; case 10: FA_OCallaghanD4(a,c); break; case 11: FA_D8(a,c); break; default: FA_D4(a,c); } }
inline double pick_x(Rng&r){ static const double xs[]={1,0.5,1.1,2,4,6,8,10,25}; return r.chance(0.6)? xs[r.below(9)] : r.unit()*10; }
inline std::string props_str(const Array3D<float>&p,int x,int y){ std::string s="["; for(int n=0;n<=8;n++) s+=fmt("%g ",p(x,y,n)); return s+"]"; }
// Structural validity (C07). Returns false after reporting.
inline bool valid_props(const std::string&nm,const Dem&d,const Array3D<float>&p,bool d4){
  if(p.width()!=d.w||p.height()!=d.h){ fail(nm+":size",dump(d)); return false; }
  for(int y=0;y<d.h;y++)for(int x=0;x<d.w;x++){ auto where=[&]{ return fmt("cell (%d,%d) z %.17g props %s; ",x,y,d.at(x,y),props_str(p,x,y).c_str())+dump(d); };
    float s=p(x,y,0);
    if(d.isnd(x,y)){ if(s!=NO_DATA_GEN||!p.isNoData(x,y)){ fail(nm+":nodata-not-marked",where()); return false; } for(int n=1;n<=8;n++) if(p(x,y,n)>0){ fail(nm+":nodata-flows",where()); return false; } continue; }
    if(p.isNoData(x,y)){ fail(nm+":data-marked-nodata",where()); return false; }
    double sum=0; for(int n=1;n<=8;n++){ float v=p(x,y,n); if(!(v==v)||v>1.0001f||(v<0&&v!=NO_FLOW_GEN)){ fail(nm+":proportion-out-of-range",where()); return false; } if(v>0){ sum+=v; if(d4&&n%2==0){ fail(nm+":diagonal-flow",where()); return false; } int nx=x+DX8[n],ny=y+DY8[n]; if(!d.in(nx,ny)){ fail(nm+":flow-off-grid",where()); return false; } if(d.isnd(nx,ny)){ fail(nm+":flow-to-nodata",where()); return false; } if(!(d.at(nx,ny)<d.at(x,y))){ fail(nm+":flow-not-downhill",where()); return false; } } }
    if(s==HAS_FLOW_GEN){ if(std::fabs(sum-1)>1e-5){ fail(nm+":proportions-do-not-sum-to-one",where()); return false; } if(d.edge(x,y)){ fail(nm+":edge-cell-flows",where()); return false; } }
    else if(s==NO_FLOW_GEN){ if(sum!=0){ fail(nm+":no-flow-cell-flows",where()); return false; } }
    else { fail(nm+":bad-flag",where()); return false; }
  }
  return true;
}
}
