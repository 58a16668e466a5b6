// C30: the C++ library behind a plain C interface, the reference the Python module is compared with.
#include <richdem/depressions/depressions.hpp>
#include <richdem/flats/flats.hpp>
#include <richdem/methods/flow_accumulation.hpp>
#include <richdem/methods/terrain_attributes.hpp>
#include <richdem/terrain_generation.hpp>
#include <richdem/depressions/depression_hierarchy.hpp>
#include <richdem/depressions/fill_spill_merge.hpp>
#include <cstring>
#include <string>
using namespace richdem;
#define T8 Topology::D8
#define T4 Topology::D4
template<class T> bool metric(const std::string&m,const Array2D<T>&d,Array3D<float>&p,double x){
  if(m=="Tarboton"||m=="Dinf") FM_Tarboton(d,p); else if(m=="Quinn") FM_Quinn(d,p); else if(m=="FairfieldLeymarieD8"||m=="Rho8") FM_FairfieldLeymarie<T8>(d,p); else if(m=="FairfieldLeymarieD4"||m=="Rho4") FM_FairfieldLeymarie<T4>(d,p);
  else if(m=="OCallaghanD8"||m=="D8") FM_OCallaghan<T8>(d,p); else if(m=="OCallaghanD4"||m=="D4") FM_OCallaghan<T4>(d,p); else if(m=="Freeman") FM_Freeman(d,p,x); else if(m=="Holmgren") FM_Holmgren(d,p,x); else return false; return true; }
template<class T> int run(const std::string&op,int w,int h,T*data,T nd,const double*gt,double x,double*dout,float*fout,double*ndout){
  Array2D<T> d(data,w,h); d.setNoData(nd); d.geotransform.assign(gt,gt+6); std::string k=op.substr(0,3),m=op.size()>3?op.substr(3):"";
  if(op=="fill8") PriorityFlood_Barnes2014<T8>(d); else if(op=="fill4") PriorityFlood_Barnes2014<T4>(d); else if(op=="eps8") PriorityFloodEpsilon_Barnes2014<T8>(d); else if(op=="eps4") PriorityFloodEpsilon_Barnes2014<T4>(d);
  else if(op=="breach8") CompleteBreaching_Lindsay2016<T8>(d); else if(op=="breach4") CompleteBreaching_Lindsay2016<T4>(d); else if(op=="flats") ResolveFlatsEpsilon(d);
  else if(k=="FA:"){ Array2D<double> a(dout,w,h); a.setNoData(-1); a.geotransform=d.geotransform; Array3D<float> p(d); if(!metric(m,d,p,x)) return 2; FlowAccumulation(p,a); *ndout=a.noData(); return 0; }
  else if(k=="FM:"){ Array3D<float> p(fout,w,h); p.setNoData(-2); p.geotransform=d.geotransform; if(!metric(m,d,p,x)) return 2; *ndout=p.noData(); return 0; }
  else if(k=="TA:"){ Array2D<float> o(fout,w,h); o.setNoData(-9999); o.geotransform=d.geotransform; float z=(float)x;
    if(m=="slope_riserun") TA_slope_riserun(d,o,z); else if(m=="slope_percentage") TA_slope_percentage(d,o,z); else if(m=="slope_degrees") TA_slope_degrees(d,o,z); else if(m=="slope_radians") TA_slope_radians(d,o,z); else if(m=="aspect") TA_aspect(d,o,z); else if(m=="curvature") TA_curvature(d,o,z); else if(m=="planform_curvature") TA_planform_curvature(d,o,z); else if(m=="profile_curvature") TA_profile_curvature(d,o,z); else return 2; *ndout=o.noData(); return 0; }
  else return 2;
  *ndout=(double)d.noData(); return 0; }
#ifndef RV_PART
#define RV_PART 0
#endif
#define X(N,T) extern "C" __attribute__((visibility("default"))) int ref_##N(const char*op,int w,int h,void*data,const void*nd,const double*gt,double x,double*dout,float*fout,double*ndout,char*msg){ try{ T n; memcpy(&n,nd,sizeof n); return run<T>(op,w,h,(T*)data,n,gt,x,dout,fout,ndout); }catch(const std::exception&e){ strncpy(msg,e.what(),255); return 1; } }
#if RV_PART==0
X(float32,float) X(int8,int8_t)
#elif RV_PART==1
X(float64,double) X(uint8,uint8_t)
#elif RV_PART==2
X(int16,int16_t) X(uint16,uint16_t)
#elif RV_PART==3
X(int32,int32_t) X(uint32,uint32_t)
#elif RV_PART==4
X(int64,int64_t) X(uint64,uint64_t)
#else
#define API extern "C" __attribute__((visibility("default")))
API int ref_props(int w,int h,float*props,float nd,double*acc,char*msg){ try{ Array3D<float> p(props,w,h); p.setNoData(nd); Array2D<double> a(acc,w,h); a.setNoData(-1); FlowAccumulation(p,a); return 0; }catch(const std::exception&e){ strncpy(msg,e.what(),255); return 1; } }
API int ref_perlin(int n,unsigned seed,double*out){ try{ Array2D<double> a(out,n,n); a.setNoData(-9999); generate_perlin_terrain(a,seed); return 0; }catch(const std::exception&e){ return 1; } }
static int put(const dephier::DepressionHierarchy<double>&deps,double*o,int cap){ int n=0; for(auto&d:deps){ if(n>=cap) break; double*q=o+(size_t)n*16; q[0]=d.pit_cell; q[1]=d.out_cell; q[2]=d.parent; q[3]=d.odep; q[4]=d.geolink; q[5]=d.pit_elev; q[6]=d.out_elev; q[7]=d.lchild; q[8]=d.rchild; q[9]=d.ocean_parent; q[10]=d.dep_label; q[11]=d.cell_count; q[12]=d.dep_vol; q[13]=d.water_vol; q[14]=d.total_elevation; double s=d.ocean_linked.size(); int k=1; for(auto x:d.ocean_linked) s+=(double)x*(++k); q[15]=s; n++; } return (int)deps.size(); }
API int ref_hier(int w,int h,double*dem,double nd,const double*gt,uint32_t*labels,int8_t*dirs,double*deps,int cap,double*wtd,char*msg){ try{ Array2D<double> d(dem,w,h); d.setNoData(nd); d.geotransform.assign(gt,gt+6); Array2D<dephier::dh_label_t> l(labels,w,h); Array2D<int8_t> f(dirs,w,h); auto dh=dephier::GetDepressionHierarchy<double,T8>(d,l,f); if(wtd){ Array2D<double> t(wtd,w,h); dephier::FillSpillMerge<double,double>(d,l,f,dh,t); } return put(dh,deps,cap); }catch(const std::exception&e){ strncpy(msg,e.what(),255); return -1; } }
#endif
