// Workload shared by the depression-hierarchy checks: a DEM, an ocean mask and thread counts.
#pragma once
#include "gen.hpp"
#include <omp.h>
#include <numeric>
#include <richdem/depressions/depression_hierarchy.hpp>
namespace rv {
namespace dh=richdem::dephier;
using richdem::Array2D;
struct Land { Dem d; std::vector<char> oc; int threads=1; std::string what; };
template<class T> Land make_land(Rng&r,int maxdim){
  Land L; T ndv; int ndm=r.chance(0.35)?1:0; L.d=make_dem<T>(r,maxdim,ndm,ndv); Dem&d=L.d; int N=d.w*d.h; L.oc.assign(N,0);
  if(r.chance(0.25)&&N<=1000){ std::vector<int> p(N); std::iota(p.begin(),p.end(),0); for(int i=N;i>1;i--) std::swap(p[i-1],p[r.below(i)]); double m=(double)(sizeof(T)==1?100:N); for(int i=0;i<N;i++) d.z[i]=std::floor(p[i]*m/N); d.kind+="/distinct"; }
  for(int i=0;i<N;i++) if(d.nd[i]){ d.z[i]=(double)ndv; L.oc[i]=1; }
  int k=r.range(0,5);
  if(k<=2){ for(int i=0;i<N;i++) if(d.edge(i%d.w,i/d.w)) L.oc[i]=1; }          // whole border is ocean
  else if(k==3){ L.oc[r.below(N)]=1; }                                          // a single ocean cell
  else if(k==4){ for(int y=0;y<d.h;y++) L.oc[y*d.w]=1; if(r.chance(0.5)) for(int x=0;x<d.w;x++) L.oc[x]=1; }
  else { double p=0.02+r.unit()*0.25; for(int i=0;i<N;i++) if(r.chance(p)) L.oc[i]=1; L.oc[r.below(N)]=1; }
  if(r.chance(0.3)) for(int i=0;i<N;i++) if(L.oc[i]) d.z[i]=(double)ndv;
  bool land=false; for(char c:L.oc) land|=!c; if(!land){ if(N>1){ L.oc[r.below(N)]=0; } }
  static const int t[]={1,2,3,4,8}; L.threads=t[r.below(5)]; omp_set_num_threads(L.threads);
  L.what=fmt("threads %d ",L.threads)+TypeInfo<T>::name()+" "+dump(d.z,d.w,d.h)+" ocean "; for(int y=0;y<d.h&&y<24;y++){ for(int x=0;x<d.w&&x<24;x++) L.what+=L.oc[y*d.w+x]?'#':'.'; L.what+='/'; }
  return L;
}
template<class T> void to_arrays(const Land&L,Array2D<T>&dem,Array2D<dh::dh_label_t>&label,Array2D<int8_t>&fd){
  dem.resize(L.d.w,L.d.h,(T)0); for(size_t i=0;i<L.d.z.size();i++) dem((uint32_t)i)=(T)L.d.z[i];
  label.resize(L.d.w,L.d.h,dh::NO_DEP); fd.resize(L.d.w,L.d.h,(int8_t)0); for(size_t i=0;i<L.oc.size();i++) if(L.oc[i]) label((uint32_t)i)=dh::OCEAN;
}
}
