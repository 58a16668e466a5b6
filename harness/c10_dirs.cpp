// C10: direction rasters and the upslope areas computed from them.
#include "gen.hpp"
#include <omp.h>
#include <richdem/flowmet/d8_flowdirs.hpp>
#include <richdem/flowmet/dinf_flowdirs.hpp>
#include <richdem/methods/d8_methods.hpp>
#include <richdem/methods/dinf_methods.hpp>
using namespace rv; using namespace richdem;
static int threads(Rng&r){ static const int t[]={1,2,3,4,8}; int n=t[r.below(5)]; omp_set_num_threads(n); return n; }
// receivers of a cell: pairs (neighbour index 1..8, share)
using Rec=std::vector<std::pair<int,double>>;
static const int ANG2D8[9]={5,4,3,2,1,8,7,6,5};
inline Rec dinf_rec(float a){ double k=a/(M_PI/4); double f=std::floor(k+1e-5); if(std::fabs(k-std::round(k))<1e-5) return {{ANG2D8[(int)std::round(k)],1.0}}; int lo=(int)std::floor(k); (void)f; return {{ANG2D8[lo],lo+1-k},{ANG2D8[lo+1],k-lo}}; }
template<class A> void balance(const std::string&nm,int w,int h,const std::vector<char>&nd,const std::vector<Rec>&rec,const Array2D<A>&area,A ndv,double eps,const std::string&what){
  if(area.width()!=w||area.height()!=h){ fail(nm+":size",what); return; }
  std::vector<double> in((size_t)w*h,1); for(int i=0;i<w*h;i++) if(!nd[i]) for(auto&q:rec[i]){ int x=i%w+DX8[q.first],y=i/w+DY8[q.first]; if(x<0||y<0||x>=w||y>=h||nd[y*w+x]) continue; in[y*w+x]+=q.second*(double)area((uint32_t)i); }
  for(int i=0;i<w*h;i++){ double g=area((uint32_t)i); if(nd[i]){ if(area((uint32_t)i)!=ndv||!area.isNoData((uint32_t)i)){ fail(nm+":nodata-not-marked",what); return; } continue; } count("balance_equations"); if(std::fabs(g-in[i])>eps*(1+in[i])){ fail(nm+":balance",fmt("cell (%d,%d) area %.12g but one plus inflow is %.12g; ",i%w,i/w,g,in[i])+what); return; } }
}
template<class T> void dem(Rng&r){
  T ndv; Dem d=make_dem<T>(r,opts().thorough()?(r.chance(0.05)?90:36):(r.chance(0.04)?50:24),r.chance(0.3)?1:r.chance(0.3)?2:0,ndv); if(std::is_floating_point<T>::value) ndv=(T)-9999; for(auto&v:d.z) if(v<=(double)ndv+1) v=(double)(T)((double)ndv+2);
  bool slope=false; Array2D<T> a; to_array(d,ndv,a); int nt=threads(r); std::string what=fmt("threads %d ",nt)+TypeInfo<T>::name()+" "+dump(d);
  { op("d8_flow_directions"); Array2D<d8_flowdir_t> fd; d8_flow_directions(a,fd); std::vector<Rec> rec(d.z.size()); bool bad=false;
    if(fd.width()!=d.w||fd.height()!=d.h||fd.noData()!=FLOWDIR_NO_DATA){ fail("d8_flow_directions:shape",what); return; }
    for(int i=0;i<d.w*d.h&&!bad;i++){ int x=i%d.w,y=i/d.w,g=fd((uint32_t)i); auto where=[&]{ return fmt("cell (%d,%d) direction %d; ",x,y,g)+what; };
      if(d.nd[i]){ if(g!=FLOWDIR_NO_DATA){ fail("d8_flow_directions:nodata-direction",where()); bad=true; } continue; }
      if(g<0||g>8){ fail("d8_flow_directions:invalid",where()); bad=true; continue; }
      if(g) rec[i]={{g,1.0}};
      if(d.edge(x,y)){ if(g==0||d.in(x+DX8[g],y+DY8[g])){ fail("d8_flow_directions:edge-not-off-grid",where()); bad=true; } continue; }
      double lo=d.z[i]; for(int n=1;n<=8;n++) lo=std::min(lo,(double)a(x+DX8[n],y+DY8[n])); bool card=false; for(int n=1;n<=8;n+=2) card|=(double)a(x+DX8[n],y+DY8[n])==lo;
      if(lo==d.z[i]){ if(g!=NO_FLOW){ fail("d8_flow_directions:flow-without-lower-neighbour",where()); bad=true; } }
      else { slope=true; if(g==NO_FLOW){ fail("d8_flow_directions:lower-neighbour-but-no-flow",where()); bad=true; } else if((double)a(x+DX8[g],y+DY8[g])!=lo){ fail("d8_flow_directions:not-lowest-neighbour",where()); bad=true; } else if(card&&g%2==0){ fail("d8_flow_directions:diagonal-preferred-to-equal-cardinal",where()); bad=true; } } }
    if(!bad){ op("d8_flow_accum"); Array2D<int32_t> area; d8_flow_accum(fd,area); balance<int32_t>("d8_flow_accum",d.w,d.h,d.nd,rec,area,-1,0,what); Array2D<double> area2; d8_flow_accum(fd,area2); balance<double>("d8_flow_accum",d.w,d.h,d.nd,rec,area2,-1,1e-12,what); }
  }
  { op("dinf_flow_directions"); Array2D<float> fd; dinf_flow_directions(a,fd); std::vector<Rec> rec(d.z.size()); bool bad=false; const double R2=std::sqrt(2.0);
    if(fd.width()!=d.w||fd.height()!=d.h||fd.noData()!=-1){ fail("dinf_flow_directions:shape",what); return; }
    for(int i=0;i<d.w*d.h&&!bad;i++){ int x=i%d.w,y=i/d.w; float g=fd((uint32_t)i); auto where=[&]{ std::string s=fmt("cell (%d,%d) z %.17g angle %.9g (%.7g x 45deg) nbrs",x,y,d.z[i],g,g/(M_PI/4)); if(!d.edge(x,y)) for(int n=1;n<=8;n++) s+=fmt(" %.9g",(double)a(x+DX8[n],y+DY8[n])); return s+"; "+what; };
      if(d.nd[i]){ if(g!=-1){ fail("dinf_flow_directions:nodata-direction",where()); bad=true; } continue; }
      if(!(g>=0&&g<=2*M_PI+1e-6)){ fail("dinf_flow_directions:invalid",where()); bad=true; continue; }
      if(g!=NO_FLOW) rec[i]=dinf_rec(g);
      if(d.edge(x,y)){ if(g==NO_FLOW){ fail("dinf_flow_directions:edge-without-flow",where()); bad=true; } for(auto&q:rec[i]) if(d.in(x+DX8[q.first],y+DY8[q.first])){ fail("dinf_flow_directions:edge-not-off-grid",where()); bad=true; } continue; }
      double best=0; struct F{double s,ang;}; std::vector<F> fs; for(int c=0;c<8;c+=2) for(int k=-1;k<=1;k+=2){ int nc=ANG2D8[c],ne=ANG2D8[(c+k+8)%8]; double e0=d.z[i],e1=a(x+DX8[nc],y+DY8[nc]),e2=a(x+DX8[ne],y+DY8[ne]),s1=e0-e1,s2=e1-e2,rr=std::atan2(s2,s1),s; if(rr<0){ rr=0; s=s1; } else if(rr>M_PI/4){ rr=M_PI/4; s=(e0-e2)/R2; } else s=std::hypot(s1,s2); fs.push_back({s,c*M_PI/4+k*rr}); best=std::max(best,s); }
      if((best>0)!=(g!=NO_FLOW)){ fail("dinf_flow_directions:flow-where-no-descent-or-missing",where()); bad=true; continue; } if(!(best>0)) continue; slope=true;
      bool ok=false; for(auto&f:fs) if(f.s>=best*(1-1e-9)){ double df=std::fabs(std::remainder(f.ang-g,2*M_PI)); ok|=df<1e-5; } if(!ok){ fail("dinf_flow_directions:not-steepest-facet",where()); bad=true; } }
    if(!bad){ op("dinf_upslope_area"); Array2D<float> area; dinf_upslope_area(fd,area); balance<float>("dinf_upslope_area",d.w,d.h,d.nd,rec,area,-1,1e-4,what); Array2D<double> ar2; dinf_upslope_area(fd,ar2); balance<double>("dinf_upslope_area",d.w,d.h,d.nd,rec,ar2,-1,2e-5,what); }
  }
  if(slope){ nontrivial(hash(d)); if(want_sample()) sample(what); }
}
// arbitrary acyclic direction rasters
static void synth(Rng&r){
  int w,h; shape(r,w,h,opts().thorough()?44:26); Dem d; d.w=w; d.h=h; d.z.assign((size_t)w*h,0); d.nd.assign((size_t)w*h,0); if(r.chance(0.5)) nodata(r,d,r.range(1,2)); int N=w*h;
  std::vector<int> rank(N); for(int i=0;i<N;i++) rank[i]=i; int kind=r.range(0,2); if(kind==0) for(int i=N;i>1;i--) std::swap(rank[i-1],rank[r.below(i)]); else if(kind==1) for(int i=0;i<N;i++) rank[i]=(i/w%2)? i/w*w+(w-1-i%w):i;
  int nt=threads(r); auto okto=[&](int i,int n){ int x=i%w+DX8[n],y=i/w+DY8[n]; if(!d.in(x,y)) return true; int k=y*w+x; return d.nd[k]||rank[k]<rank[i]; };
  { Array2D<uint8_t> fd(w,h,0); fd.setNoData(FLOWDIR_NO_DATA); std::vector<Rec> rec(N); bool flow=false; for(int i=0;i<N;i++){ if(d.nd[i]){ fd((uint32_t)i)=FLOWDIR_NO_DATA; continue; } std::vector<int> c; for(int n=1;n<=8;n++) if(okto(i,n)) c.push_back(n); if(c.empty()||r.chance(0.08)) continue; int n=c[r.below(c.size())]; if(kind==1){ for(int k:c){ int x=i%w+DX8[k],y=i/w+DY8[k]; if(d.in(x,y)&&rank[y*w+x]==rank[i]-1) n=k; } } fd((uint32_t)i)=n; rec[i]={{n,1.0}}; flow=true; }
    std::string what=fmt("threads %d synthetic d8 kind %d ",nt,kind)+dumpA(fd); op("d8_flow_accum-synthetic"); Array2D<int32_t> area; d8_flow_accum(fd,area); count("synthetic_d8"); balance<int32_t>("d8_flow_accum",w,h,d.nd,rec,area,-1,0,what); if(flow){ Hash hh; for(int i=0;i<N;i++) hh.add(fd((uint32_t)i)); hh.add(w); nontrivial(hh.h); } }
  { Array2D<float> fd(w,h,0.f); fd.setNoData(-1); std::vector<Rec> rec(N); for(int i=0;i<N;i++){ if(d.nd[i]){ fd((uint32_t)i)=-1; continue; } std::vector<float> c; for(int k=0;k<8;k++){ bool a=okto(i,ANG2D8[k]),b=okto(i,ANG2D8[k+1]); if(a) c.push_back(k==0? (float)(2*M_PI):(float)(k*M_PI/4)); if(a&&b) c.push_back((float)((k+0.01+0.98*r.unit())*M_PI/4)); } if(c.empty()||r.chance(0.08)) continue; float g=c[r.below(c.size())]; fd((uint32_t)i)=g; rec[i]=dinf_rec(g); }
    std::string what=fmt("threads %d synthetic dinf kind %d ",nt,kind)+dumpA(fd); op("dinf_upslope_area-synthetic"); Array2D<double> area; dinf_upslope_area(fd,area); count("synthetic_dinf"); balance<double>("dinf_upslope_area",w,h,d.nd,rec,area,-1,2e-5,what); }
}
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t){ if(r.chance(0.4)){ synth(r); return; } switch(r.range(0,4)){case 0:dem<float>(r);break;case 1:dem<double>(r);break;case 2:dem<uint8_t>(r);break;case 3:dem<int16_t>(r);break;default:dem<int32_t>(r);} }); }
