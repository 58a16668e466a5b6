#pragma once
#include "gen.hpp"
#include <richdem/common/Array2D.hpp>
// Independent description of the flats of a DEM (8-neighbour), as distances and components.
struct Flats {
  int w,h; std::vector<int> comp; std::vector<char> flat, low, high, drain; std::vector<int> mask; int ncomp=0; size_t flatcells=0, undrained=0; 
  bool isdrain(int i)const{ return comp[i]>=0&&drain[comp[i]]; }
};
inline Flats ref_flats(const rv::Dem&d){
  using namespace rv; Flats f; f.w=d.w; f.h=d.h; int N=d.w*d.h; f.comp.assign(N,-1); f.flat.assign(N,0); f.low=f.flat; f.high=f.flat; f.mask.assign(N,0);
  auto nb=[&](int i,int n){ int x=i%d.w+DX8[n],y=i/d.w+DY8[n]; return d.in(x,y)? y*d.w+x : -1; };
  for(int i=0;i<N;i++){ if(d.nd[i]||d.edge(i%d.w,i/d.w)) continue; bool fl=true,hi=false; for(int n=1;n<=8;n++){ int k=nb(i,n); if(d.nd[k]||d.z[k]<d.z[i]) fl=false; else if(d.z[k]>d.z[i]) hi=true; } if(fl){ f.flat[i]=1; f.flatcells++; f.high[i]=hi; } }
  for(int i=0;i<N;i++) if(!d.nd[i]&&!f.flat[i]) for(int n=1;n<=8;n++){ int k=nb(i,n); if(k>=0&&f.flat[k]&&d.z[k]==d.z[i]) f.low[i]=1; }
  for(int s=0;s<N;s++) if(!d.nd[s]&&f.comp[s]<0){ int id=f.ncomp++; std::vector<int> q{s}; f.comp[s]=id; bool dr=false; for(size_t k=0;k<q.size();k++){ int c=q[k]; dr|=f.low[c]; for(int n=1;n<=8;n++){ int j=nb(c,n); if(j>=0&&!d.nd[j]&&f.comp[j]<0&&d.z[j]==d.z[c]){ f.comp[j]=id; q.push_back(j);} } } f.drain.push_back(dr); if(!dr&&f.flat[s]) f.undrained++; }
  std::vector<int> da(N,0),dl(N,0),H(f.ncomp,0);
  auto bfs=[&](std::vector<int>&dist,auto seed){ std::vector<int> q; for(int i=0;i<N;i++) if(seed(i)){ dist[i]=1; q.push_back(i);} for(size_t k=0;k<q.size();k++){ int c=q[k]; for(int n=1;n<=8;n++){ int j=nb(c,n); if(j>=0&&f.flat[j]&&!dist[j]&&f.comp[j]==f.comp[c]){ dist[j]=dist[c]+1; q.push_back(j);} } } };
  bfs(da,[&](int i){return f.high[i]&&f.isdrain(i);}); bfs(dl,[&](int i){return (bool)f.low[i];});
  for(int i=0;i<N;i++) if(f.comp[i]>=0) H[f.comp[i]]=std::max(H[f.comp[i]],da[i]);
  for(int i=0;i<N;i++) if(dl[i]) f.mask[i]=2*dl[i]+(da[i]? H[f.comp[i]]-da[i]:0);
  return f;
}
template<class T> double min_gap(const rv::Dem&d){ std::vector<double> v; for(size_t i=0;i<d.z.size();i++) if(!d.nd[i]) v.push_back(d.z[i]); std::sort(v.begin(),v.end()); double g=1e300; for(size_t i=1;i<v.size();i++) if(v[i]>v[i-1]) g=std::min(g,v[i]-v[i-1]); return g; }
template<class T> bool headroom(const rv::Dem&d,const Flats&f){ double mx=1e-30; int mm=0; for(size_t i=0;i<d.z.size();i++){ if(!d.nd[i]) mx=std::max(mx,std::fabs(d.z[i])); mm=std::max(mm,f.mask[i]); } double ulp=(double)std::nextafter((T)mx,std::numeric_limits<T>::infinity())-(double)(T)mx; return min_gap<T>(d)>4.0*(mm+4)*ulp*2; }
template<class L,class M> bool check_mask(const std::string&nm,const rv::Dem&d,const Flats&f,const L&labels,const M&mask){
  using namespace rv; std::map<int,int> l2c,c2l;
  for(int i=0;i<d.w*d.h;i++){ int l=labels((uint32_t)i),m=mask((uint32_t)i); auto where=[&]{ return fmt("cell (%d,%d) label %d mask %d expected mask %d; ",i%d.w,i/d.w,l,m,f.mask[i])+dump(d); };
    bool dr=f.isdrain(i);
    if(dr!=(l!=0)){ fail(nm+(dr?":drainable-flat-unlabelled":":label-outside-drainable-flat"),where()); return false; }
    if(dr){ auto a=l2c.emplace(l,f.comp[i]).first->second; auto b=c2l.emplace(f.comp[i],l).first->second; if(a!=f.comp[i]||b!=l){ fail(nm+":label-not-one-per-flat",where()); return false; } }
    if(m!=f.mask[i]){ fail(nm+":mask-not-superposed-gradients",where()); return false; } }
  return true;
}
// elevations after alteration
template<class T,class A> void check_altered(const std::string&nm,const rv::Dem&d,const Flats&f,const A&a,T ndv,bool room){
  using namespace rv;
  for(int i=0;i<d.w*d.h;i++){ T g=a((uint32_t)i); int x=i%d.w,y=i/d.w; auto where=[&]{ return fmt("cell (%d,%d) %.17g -> %.17g mask %d; ",x,y,d.z[i],(double)g,f.mask[i])+dump(d); };
    if(d.nd[i]){ if(g!=ndv){ fail(nm+":nodata-altered",where()); return; } continue; }
    if(!f.isdrain(i)){ if((double)g!=d.z[i]){ fail(nm+":altered-outside-flat",where()); return; } continue; }
    if((double)g<d.z[i]){ fail(nm+":lowered",where()); return; }
    if(!std::is_floating_point<T>::value){ if((double)g!=d.z[i]){ fail(nm+":integer-altered",where()); return; } continue; }
    if(d.edge(x,y)){ if((double)g!=d.z[i]){ fail(nm+":edge-altered",where()); return; } continue; }
    if(!room) continue;
    bool lower=false; for(int n=1;n<=8;n++){ int nx=x+DX8[n],ny=y+DY8[n]; int k=ny*d.w+nx; if(d.nd[k]){ lower=true; continue; } T gn=a((uint32_t)k); if(gn<g) lower=true; if(d.z[k]>d.z[i]&&!(gn>g)){ fail(nm+":raised-above-higher-neighbour",where()); return; } }
    if(!lower){ fail(nm+":flat-cell-does-not-drain",where()); return; } 
    double ulp=(double)std::nextafter((T)std::fabs(d.z[i]),std::numeric_limits<T>::infinity())-std::fabs(d.z[i]); if((double)g-d.z[i]>ulp*2*(f.mask[i]+1)){ fail(nm+":raised-too-far",where()); return; } }
}
template<class T> void run_old(rv::Rng&r,const rv::Dem&d,T ndv,const Flats&f,bool filled);
