// Terrain and NoData generators plus independent reference computations.
#pragma once
#include "rv.hpp"
#include <cmath>
#include <queue>
#include <limits>
#include <algorithm>
#include <richdem/common/Array2D.hpp>

namespace rv {

struct Dem {
  int w=0,h=0; std::vector<double> z; std::vector<char> nd; std::string kind;
  double at(int x,int y)const{return z[(size_t)y*w+x];}
  double &at(int x,int y){return z[(size_t)y*w+x];}
  bool isnd(int x,int y)const{return nd[(size_t)y*w+x];}
  bool in(int x,int y)const{return x>=0&&y>=0&&x<w&&y<h;}
  bool edge(int x,int y)const{return x==0||y==0||x==w-1||y==h-1;}
};

static const int DX8[9]={0,-1,-1, 0, 1, 1, 1, 0,-1};
static const int DY8[9]={0, 0,-1,-1,-1, 0, 1, 1, 1};

inline std::string dump(const std::vector<double>&z,int w,int h,const std::vector<char>*nd=nullptr){
  std::ostringstream o; o.precision(12); o<<w<<"x"<<h<<":";
  for(int y=0;y<h&&y<24;y++){ o<<"["; for(int x=0;x<w&&x<24;x++){ if(x)o<<" "; if(nd&&(*nd)[(size_t)y*w+x]) o<<"N"; else o<<z[(size_t)y*w+x]; } o<<"]"; }
  return o.str();
}
inline std::string dump(const Dem&d){ return d.kind+" "+dump(d.z,d.w,d.h,&d.nd); }
template<class A> std::string dumpA(const A&a){
  std::ostringstream o; o.precision(12); o<<a.width()<<"x"<<a.height()<<":";
  for(int y=0;y<a.height()&&y<24;y++){ o<<"["; for(int x=0;x<a.width()&&x<24;x++){ if(x)o<<" "; o<<+a(x,y);} o<<"]"; }
  return o.str();
}

// ---- shapes ----
inline void shape(Rng&r,int &w,int &h,int maxdim=24){
  int k=r.range(0,19);
  if(k==0){ w=1; h=r.range(1,maxdim);} else if(k==1){ h=1; w=r.range(1,maxdim);} 
  else if(k==2){ w=2; h=r.range(1,maxdim);} else if(k==3){ w=r.range(1,maxdim); h=2;}
  else if(k<9){ w=r.range(3,7); h=r.range(3,7);} 
  else if(k<16){ w=r.range(3,maxdim/2+2); h=r.range(3,maxdim/2+2);} 
  else { w=r.range(3,maxdim); h=r.range(3,maxdim);} 
}

// Raw surfaces take values in [0,top]; integer-valued when integer==true
inline void surface(Rng&r,Dem&d,int top,bool integer){
  const int w=d.w,h=d.h; d.z.assign((size_t)w*h,0); d.nd.assign((size_t)w*h,0);
  int k=r.range(0,15);
  auto clampv=[&](double v){ v=std::max(0.0,std::min((double)top,v)); return integer?std::floor(v):v; };
  auto setall=[&](auto f){ for(int y=0;y<h;y++)for(int x=0;x<w;x++) d.at(x,y)=clampv(f(x,y)); };
  static const int ks[]={1,2,3,5,10,100};
  switch(k){
    case 0: case 1: case 2: { int m=std::min(top,ks[r.below(6)]); d.kind="rand"+std::to_string(m); setall([&](int,int){return integer? (double)r.range(0,m): r.chance(0.5)? (double)r.range(0,m) : r.unit()*m; }); break; }
    case 3: { d.kind="sines"; double a=r.unit()*2,b=r.unit()*2,p=r.unit()*6,q=r.unit()*6; double am=top*(0.1+0.4*r.unit()); setall([&](int x,int y){return top/2.0+am*0.5*(std::sin(a*x+p)+std::cos(b*y+q));}); break; }
    case 4: { d.kind="bowls"; int nb=r.range(1,6); std::vector<std::array<double,4>> bs; for(int i=0;i<nb;i++) bs.push_back({(double)r.range(0,w-1),(double)r.range(0,h-1),r.unit()*5+1,r.unit()*3+0.3});
              bool cone=r.chance(0.3); setall([&](int x,int y){ double v=cone?0:top*0.7; for(auto&b:bs){ double dd=std::hypot(x-b[0],y-b[1]); double c=(b[2]*b[3]-dd*b[3]); if(c>0) v+= cone? c*3 : -c*3; } return v;}); break; }
    case 5: { d.kind="nested"; int nb=r.range(1,10); int base=std::min(top,20); setall([&](int,int){return base;}); for(int i=0;i<nb;i++){ int x0=r.range(0,w-1),y0=r.range(0,h-1),x1=std::min(w-1,x0+r.range(0,w/2)),y1=std::min(h-1,y0+r.range(0,h/2)); int dl=r.range(-5,3); for(int y=y0;y<=y1;y++)for(int x=x0;x<=x1;x++) d.at(x,y)=clampv(d.at(x,y)+dl);} break; }
    case 6: { d.kind="maze"; int hi=std::min(top,r.range(3,30)); setall([&](int x,int y){ bool wall=((x&1)&&(y&1))||(((x&1)||(y&1))&&r.chance(0.45)); return wall? hi : r.range(0,std::min(2,top)); }); break; }
    case 7: { d.kind="spiral"; int hi=std::min(top,40); setall([&](int,int){return hi;}); int x=0,y=0,dx=1,dy=0; std::vector<char> vis((size_t)w*h,0); int steps=w*h; double v=hi; 
              auto blocked=[&](int ax,int ay){ int bx=ax+dx,by=ay+dy; if(ax<0||ay<0||ax>=w||ay>=h) return true; if(vis[(size_t)ay*w+ax]) return true; if(bx>=0&&by>=0&&bx<w&&by<h&&vis[(size_t)by*w+bx]) return true; return false; };
              int turns=0; while(steps-->0&&turns<2){ vis[(size_t)y*w+x]=1; d.at(x,y)=clampv(std::max(0.0,v-hi/2.0)+ (r.chance(0.1)?-1:0)); v-=r.chance(0.3); int nx=x+dx,ny=y+dy; if(blocked(nx,ny)){ int t=dx; dx=-dy; dy=t; turns++; } else turns=0; nx=x+dx; ny=y+dy; if(turns==0||!blocked(nx,ny)){ x=nx; y=ny; } if(x<0||y<0||x>=w||y>=h) break; } break; }
    case 8: { d.kind="checker"; int a=r.range(0,std::min(top,9)),b=r.range(0,std::min(top,9)); int p=r.range(1,3); setall([&](int x,int y){return ((x/p+y/p)&1)?a:b;}); break; }
    case 9: { d.kind="terrace"; double gx=r.unit()*2-1,gy=r.unit()*2-1; int st=r.range(2,6); double off=(gx<0?-gx*w:0)+(gy<0?-gy*h:0); setall([&](int x,int y){ return std::floor((gx*x+gy*y+off)/st*2)*1.0; }); for(int i=0;i<w*h/12;i++) d.z[r.below(d.z.size())]=clampv(r.range(0,std::min(top,10))); break; }
    case 10:{ d.kind="ramp"; double gx=r.range(-2,2),gy=r.range(-2,2); double off=(gx<0?-gx*w:0)+(gy<0?-gy*h:0); double ns=r.chance(0.5)?0:r.unit()*3; setall([&](int x,int y){ return gx*x+gy*y+off+ns*r.unit(); }); break; }
    case 11:{ d.kind="const"; double c=r.range(0,std::min(top,50)); setall([&](int,int){return c;}); if(r.chance(0.5)) for(int i=0;i<3;i++) d.z[r.below(d.z.size())]=clampv(c+r.range(-2,2)); break; }
    case 12:{ d.kind="perm"; std::vector<int> p((size_t)w*h); for(size_t i=0;i<p.size();i++)p[i]=(int)i; for(size_t i=p.size();i>1;i--) std::swap(p[i-1],p[r.below(i)]); if((int)p.size()-1<=top) for(size_t i=0;i<p.size();i++) d.z[i]=p[i]; else for(size_t i=0;i<p.size();i++) d.z[i]=clampv(p[i]%(top+1)); break; }
    case 13:{ d.kind="fractal"; setall([&](int,int){return 0;}); for(int s=16;s>=1;s/=2){ int gw=w/s+2,gh=h/s+2; std::vector<double> g((size_t)gw*gh); for(auto&v:g) v=r.unit()*s; for(int y=0;y<h;y++)for(int x=0;x<w;x++){ double fx=(double)x/s,fy=(double)y/s; int ix=fx,iy=fy; fx-=ix; fy-=iy; double v=(g[iy*gw+ix]*(1-fx)+g[iy*gw+ix+1]*fx)*(1-fy)+(g[(iy+1)*gw+ix]*(1-fx)+g[(iy+1)*gw+ix+1]*fx)*fy; d.at(x,y)+=v; } } for(auto&v:d.z) v=clampv(v*std::min(top,60)/30.0); break; }
    case 14:{ d.kind="plateaus"; int n=r.range(2,9); std::vector<std::array<int,3>> s; for(int i=0;i<n;i++) s.push_back({r.range(0,w-1),r.range(0,h-1),r.range(0,std::min(top,8))}); bool cheb=r.chance(0.5); setall([&](int x,int y){ int best=1<<30,v=0; for(auto&q:s){ int dd=cheb?std::max(std::abs(x-q[0]),std::abs(y-q[1])):std::abs(x-q[0])+std::abs(y-q[1]); if(dd<best){best=dd;v=q[2];} } return v; }); break; }
    default:{ d.kind="moat"; setall([&](int x,int y){ int e=std::min(std::min(x,y),std::min(w-1-x,h-1-y)); return ((e*7+3)%5)+(r.chance(0.1)?-1:0)+2; }); break; }
  }
}

// mode 0: none. 1: regions grown 4-connectedly from the grid edge. 2: arbitrary cells. 3: all or nearly all.
inline void nodata(Rng&r,Dem&d,int mode){
  const int w=d.w,h=d.h; size_t N=d.z.size();
  if(mode==0) return;
  if(mode==1){
    int seeds=r.range(1,4); size_t budget=1+r.below(std::max<size_t>(1,N/2));
    std::vector<std::pair<int,int>> f;
    for(int i=0;i<seeds;i++){ int x,y; if(r.chance(0.5)){ x=r.chance(0.5)?0:w-1; y=r.range(0,h-1);} else { y=r.chance(0.5)?0:h-1; x=r.range(0,w-1);} f.push_back({x,y}); }
    bool bfs=r.chance(0.5);
    while(budget>0&&!f.empty()){ size_t i= bfs? 0 : r.below(f.size()); auto c=f[i]; f[i]=f.back(); f.pop_back(); size_t ci=(size_t)c.second*w+c.first; if(d.nd[ci]) continue; d.nd[ci]=1; budget--; const int ox[4]={1,-1,0,0},oy[4]={0,0,1,-1}; for(int k=0;k<4;k++){ int nx=c.first+ox[k],ny=c.second+oy[k]; if(d.in(nx,ny)&&!d.nd[(size_t)ny*w+nx]&&r.chance(0.7)) f.push_back({nx,ny}); } }
  } else if(mode==2){ double p=r.unit()*r.unit()*0.6; for(size_t i=0;i<N;i++) if(r.chance(p)) d.nd[i]=1; }
  else { for(size_t i=0;i<N;i++) d.nd[i]=1; int k=r.range(0,3); for(int i=0;i<k;i++) d.nd[r.below(N)]=0; }
}

template<class T> struct TypeInfo;
#define RV_TI(T,N) template<> struct TypeInfo<T>{ static const char*name(){return N;} };
RV_TI(uint8_t,"u8") RV_TI(int8_t,"i8") RV_TI(uint16_t,"u16") RV_TI(int16_t,"i16") RV_TI(uint32_t,"u32") RV_TI(int32_t,"i32") RV_TI(uint64_t,"u64") RV_TI(int64_t,"i64") RV_TI(float,"f32") RV_TI(double,"f64")

// Builds a DEM whose values are exactly representable in T; ndval is below every data value.
template<class T> Dem make_dem(Rng&r,int maxdim,int ndmode,T &ndval){
  Dem d; shape(r,d.w,d.h,maxdim);
  constexpr bool fl=std::is_floating_point<T>::value;
  int top= std::is_same<T,uint8_t>::value?250 : std::is_same<T,int8_t>::value? 110 : 1000;
  surface(r,d,top,!fl||r.chance(0.4));
  nodata(r,d,ndmode);
  double scale=1,off=0;
  if(std::is_same<T,uint8_t>::value||std::is_same<T,int8_t>::value||std::is_unsigned<T>::value){ off=1; ndval=0; if(std::is_same<T,int8_t>::value){ off=r.chance(0.5)?0:-50; ndval=-128; } 
    if(std::is_unsigned<T>::value && sizeof(T)>=4 && r.chance(0.15)){ off=(double)std::numeric_limits<T>::max()/2; off=std::floor(off); if(sizeof(T)==8) off=4503599627370496.0; } }
  else {
    int c=r.range(0,5);
    if(c==0){ off=-500; } else if(c==1){ off= -r.range(0,30); } else if(c==2&&fl){ scale=0.1; off=-3.7; } else if(c==3&&fl){ scale=1e-3; } else if(c==4&&sizeof(T)>=4){ off= 1000000; scale=fl?1:r.range(1,3); }
    ndval=(T)-9999; if(fl&&r.chance(0.2)) ndval=std::numeric_limits<T>::lowest(); else if(r.chance(0.1)) ndval=std::numeric_limits<T>::lowest();
  }
  for(auto&v:d.z){ T t=(T)(v*scale+off); v=(double)t; }
  return d;
}
template<class T> void to_array(const Dem&d,T ndval,richdem::Array2D<T>&a){
  a.resize(d.w,d.h,(T)0); a.setNoData(ndval);
  for(int y=0;y<d.h;y++)for(int x=0;x<d.w;x++) a(x,y)= d.isnd(x,y)? ndval : (T)d.at(x,y);
}
inline uint64_t hash(const Dem&d){ Hash h; h.add(d.w); h.add(d.h); for(double v:d.z)h.addd(v); for(char c:d.nd)h.add(c); return h.h; }

// Independent minimax fill: F(c)=min over paths to an outlet of the max elevation on the path. NoData cells count as
// -infinity (they reach the edge in the workloads that use this). Computed by raising a water level and merging
// connected sets (union-find), so it shares no structure with the library's queue-based algorithms.
inline std::vector<double> ref_fill(const Dem&d,bool d4){
  const int N=d.w*d.h; const double NINF=-std::numeric_limits<double>::infinity();
  std::vector<double> zz(N),F(N,0); std::vector<int> ord(N),par(N+1),nextm(N),tail(N),headm(N); std::vector<char> in(N,0),done(N,0);
  for(int i=0;i<N;i++){ zz[i]=d.nd[i]?NINF:d.z[i]; ord[i]=i; nextm[i]=-1; tail[i]=headm[i]=i; }
  for(int i=0;i<=N;i++) par[i]=i;
  std::stable_sort(ord.begin(),ord.end(),[&](int a,int b){return zz[a]<zz[b];});
  auto find=[&](int a){ while(par[a]!=a){ par[a]=par[par[a]]; a=par[a]; } return a; };
  const int OUT=N;
  for(int s=0;s<N;s++){ int c=ord[s]; double lvl=zz[c]; in[c]=1; int cx=c%d.w,cy=c/d.w;
    auto join=[&](int b){ int ra=find(c),rb=find(b); if(ra==rb) return; int ro=find(OUT);
      if(ra==ro||rb==ro){ int rs=ra==ro?rb:ra; for(int m=headm[rs];m>=0;m=nextm[m]) if(!done[m]){ done[m]=1; F[m]=lvl; } par[rs]=ro; }
      else { par[rb]=ra; nextm[tail[ra]]=headm[rb]; tail[ra]=tail[rb]; } };
    for(int n=1;n<=8;n++){ if(d4&&(n%2==0)) continue; int x=cx+DX8[n],y=cy+DY8[n]; if(d.in(x,y)&&in[y*d.w+x]) join(y*d.w+x); }
    if(d.edge(cx,cy)) join(OUT);
  }
  return F;
}
inline const char* topo_name(bool d4){ return d4?"D4":"D8"; }
}
