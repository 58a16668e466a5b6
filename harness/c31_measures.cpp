// C31: surface area, perimeter, bucket fills, direction conversion and cell iteration against direct computation.
#include "gen.hpp"
#include <omp.h>
#include <set>
#include <richdem/common/iterators.hpp>
#include <richdem/misc/misc_methods.hpp>
#include <richdem/misc/conversion.hpp>
using namespace rv; using namespace richdem;
using LD=long double;
static const int TN[]={1,2,3,8};
template<class T> void measures(Rng&r){
  T ndv; int ndm=r.chance(0.3)?0:r.chance(0.5)?1:r.chance(0.9)?2:3; Dem d=make_dem<T>(r,opts().thorough()?80:30,ndm,ndv); const int w=d.w,h=d.h,N=w*h;
  if(!std::numeric_limits<T>::is_integer&&r.chance(0.2)){ double f=std::pow(10.0,r.range(1,9)); for(auto&v:d.z) v=(double)(T)(v*f); d.kind+=" steep"; }
  Array2D<T> dem; to_array(d,ndv,dem); for(int i=0;i<N;i++) if(!d.nd[i]&&dem((uint32_t)i)==ndv){ d.z[i]+=1; dem((uint32_t)i)=(T)d.z[i]; } dem.countDataCells();
  static const double cs[]={1,1,30,0.5,0.0002777,1e5,1e6,3e6}; double lx=cs[r.below(8)],ly=r.chance(0.7)?lx:cs[r.below(8)]; dem.geotransform={100,r.chance(0.1)?-lx:lx,0,200,0,r.chance(0.2)?ly:-ly};
  static const double zs[]={1,1,2,0.3048,0,-1,111120}; double z=zs[r.below(7)];
  std::string what=fmt("cell %gx%g zscale %g ",lx,ly,z)+TypeInfo<T>::name()+fmt(" nodata %g ",(double)ndv)+dump(d);
  LD want=0; int data=0; for(int y=0;y<h;y++)for(int x=0;x<w;x++) if(!d.isnd(x,y)){ data++; auto g=[&](int n)->LD{ int X=x+DX8[n],Y=y+DY8[n]; return (LD)z*(LD)((d.in(X,Y)&&!d.isnd(X,Y))?d.at(X,Y):d.at(x,y))-(LD)z*d.at(x,y); };
    for(int n=1;n<=8;n++){ int m=n%8+1; LD ax=DX8[n]*lx/2,ay=DY8[n]*ly/2,az=g(n)/2,bx=DX8[m]*lx/2,by=DY8[m]*ly/2,bz=g(m)/2; LD cx=ay*bz-az*by,cy=az*bx-ax*bz,cz=ax*by-ay*bx; want+=std::sqrt(cx*cx+cy*cy+cz*cz)/2; } }
  LD planar=(LD)data*lx*ly; double first=0;
  for(int k=0;k<2;k++){ omp_set_num_threads(TN[r.below(4)]); op("dem_surface_area"); double got=dem_surface_area(dem,z); if(k==0) first=got; if(!(std::fabs(got-want)<=1e-9L*want)){ fail("surface-area",fmt("got %.17g want %.17Lg (planar %.17Lg); ",got,want,planar)+what); return; } if(got<planar*(1-1e-12L)){ fail("surface-area:below-planar",fmt("got %.17g planar %.17Lg; ",got,planar)+what); return; } if(std::fabs(got-first)>1e-11*std::fabs(first)){ fail("surface-area:thread-dependent",what); return; } count("areas"); }
  long cells=0,hor=0,ver=0; for(int y=0;y<h;y++)for(int x=0;x<w;x++) if(!d.isnd(x,y)){ bool any=false; for(int n=1;n<=8;n++){ int X=x+DX8[n],Y=y+DY8[n]; bool out=!d.in(X,Y)||d.isnd(X,Y); any|=out; if(out&&DX8[n]==0) hor++; if(out&&DY8[n]==0) ver++; } cells+=any; }
  omp_set_num_threads(TN[r.below(4)]); op("Perimeter:CELL_COUNT"); double pc=Perimeter(dem,PerimType::CELL_COUNT); if(pc!=cells){ fail("perimeter:cell-count",fmt("got %g want %ld; ",pc,cells)+what); return; }
  op("Perimeter:SQUARE_EDGE"); double pe=Perimeter(dem,PerimType::SQUARE_EDGE); double pw=hor*lx+ver*ly; if(std::fabs(pe-pw)>1e-12*pw){ fail("perimeter:square-edge",fmt("got %.17g want %.17g; ",pe,pw)+what); return; } count("perimeters",2);
  for(int i=0;i<N;i++) if(dem((uint32_t)i)!=(d.nd[i]?ndv:(T)d.z[i])){ fail("measures:dem-altered",what); return; }
  { op("iterate"); std::vector<int> seen(N,0); long last=-1; bool ordered=true; iterate_flat<T>(dem,[&](Array2D<T>&a,typename Array2D<T>::i_t i){ if(&a!=&dem||(long)i!=last+1) ordered=false; last=i; if(i<(uint32_t)N) seen[i]++; }); iterate_2d<T>(dem,[&](int x,int y){ if(d.in(x,y)) seen[y*w+x]+=10; }); bool all=ordered; for(int v:seen) all&=v==11; if(!all){ fail("iterate:cells-not-visited-once",what); return; } }
  if(r.chance(0.03)){ Array2D<T> ng(dem); ng.geotransform.clear(); for(int k=0;k<2;k++){ bool t=false; op("no-geotransform"); try{ if(k) dem_surface_area(ng,z); else Perimeter(ng,PerimType::SQUARE_EDGE); }catch(const std::exception&){ t=true; } check(t,k?"surface-area:no-geotransform-accepted":"perimeter:no-geotransform-accepted",what); } }
  if(data>1){ Hash hh; hh.add(hash(d)); hh.addd(lx); hh.addd(z); nontrivial(hh.h); if(want_sample()) sample(fmt("area %.6Lg perimeter %ld/%g ",want,cells,pw)+what); }
}
template<class T> T nanv(){ if constexpr(std::numeric_limits<T>::has_quiet_NaN) return std::numeric_limits<T>::quiet_NaN(); else return 0; }
template<class T> bool same(T a,T b){ return a==b||(a!=a&&b!=b); }
template<Topology topo,class T,class U> void bucket(Rng&r){
  const bool d4=topo==Topology::D4; Dem d; int md=opts().thorough()?90:40; shape(r,d.w,d.h,md); surface(r,d,r.range(1,4),true); const int w=d.w,h=d.h,N=w*h;
  Array2D<T> ck(w,h,(T)0); Array2D<U> st0(w,h,(U)0); for(int i=0;i<N;i++){ ck((uint32_t)i)=(T)d.z[i]; if(r.chance(0.02)) ck((uint32_t)i)=nanv<T>(); }
  T cv=r.chance(0.9)?ck((uint32_t)r.below(N)):(T)77; U sv=r.chance(0.25)&&std::numeric_limits<U>::has_quiet_NaN?nanv<U>():(U)r.range(0,5); double pre=r.chance(0.5)?0:r.unit()*0.4; for(int i=0;i<N;i++) st0((uint32_t)i)=r.chance(pre)?sv:(U)r.range(0,6);
  bool alias=std::is_same<T,U>::value&&r.chance(0.3); if constexpr(std::is_same<T,U>::value) if(alias) st0=ck;
  bool edges=r.chance(0.4); std::vector<size_t> seeds; if(!edges){ int n=r.chance(0.1)?0:r.range(1,6); for(int i=0;i<n;i++){ size_t s=r.below(N); seeds.push_back(s); if(r.chance(0.3)) seeds.push_back(s); } } else for(int i=0;i<N;i++) if(d.edge(i%w,i/w)) seeds.push_back(i);
  std::vector<char> todo(N),reach(N,0); for(int i=0;i<N;i++) todo[i]=ck((uint32_t)i)==cv&&!same(st0((uint32_t)i),sv); std::vector<int> q; for(size_t s:seeds) if(todo[s]&&!reach[s]){ reach[s]=1; q.push_back(s); } for(size_t k=0;k<q.size();k++) for(int n=1;n<=8;n++){ if(d4&&n%2==0) continue; int x=q[k]%w+DX8[n],y=q[k]/w+DY8[n]; if(d.in(x,y)&&todo[y*w+x]&&!reach[y*w+x]){ reach[y*w+x]=1; q.push_back(y*w+x); } }
  std::string nm=fmt("BucketFill%s<%s>",edges?"FromEdges":"",topo_name(d4)); auto what=[&]{ std::string s=nm+" "+TypeInfo<T>::name()+"->"+TypeInfo<U>::name()+fmt(" check %g set %g%s seeds",(double)cv,(double)sv,alias?" same raster":""); if(!edges) for(size_t x:seeds) s+=fmt(" %zu",x); return s+" "+dumpA(ck)+" onto "+dumpA(st0); };
  std::string ws=what(); Array2D<U> out(st0); op(nm); Array2D<T> ck0(ck); std::vector<size_t> sd(seeds);
  if constexpr(std::is_same<T,U>::value){ if(alias){ if(edges) BucketFillFromEdges<topo>(out,out,cv,sv); else BucketFill<topo>(out,out,cv,sv,sd); } }
  if(!alias){ if(edges) BucketFillFromEdges<topo>(ck,out,cv,sv); else BucketFill<topo>(ck,out,cv,sv,sd); }
  if(out.width()!=w||out.height()!=h){ fail(nm+":size",ws); return; }
  for(int i=0;i<N;i++){ U want=reach[i]?sv:st0((uint32_t)i); if(!same(out((uint32_t)i),want)){ fail(nm+(reach[i]?":cell-missed":":cell-touched"),fmt("cell (%d,%d) is %g; ",i%w,i/w,(double)out((uint32_t)i))+ws); return; } if(!alias&&!same(ck((uint32_t)i),ck0((uint32_t)i))){ fail(nm+":check-raster-altered",ws); return; } }
  count("filled_cells",q.size()); count("bucket_fills"); if(q.size()>1){ Hash hh; hh.add(hash(d)); hh.addd((double)cv); hh.addd((double)sv); hh.add(seeds.size()); for(int i=0;i<N;i++) hh.addd((double)st0((uint32_t)i)); nontrivial(hh.h); }
  if(r.chance(0.05)){ Array2D<U> o2(w+1,h,(U)0); bool t=false; op(nm+":mismatch"); try{ if(edges) BucketFillFromEdges<topo>(ck,o2,cv,sv); else BucketFill<topo>(ck,o2,cv,sv,sd); }catch(const std::runtime_error&){ t=true; } check(t,nm+":size-mismatch-accepted",ws); Array2D<T> e1(0,r.range(0,3)); Array2D<U> e2(e1.width(),e1.height()); op(nm+":empty"); BucketFillFromEdges<topo>(e1,e2,cv,sv); }
}
static void arc(Rng&r){ op("convert_arc_flowdirs_to_richdem_d8"); int w=r.range(1,20),h=r.range(1,20); static const int a[]={0,1,2,4,8,16,32,64,128}, dx[]={0,1,1,0,-1,-1,-1,0,1},dy[]={0,0,1,1,1,0,-1,-1,-1}; Array2D<d8_flowdir_t> in(w,h,0),out(w,h,77); std::vector<int> k(w*h); for(int i=0;i<w*h;i++){ k[i]=r.below(9); in((uint32_t)i)=a[k[i]]; }
  convert_arc_flowdirs_to_richdem_d8(in,out); for(int i=0;i<w*h;i++){ int o=out((uint32_t)i); if(o>8||DX8[o]!=dx[k[i]]||DY8[o]!=dy[k[i]]||in((uint32_t)i)!=a[k[i]]){ fail("arc-directions",fmt("code %d became %d",a[k[i]],o)); return; } } count("directions",w*h);
  std::set<int> ok(a,a+9); int bad; do bad=r.range(1,255); while(ok.count(bad)); in((uint32_t)r.below(w*h))=bad; bool t=false; try{ convert_arc_flowdirs_to_richdem_d8(in,out); }catch(const std::runtime_error&){ t=true; } check(t,"arc-directions:unknown-accepted",fmt("code %d",bad)); }
template<class T,class U> void bk(Rng&r){ if(r.chance(0.5)) bucket<Topology::D8,T,U>(r); else bucket<Topology::D4,T,U>(r); }
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t){ switch(r.range(0,4)){ case 0: measures<float>(r); break; case 1: measures<double>(r); break; case 2: measures<uint8_t>(r); break; case 3: measures<int16_t>(r); break; default: measures<int32_t>(r); }
  for(int i=0;i<2;i++) switch(r.range(0,4)){ case 0: bk<int,int>(r); break; case 1: bk<float,float>(r); break; case 2: bk<uint8_t,double>(r); break; case 3: bk<double,uint8_t>(r); break; default: bk<int16_t,float>(r); } arc(r); }); }
