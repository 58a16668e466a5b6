// C19: tiled rasters in lock step with one in-memory matrix, over random layouts, orientations, cache sizes and access histories.
#include "rv.hpp"
#include <gdal.h>
#include <cpl_error.h>
#include <richdem/tiled/A2Array2D.hpp>
#include <fstream>
#include <cmath>
#include <limits>
using namespace rv; using namespace richdem;
template<class T> struct TN; template<> struct TN<uint8_t>{ static const char*n(){return "u8";} }; template<> struct TN<int16_t>{ static const char*n(){return "i16";} }; template<> struct TN<int32_t>{ static const char*n(){return "i32";} }; template<> struct TN<float>{ static const char*n(){return "f32";} }; template<> struct TN<double>{ static const char*n(){return "f64";} };
struct Geo { int tw,th,W,H; bool flipH=false,flipV=false; std::vector<char> null; std::vector<char> revx,revy,hasgt; std::vector<std::string> name; double gx,gy,cx,cy; std::vector<double> G(int) const { return {gx,flipH?-cx:cx,0,gy,0,flipV?cy:-cy}; }
  bool isnull(int tx,int ty) const { return null[ty*W+tx]; } int w() const { return tw*W; } int h() const { return th*H; }
  // geotransform in tile's own file
  std::vector<double> tilegt(int t) const { auto g=G(0); int tx=t%W,ty=t/W; double x0=g[0]+tx*tw*g[1],y0=g[3]+ty*th*g[5]; std::vector<double> o={x0,g[1],0,y0,0,g[5]}; if(revx[t]){ o[0]=x0+tw*g[1]; o[1]=-g[1]; } if(revy[t]){ o[3]=y0+th*g[5]; o[5]=-g[5]; } return o; } };
template<class T> struct Mat { std::vector<T> v; std::vector<T> nd; /*per tile*/ };
template<class T> T val(Rng&r){ switch(r.range(0,9)){ case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::lowest(); case 2: if constexpr(!std::numeric_limits<T>::is_integer) return (T)(r.unit()*1e3); return (T)r.next(); default: return (T)r.range(0,30); } }
template<class T> void write_tile(const std::string&f,const Geo&g,int t,const Mat<T>&m){
  GDALDatasetH d=GDALCreate(GDALGetDriverByName("GTiff"),f.c_str(),g.tw,g.th,1,NativeTypeToGDAL<T>(),nullptr); if(!d){ exit(3); } if(g.hasgt[t]){ auto gt=g.tilegt(t); GDALSetGeoTransform(d,gt.data()); }
  GDALRasterBandH b=GDALGetRasterBand(d,1); GDALSetRasterNoDataValue(b,(double)m.nd[t]); std::vector<T> o; int tx=t%g.W,ty=t/g.W; for(int y=0;y<g.th;y++)for(int x=0;x<g.tw;x++){ int X=g.revx[t]?g.tw-1-x:x,Y=g.revy[t]?g.th-1-y:y; o.push_back(m.v[(size_t)(ty*g.th+Y)*g.w()+tx*g.tw+X]); }
  if(GDALRasterIO(b,GF_Write,0,0,g.tw,g.th,o.data(),g.tw,g.th,NativeTypeToGDAL<T>(),0,0)!=CE_None) exit(3); GDALClose(d); }
template<class T> bool check_file(const std::string&f,const Geo&g,int t,const Mat<T>&m,const std::string&nm,const std::string&ctx){ // a saved tile, in its own orientation
  GDALDatasetH d=GDALOpen(f.c_str(),GA_ReadOnly); if(!d){ fail(nm+":tile-missing",f+" "+ctx); return false; } std::string bad; GDALRasterBandH b=GDALGetRasterBand(d,1);
  if(GDALGetRasterXSize(d)!=g.tw||GDALGetRasterYSize(d)!=g.th) bad="tile-size"; else { if(GDALGetRasterDataType(b)!=NativeTypeToGDAL<T>()) bad="tile-type"; std::vector<T> o((size_t)g.tw*g.th); if(GDALRasterIO(b,GF_Read,0,0,g.tw,g.th,o.data(),g.tw,g.th,NativeTypeToGDAL<T>(),0,0)!=CE_None) bad="tile-unreadable"; int tx=t%g.W,ty=t/g.W; for(int y=0;y<g.th&&bad.empty();y++)for(int x=0;x<g.tw;x++){ int X=g.revx[t]?g.tw-1-x:x,Y=g.revy[t]?g.th-1-y:y; T e=m.v[(size_t)(ty*g.th+Y)*g.w()+tx*g.tw+X]; if(o[(size_t)y*g.tw+x]!=e){ bad=fmt("tile-values"); break; } count("saved_cells"); }
    int has=0; double nd=GDALGetRasterNoDataValue(b,&has); if(!has||nd!=(double)m.nd[t]) bad="tile-nodata"; double q[6]; if(g.hasgt[t]){ auto e=g.tilegt(t); if(GDALGetGeoTransform(d,q)!=CE_None) bad="tile-geotransform"; else for(int i=0;i<6;i++) if(std::fabs(q[i]-e[i])>1e-9*(1+std::fabs(e[i]))) bad="tile-geotransform"; } }
  GDALClose(d); if(!bad.empty()){ fail(nm+":"+bad,f+" "+ctx); return false; } return true; }
template<class T> struct Sys { // a tiled raster and its model
  A2Array2D<T>*a; Geo g; Mat<T> m; bool writable; std::string nm,ctx; int cache; std::set<int> touched; std::set<std::pair<T,T>> q; int maxres;
  void touch(int tx,int ty){ if(!g.isnull(tx,ty)) touched.insert(ty*g.W+tx); }
  T& at(int x,int y){ return m.v[(size_t)y*g.w()+x]; }
  void f(const std::string&k,const std::string&x=""){ fail(nm+":"+k,x+" "+ctx); }
  void query(){ if(a->width()!=g.w()||a->height()!=g.h()) f("size"); if(a->widthInTiles()!=g.W||a->heightInTiles()!=g.H) f("tiles"); int nn=0; for(char c:g.null) nn+=!c; if(a->notNullTiles()!=nn) f("notNullTiles",fmt("%d expected %d",a->notNullTiles(),nn)); if(a->stdTileWidth()!=g.tw||a->stdTileHeight()!=g.th) f("std-tile-size"); if(a->isReadonly()==writable) f("isReadonly"); if(a->myGDALType()!=NativeTypeToGDAL<T>()) f("type");
    if((cache<0||cache>=nn)&&a->getEvictions()!=0) f("evictions-though-all-fit",fmt("%d",a->getEvictions())); if(cache>0&&(int)touched.size()-a->getEvictions()>cache) f("more-tiles-in-memory-than-asked",fmt("%zu touched, %d evicted",touched.size(),a->getEvictions())); }
  void step(Rng&r){
    int x,y; if(r.chance(0.5)){ x=r.below(g.w()); y=r.below(g.h()); } else { int t=last.empty()||r.chance(0.3)?(int)r.below(g.W*g.H):last[r.below(last.size())]; last.push_back(t); if(last.size()>3) last.erase(last.begin()); x=(t%g.W)*g.tw+r.below(g.tw); y=(t/g.W)*g.th+r.below(g.th); }
    int tx=x/g.tw,ty=y/g.th,px=x%g.tw,py=y%g.th; bool nul=g.isnull(tx,ty); int o=r.range(0,99);
    if(o<40||(!writable&&o<70)){ op(nm+":read"); bool quad=r.chance(0.5); T v=quad?(*a)(tx,ty,px,py):(*a)(x,y); touch(tx,ty); if(!nul){ if(!(v==at(x,y))) f(quad?"read-quad":"read",fmt("(%d,%d) is %.17g expected %.17g",x,y,(double)v,(double)at(x,y))); } else { nullv(v,x,y); count("missing_reads"); } count("reads"); }
    else if(o<70){ op(nm+":write"); T v=val<T>(r); if(r.chance(0.5)) (*a)(tx,ty,px,py)=v; else (*a)(x,y)=v; touch(tx,ty); if(!nul) at(x,y)=v; count("writes"); if(r.chance(0.3)){ T z=(*a)(x,y); if(!nul){ if(!(z==v)) f("read-after-write"); } else nullv(z,x,y); } }
    else if(o<82){ op(nm+":isNoData"); bool q=r.chance(0.5)||nul?a->isNoData(x,y):a->isNoData(tx,ty,px,py); touch(tx,ty); bool e=nul||at(x,y)==m.nd[ty*g.W+tx]; if(q!=e) f("isNoData",fmt("(%d,%d) is %d",x,y,(int)q)); count("nodata_queries"); }
    else if(o<88){ int ax=r.range(-2,g.w()+1),ay=r.range(-2,g.h()+1); bool in=ax>=0&&ay>=0&&ax<g.w()&&ay<g.h(); if(a->in_grid(ax,ay)!=in) f("in_grid",fmt("%d,%d",ax,ay)); if(in){ bool e=ax==0||ay==0||ax==g.w()-1||ay==g.h()-1; if(a->isEdgeCell(ax,ay)!=e) f("isEdgeCell",fmt("%d,%d",ax,ay)); if(a->isInteriorCell(ax,ay)==e) f("isInteriorCell",fmt("%d,%d",ax,ay)); }
      int32_t a1,a2,a3,a4; a->makeQuadIndex(x,y,a1,a2,a3,a4); if(a1!=tx||a2!=ty||a3!=px||a4!=py) f("makeQuadIndex"); if(a->isNullTile(tx,ty)!=nul) f("isNullTile"); }
    else if(o<90){ op(nm+":loadTile"); a->loadTile(tx,ty); touch(tx,ty); if(!nul&&(a->tileWidth(tx,ty)!=g.tw||a->tileHeight(tx,ty)!=g.th)) f("tile-size"); }
    else if(o<92&&writable){ op(nm+":setNoData"); T v=r.chance(0.5)?(T)r.range(0,30):val<T>(r); a->setNoData(v); for(auto&n:m.nd) n=v; count("setNoData"); }
    else if(o<93&&writable&&r.chance(0.4)){ op(nm+":setAll"); T v=val<T>(r); a->setAll(v); std::fill(m.v.begin(),m.v.end(),v); count("setAll"); }
    else query(); }
  std::map<int,T> seen; std::vector<int> last;
  void nullv(T v,int x,int y){ int t=(y/g.th)*g.W+x/g.tw; auto it=seen.find(t); if(it==seen.end()) seen[t]=v; else if(!(it->second==v)) f("missing-tile-holds-written-value",fmt("(%d,%d)",x,y)); }
  void sweep(Rng&r){ op(nm+":sweep"); int mode=r.range(0,2); std::vector<int> o(g.w()*g.h()); for(size_t i=0;i<o.size();i++) o[i]=mode==1?(i%g.h())*g.w()+i/g.h():i; if(mode==2) for(size_t i=o.size();i-->1;) std::swap(o[i],o[r.below(i+1)]); for(int c:o){ int x=c%g.w(),y=c/g.w(); touch(x/g.tw,y/g.th); T v=(*a)(x,y); if(g.isnull(x/g.tw,y/g.th)){ nullv(v,x,y); if(!a->isNoData(x,y)) f("missing-tile-has-data"); continue; } if(!(v==at(x,y))){ f("sweep",fmt("(%d,%d) is %.17g expected %.17g",x,y,(double)v,(double)at(x,y))); return; } if(a->isNoData(x,y)!=(v==m.nd[(y/g.th)*g.W+x/g.tw])){ f("sweep-nodata",fmt("(%d,%d)",x,y)); return; } count("swept"); } query(); }
  void save(Rng&r,const std::string&pre){ op(nm+":saveGDAL"); std::string tmpl=pre+"%f.tif"; a->saveGDAL(tmpl); for(int t=0;t<g.W*g.H;t++) if(!g.null[t]) touched.insert(t); bool ok=true; for(int t=0;t<g.W*g.H&&ok;t++) if(!g.null[t]) ok=check_file(pre+g.name[t]+".tif",g,t,m,nm+":saveGDAL",ctx); count("saves");
    if(ok){ op(nm+":reload-layout"); try { A2Array2D<T> b(pre+"layout.layout",r.range(1,3)); b.flipH=g.flipH; b.flipV=g.flipV; Sys<T> s{&b,g,m,false,nm+":saved",ctx,-1}; s.cache=99; if(b.widthInTiles()!=g.W||b.heightInTiles()!=g.H) f("saveGDAL:layout-shape"); else { bool same=true; for(int t=0;t<g.W*g.H;t++) if(b.isNullTile(t%g.W,t/g.W)!=(bool)g.null[t]) same=false; if(!same) f("saveGDAL:layout-tiles"); else { s.cache=0; s.sweep(r); } } } catch(const std::exception&e){ f("saveGDAL:layout-unusable",e.what()); } }
    sweep(r); for(int t=0;t<g.W*g.H;t++) ::unlink((pre+g.name[t]+".tif").c_str()); ::unlink((pre+"layout.layout").c_str()); }
  void unified(Rng&r,const std::string&f1){ bool mixed=false,first=true,gts=true; T nd{}; for(int t=0;t<g.W*g.H;t++) if(!g.null[t]){ if(first){ nd=m.nd[t]; first=false; } else if(m.nd[t]!=nd) mixed=true; if(!g.hasgt[t]) gts=false; }
    op(nm+":saveUnifiedGDAL"); bool t=false; std::string w; try{ a->saveUnifiedGDAL(f1); }catch(const std::exception&e){ t=true; w=e.what(); } ::sync; if(mixed){ if(!t) f("unified:mixed-nodata-accepted"); ::unlink(f1.c_str()); return; } if(t){ f("unified:refused",w); return; } for(int q=0;q<g.W*g.H;q++) if(!g.null[q]) touched.insert(q);
    GDALDatasetH d=GDALOpen(f1.c_str(),GA_ReadOnly); if(!d){ f("unified:unreadable"); return; } GDALRasterBandH b=GDALGetRasterBand(d,1); if(GDALGetRasterXSize(d)!=g.w()||GDALGetRasterYSize(d)!=g.h()||GDALGetRasterDataType(b)!=NativeTypeToGDAL<T>()) f("unified:shape"); else {
      std::vector<T> o((size_t)g.w()*g.h()); if(GDALRasterIO(b,GF_Read,0,0,g.w(),g.h(),o.data(),g.w(),g.h(),NativeTypeToGDAL<T>(),0,0)!=CE_None) f("unified:unreadable"); int has=0; double n=GDALGetRasterNoDataValue(b,&has); if(!has||n!=(double)nd) f("unified:nodata");
      for(int y=0;y<g.h();y++)for(int x=0;x<g.w();x++){ T e=g.isnull(x/g.tw,y/g.th)?nd:at(x,y); if(!(o[(size_t)y*g.w()+x]==e)){ f("unified:values",fmt("(%d,%d)",x,y)); y=g.h(); break; } } double q[6]; auto e=g.G(0); if(gts){ if(GDALGetGeoTransform(d,q)!=CE_None) f("unified:geotransform-missing"); else for(int i=0;i<6;i++) if(std::fabs(q[i]-e[i])>1e-6*(1+std::fabs(e[i]))){ f("unified:geotransform",fmt("element %d is %.9g expected %.9g",i,q[i],e[i])); break; } } }
    GDALClose(d); ::unlink(f1.c_str()); count("unified"); sweep(r); }
};
static int pickcache(Rng&r,int n){ return r.chance(0.15)?-1:r.chance(0.4)?1:r.range(1,n+1); }
template<class T,class U> void run(Rng&r,uint64_t cs){
  Geo g; int big=opts().thorough()?9:6; g.tw=r.chance(0.15)?1:r.range(1,big); g.th=r.chance(0.15)?1:r.range(1,big); g.W=r.chance(0.2)?1:r.range(1,4); g.H=r.chance(0.2)?1:r.range(1,4); int N=g.W*g.H; g.flipH=r.chance(0.3); g.flipV=r.chance(0.3); g.cx=r.chance(0.5)?r.range(1,30):0.5+r.unit(); g.cy=r.chance(0.7)?g.cx:0.5+r.unit(); g.gx=r.range(-100000,100000); g.gy=r.range(-100000,100000);
  double pn=r.chance(0.3)?0:r.unit()*0.6; g.null.resize(N); for(auto&c:g.null) c=r.chance(pn); g.null[r.below(N)]=0; bool gt0=r.chance(0.1); for(int t=0;t<N;t++){ bool mixed=r.chance(0.3); g.hasgt.push_back(!gt0); g.revx.push_back(gt0?g.flipH:mixed?r.chance(0.5):0); g.revy.push_back(gt0?g.flipV:mixed?r.chance(0.5):0); g.name.push_back(fmt("%s%d%s",t%3?"t":"tile.",t,t%4==1?".a":"")); }
  if(r.chance(0.3)&&!gt0){ bool a=r.chance(0.5),b=r.chance(0.5); for(int t=0;t<N;t++){ g.revx[t]=a; g.revy[t]=b; } }
  Mat<T> m; for(int i=0;i<g.w()*g.h();i++) m.v.push_back(val<T>(r)); T nd=r.chance(0.6)?(T)r.range(0,30):val<T>(r); bool mixnd=r.chance(0.2); for(int t=0;t<N;t++) m.nd.push_back(mixnd?(T)r.range(0,30):nd);
  { std::ofstream o("in.layout"); for(int y=0;y<g.H;y++){ for(int x=0;x<g.W;x++){ int t=y*g.W+x; if(!g.null[t]){ write_tile("in_"+g.name[t]+".tif",g,t,m); o<<"in_"<<g.name[t]<<".tif"; } o<<(x+1<g.W||r.chance(0.5)||g.null[t]?",":""); } o<<"\n"; } }
  std::string ctx=fmt("%s %dx%d tiles of %dx%d flipH=%d flipV=%d missing=%d",TN<T>::n(),g.W,g.H,g.tw,g.th,(int)g.flipH,(int)g.flipV,(int)std::count(g.null.begin(),g.null.end(),1));
  Hash hh; hh.add(cs); hh.adds(ctx); for(char c:g.null) hh.add(c);
  Geo gi=g; for(auto&n:gi.name) n="in_"+n; Geo go=gi;
  op("peek"); if(peekLayoutType("in.layout")!=NativeTypeToGDAL<T>()) fail("peekLayoutType",ctx); if(peekLayoutTileSize("in.layout")!=g.tw*g.th) fail("peekLayoutTileSize",ctx);
  { int c1=pickcache(r,N),c2=pickcache(r,N),c3=pickcache(r,N); ctx+=fmt(" caches %d,%d,%d",c1,c2,c3);
    op("open"); A2Array2D<T> A("in.layout",c1); A.flipH=g.flipH; A.flipV=g.flipV; Sys<T> SA{&A,gi,m,false,"readonly",ctx,c1};
    op("template"); A2Array2D<U> B("b-%f.native",A,c2); Mat<U> mb; mb.v.assign(m.v.size(),(U)0); mb.nd.assign(N,0); U bn=r.chance(0.5)?(U)r.range(0,30):val<U>(r); B.setNoData(bn); for(auto&n:mb.nd) n=bn; Sys<U> SB{&B,go,mb,true,"template",ctx,c2}; if(r.chance(0.7)){ U v=val<U>(r); B.setAll(v); std::fill(SB.m.v.begin(),SB.m.v.end(),v); }
    Geo gp=g; gp.null.assign(N,0); gp.flipH=gp.flipV=false; gp.hasgt.assign(N,0); gp.revx.assign(N,0); gp.revy.assign(N,0); for(int t=0;t<N;t++) gp.name[t]=std::to_string(t+1);
    op("prefix"); A2Array2D<U> P("p-",g.tw,g.th,g.W,g.H,c3); Mat<U> mp; mp.v.assign(m.v.size(),(U)0); mp.nd.assign(N,0); U pn2=val<U>(r); P.setNoData(pn2); for(auto&n:mp.nd) n=pn2; Sys<U> SP{&P,gp,mp,true,"prefix",ctx,c3};
    SA.query(); SB.query(); SP.query(); int steps=r.range(40,opts().thorough()?600:220); 
    for(int i=0;i<steps;i++){ int w=r.range(0,9); if(w<3) SA.step(r); else if(w<7) SB.step(r); else SP.step(r);
      if(r.chance(0.008)){ if(r.chance(0.5)) SB.save(r,"ob-"); else if(r.chance(0.5)) SP.save(r,"op-"); else SA.save(r,"oa-"); }
      if(r.chance(0.005)){ if(r.chance(0.6)) SB.unified(r,"u.tif"); else SA.unified(r,"u.tif"); } }
    SA.sweep(r); SB.sweep(r); SP.sweep(r); if(r.chance(0.5)) SB.save(r,"ob-"); if(r.chance(0.5)) SA.unified(r,"u.tif"); if(r.chance(0.5)) SB.unified(r,"u.tif"); count("evictions",A.getEvictions()+B.getEvictions()+P.getEvictions()); if(A.getEvictions()+B.getEvictions()+P.getEvictions()>0) nontrivial(hh.h); }
  if(r.chance(0.15)&&N-std::count(g.null.begin(),g.null.end(),1)>1){ // a tile of another size, or missing on disk
    op("refuse"); int t; do t=r.below(N); while(g.null[t]); std::string fn="in_"+g.name[t]+".tif"; if(r.chance(0.5)){ Geo k=g; if(r.chance(0.5)) k.tw+=1; else k.th+=1; GDALDatasetH d=GDALCreate(GDALGetDriverByName("GTiff"),fn.c_str(),k.tw,k.th,1,NativeTypeToGDAL<T>(),nullptr); GDALClose(d); } else ::unlink(fn.c_str()); bool th=false; try{ A2Array2D<T> q("in.layout",2); }catch(const std::exception&){ th=true; } if(!th) fail("odd-tile:accepted",ctx); count("refusals"); }
  { op("zero-cache"); bool th=false; try{ A2Array2D<U> q("z-",2,2,2,2,0); q(0,0)=1; q(3,3)=2; if(q(0,0)==1&&q(3,3)==2) th=true; }catch(const std::exception&){ th=true; } if(!th) fail("zero-cache:wrong-values",""); }
  if(want_sample()) sample(ctx);
  std::string cmd="rm -rf "+opts().scratch+"/w"; (void)cmd; for(int t=0;t<N;t++){ ::unlink(("in_"+g.name[t]+".tif").c_str()); ::unlink(("b-in_"+g.name[t]+".native").c_str()); ::unlink(fmt("p-%d.native",t+1).c_str()); ::unlink(fmt("z-%d.native",t+1).c_str()); } ::unlink("in.layout");
}
int main(int n,char**v){ GDALAllRegister(); CPLSetErrorHandler(CPLQuietErrorHandler);
  return main_loop(n,v,[](Rng&r,uint64_t c){ st().violcount.clear(); std::string w=opts().scratch+"/w"; mkdir(w.c_str(),0700); if(chdir(w.c_str())) exit(3); switch(r.range(0,5)){ case 0: run<uint8_t,float>(r,c); break; case 1: run<int16_t,int32_t>(r,c); break; case 2: run<int32_t,uint8_t>(r,c); break; case 3: run<float,float>(r,c); break; case 4: run<double,int16_t>(r,c); break; default: run<float,double>(r,c); } }); }
