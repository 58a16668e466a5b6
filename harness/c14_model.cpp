// C14: rasters against a plain-table model under random operation histories.
#include "gen.hpp"
#include <richdem/common/Array3D.hpp>
#include <richdem/common/iterators.hpp>
using namespace rv; using namespace richdem;
template<class T> struct M2 { int w=0,h=0; std::vector<T> v; T nd=(T)-1; bool dirty=false; std::vector<double> gt; std::string proj,base; std::map<std::string,std::string> md; T&at(int x,int y){return v[(size_t)y*w+x];} };
static std::string hist;
template<class T> T val(Rng&r){ static const int c[]={-1,0,1,2,3,5,-9999,100}; return (T)c[r.below(std::is_unsigned<T>::value||sizeof(T)==1?6:8)]; }
template<class T> void same(Array2D<T>&a,M2<T>&m,const std::string&nm,Rng&r){
  auto F=[&](const std::string&k){ fail(nm+":"+k,TypeInfo<T>::name()+(" history "+(hist.size()>1500?hist.substr(hist.size()-1500):hist))); };
  if(a.width()!=m.w||a.height()!=m.h||a.size()!=(uint32_t)(m.w*m.h)) return F("size"); if(a.empty()!=m.v.empty()) return F("empty"); if(a.noData()!=m.nd) return F("nodata"); if(a.geotransform!=m.gt||a.projection!=m.proj||a.basename!=m.base||a.metadata!=m.md) return F("georeference");
  const Array2D<T>&ca=a; const int N=m.w*m.h; T mn=std::numeric_limits<T>::max(),mx=std::numeric_limits<T>::lowest(); uint32_t cnt=0;
  for(int y=0;y<m.h;y++)for(int x=0;x<m.w;x++){ uint32_t i=y*m.w+x; T q=m.v[i]; count("cells_compared"); if(a.xyToI(x,y)!=i) return F("xyToI"); int X=-1,Y=-1; a.iToxy(i,X,Y); if(X!=x||Y!=y) return F("iToxy"); if(ca(x,y)!=q||ca(i)!=q||a(x,y)!=q||a(i)!=q||a.data()[i]!=q) return F("contents");
    bool nd=q==m.nd; if(a.isNoData(x,y)!=nd||a.isNoData(i)!=nd||a.isData(x,y)==nd||a.isData(i)==nd) return F("isNoData"); if(!nd){ cnt++; mn=std::min(mn,q); mx=std::max(mx,q); }
    bool e=x==0||y==0||x==m.w-1||y==m.h-1; if(a.isEdgeCell(x,y)!=e||a.isEdgeCell(i)!=e) return F("isEdgeCell");
    if(a.isTopLeft(x,y)!=(x==0&&y==0)||a.isTopRight(x,y)!=(x==m.w-1&&y==0)||a.isBottomLeft(x,y)!=(x==0&&y==m.h-1)||a.isBottomRight(x,y)!=(x==m.w-1&&y==m.h-1)||a.isTopRow(x,y)!=(y==0)||a.isBottomRow(x,y)!=(y==m.h-1)||a.isLeftCol(x,y)!=(x==0)||a.isRightCol(x,y)!=(x==m.w-1)) return F("edge-queries");
    for(int n=0;n<=8;n++){ int nx=x+DX8[n],ny=y+DY8[n]; bool in=nx>=0&&ny>=0&&nx<m.w&&ny<m.h; uint32_t want=in?(uint32_t)(ny*m.w+nx):Array2D<T>::NO_I; if(a.getN(i,n)!=want) return F("getN"); if(a.nToI(i,DX8[n],DY8[n])!=want) return F("nToI"); if(a.inGrid(nx,ny)!=in) return F("inGrid"); if(in&&(uint32_t)((int)i+a.nshift(n))!=want) return F("nshift"); }
    if(r.chance(0.1)){ int dx=r.range(-5,5),dy=r.range(-5,5); bool in=x+dx>=0&&y+dy>=0&&x+dx<m.w&&y+dy<m.h; if(a.nToI(i,dx,dy)!=(in?(uint32_t)((y+dy)*m.w+x+dx):Array2D<T>::NO_I)) return F("nToI"); } }
  if(a.min()!=mn||a.max()!=mx) return F("min-max"); for(int k=0;k<2;k++){ T q=N?m.v[r.below(N)]:val<T>(r); if(a.countval(q)!=(uint32_t)std::count(m.v.begin(),m.v.end(),q)) return F("countval"); }
  if(m.dirty){ if(r.chance(0.5)){ a.countDataCells(); m.dirty=false; } } if(!m.dirty&&a.numDataCells()!=cnt) return F("numDataCells");
  if(N){ for(int y=0;y<m.h;y++) if(a.getRowData(y)!=std::vector<T>(m.v.begin()+y*m.w,m.v.begin()+(y+1)*m.w)) return F("getRowData"); for(int x=0;x<m.w;x++){ std::vector<T> c; for(int y=0;y<m.h;y++) c.push_back(m.at(x,y)); if(a.getColData(x)!=c) return F("getColData"); if(x==0&&a.leftColumn()!=c) return F("leftColumn"); if(x==m.w-1&&a.rightColumn()!=c) return F("rightColumn"); } if(a.topRow()!=a.getRowData(0)||a.bottomRow()!=a.getRowData(m.h-1)) return F("topRow-bottomRow");
    std::vector<uint32_t> fl; iterate_flat<T>(a,[&](Array2D<T>&,uint32_t i){ fl.push_back(i); }); if((int)fl.size()!=N||(N&&fl.back()!=(uint32_t)N-1)) return F("iterate_flat"); std::vector<uint32_t> f2; iterate_2d<T>(a,[&](int x,int y){ f2.push_back(y*m.w+x); }); if(f2!=fl) return F("iterate_2d"); }
}
template<class T> void run(Rng&r){
  const int K=4; std::vector<Array2D<T>> a(K); std::vector<M2<T>> m(K); hist.clear(); int steps=opts().thorough()?60:30; Hash hh; bool changed=false; const int MD=opts().thorough()?24:9;
  auto h=[&](const std::string&s){ hist+=s+";"; hh.adds(s); };
  auto dim=[&]{ return r.chance(0.06)?0:r.chance(0.15)?1:r.range(1,MD); };
  for(int s=0;s<steps;s++){ int k=r.below(K),j=r.below(K); auto&A=a[k]; auto&M=m[k]; int N=M.w*M.h; std::string o; int c=r.range(0,25);
    auto fresh=[&](int w,int hh2,T v){ M.w=w; M.h=hh2; M.v.assign((size_t)w*hh2,v); M.dirty=false; };
    switch(c){
      case 0: case 1: { int w=dim(),q=dim(); T v=val<T>(r); h(o=fmt("%d.resize(%d,%d,%d)",k,w,q,(int)v)); op("resize"); A.resize(w,q,v); fresh(w,q,v); break; }
      case 2: { int w=dim(),q=dim(); T v=val<T>(r); h(o=fmt("%d=Array2D(%d,%d,%d)",k,w,q,(int)v)); op("construct"); A=Array2D<T>(w,q,v); M=M2<T>(); fresh(w,q,v); break; }
      case 3: { T v=val<T>(r); h(o=fmt("%d.setAll(%d)",k,(int)v)); op("setAll"); A.setAll(v); std::fill(M.v.begin(),M.v.end(),v); M.dirty=false; break; }
      case 4: case 5: case 6: { if(!N) break; int n=r.range(1,8); o="write"; h(fmt("%d.write x%d",k,n)); op("write"); for(int t=0;t<n;t++){ int i=r.below(N); T v=val<T>(r); if(r.chance(0.5)) A((uint32_t)i)=v; else A(i%M.w,i/M.w)=v; M.v[i]=v; } M.dirty=true; break; }
      case 7: { T v=val<T>(r); h(o=fmt("%d.setNoData(%d)",k,(int)v)); op("setNoData"); A.setNoData(v); M.nd=v; M.dirty=false; break; }
      case 8: { h(o=fmt("%d=copy %d",k,j)); op("copy"); A=a[j]; M=m[j]; break; }
      case 9: { h(o=fmt("%d=copyctor %d",k,j)); op("copyctor"); { Array2D<T> t(a[j]); if(r.chance(0.5)){ std::swap(t,A); } else A=t; M=m[j]; if(t.size()) t.setAll((T)7); } break; }
      case 10:{ if(k==j) break; h(o=fmt("%d=move %d",k,j)); op("move"); A=std::move(a[j]); M=m[j]; if(!a[j].empty()) fail("move:source-not-empty",hist); int w=dim(),q=dim(); T v=val<T>(r); auto&Mj=m[j]; a[j]=Array2D<T>(w,q,v); Mj=M2<T>(); Mj.w=w; Mj.h=q; Mj.v.assign((size_t)w*q,v); break; }
      case 11:{ if(k==j) break; h(o=fmt("%d=movector %d, %d resized",k,j,j)); op("movector"); Array2D<T> t(std::move(a[j])); if(!a[j].empty()) fail("move:source-not-empty",hist); A=std::move(t); M=m[j]; int w=dim(),q=dim(); T v=val<T>(r); a[j].resize(w,q,v); auto nd=a[j].noData(); auto&Mj=m[j]; Mj=M2<T>(); Mj.w=w; Mj.h=q; Mj.v.assign((size_t)w*q,v); a[j].setNoData(nd); Mj.nd=nd; a[j].geotransform.clear(); a[j].projection.clear(); a[j].basename.clear(); a[j].metadata.clear(); break; }
      case 12:{ h(o=fmt("swap %d %d",k,j)); op("swap"); if(k!=j){ std::swap(a[k],a[j]); std::swap(m[k],m[j]); } break; }
      case 13:{ int w=M.w+r.range(0,4),q=M.h+r.range(0,4); T v=val<T>(r); h(o=fmt("%d.expand(%d,%d,%d)",k,w,q,(int)v)); op("expand"); bool same_=w==M.w&&q==M.h; A.expand(w,q,v); if(!same_){ M2<T> n=M; n.w=w; n.h=q; n.v.assign((size_t)w*q,v); for(int y=0;y<M.h;y++)for(int x=0;x<M.w;x++) n.at(x,y)=M.at(x,y); n.dirty=false; M=n; } 
               if(r.chance(0.2)&&M.w>0&&M.h>0){ bool t=false; try{ A.expand(r.chance(0.5)?M.w-1:M.w,M.h-1,v); }catch(const std::runtime_error&){ t=true; } if(!t) fail("expand:shrinking-accepted",hist); } break; }
      case 14:{ h(o=fmt("%d.flipVert",k)); op("flipVert"); A.flipVert(); M2<T> n=M; for(int y=0;y<M.h;y++)for(int x=0;x<M.w;x++) n.at(x,y)=M.at(x,M.h-1-y); M=n; break; }
      case 15:{ h(o=fmt("%d.flipHorz",k)); op("flipHorz"); A.flipHorz(); M2<T> n=M; for(int y=0;y<M.h;y++)for(int x=0;x<M.w;x++) n.at(x,y)=M.at(M.w-1-x,y); M=n; break; }
      case 16: case 17:{ h(o=fmt("%d.transpose",k)); op("transpose"); A.transpose(); M2<T> n=M; n.w=M.h; n.h=M.w; for(int y=0;y<M.h;y++)for(int x=0;x<M.w;x++) n.at(y,x)=M.at(x,y); M=n; break; }
      case 18:{ if(!N) break; int y=r.below(M.h); T v=val<T>(r); h(o=fmt("%d.setRow(%d,%d)",k,y,(int)v)); op("setRow"); A.setRow(y,v); for(int x=0;x<M.w;x++) M.at(x,y)=v; M.dirty=false; break; }
      case 19:{ if(!N) break; int x=r.below(M.w); T v=val<T>(r); h(o=fmt("%d.setCol(%d,%d)",k,x,(int)v)); op("setCol"); A.setCol(x,v); for(int y=0;y<M.h;y++) M.at(x,y)=v; M.dirty=false; break; }
      case 20:{ if(!N) break; T v=val<T>(r); h(o=fmt("%d.setEdges(%d)",k,(int)v)); op("setEdges"); A.setEdges(v); for(int y=0;y<M.h;y++)for(int x=0;x<M.w;x++) if(x==0||y==0||x==M.w-1||y==M.h-1) M.at(x,y)=v; M.dirty=false; break; }
      case 21:{ T p=N&&r.chance(0.7)?M.v[r.below(N)]:val<T>(r),v=val<T>(r); h(o=fmt("%d.replace(%d,%d)",k,(int)p,(int)v)); op("replace"); A.replace(p,v); std::replace(M.v.begin(),M.v.end(),p,v); M.dirty=false; break; }
      case 22:{ bool small=true; for(T v:M.v) if(std::fabs((double)v)>120/(sizeof(T)==1?2:1)&&v!=M.nd) small=false; if(!small) break; double f=r.chance(0.5)?2:r.chance(0.5)?1:0; h(o=fmt("%d.scale(%g)",k,f)); op("scale"); A.scale(f); for(auto&v:M.v) if(v!=M.nd) v=(T)(v*f); M.dirty=false; break; }
      case 23:{ h(o=fmt("%d geo",k)); A.geotransform={(double)r.range(0,9),1,0,2,0,-1}; A.projection=fmt("P%d",r.range(0,9)); A.basename=fmt("b%d",r.range(0,9)); A.metadata["k"]=fmt("%d",r.range(0,9)); M.gt=A.geotransform; M.proj=A.projection; M.base=A.basename; M.md=A.metadata; break; }
      case 24:{ if(k==j) break; h(o=fmt("%d resize/template like %d",k,j)); op("template"); T v=val<T>(r); auto&J=m[j]; int kind=r.range(0,3); if(kind==0){ A.resize(a[j],v); fresh(J.w,J.h,v); M.gt=J.gt; M.proj=J.proj; } else { Array2D<int64_t> t; if(kind==1) t=Array2D<int64_t>(a[j],5); else t=Array2D<int64_t>::make_from_template(a[j],5); if(t.width()!=J.w||t.height()!=J.h||t.countval(5)!=t.size()||t.geotransform!=J.gt||t.projection!=J.proj||t.basename!=J.base||t.metadata!=J.md) fail("template-copy:differs",hist); A=Array2D<T>(t,v); T nd=(T)-1; M=M2<T>(); fresh(J.w,J.h,v); M.nd=nd; M.gt=J.gt; M.proj=J.proj; M.base=J.base; M.md=J.md; } break; }
      default:{ std::vector<T> d; int w=r.range(1,MD),q=r.range(1,3); if(q==1&&w>=1){ Array2D<T> t={{(T)1,(T)2,(T)3},{(T)4,(T)5,(T)6}}; h(o=fmt("%d=init-list",k)); op("init-list"); A=t; M=M2<T>(); M.w=3; M.h=2; M.v={(T)1,(T)2,(T)3,(T)4,(T)5,(T)6}; } else { bool t=false; try{ Array2D<T> z={{(T)1,(T)2},{(T)3}}; }catch(const std::runtime_error&){t=true;} if(!t) fail("init-list:ragged-accepted",""); } break; }
    }
    op("compare"); same(a[k],m[k],o.empty()?"noop":o.substr(o.find_first_of(".= ")+1,o.find('(')-o.find_first_of(".= ")-1),r); changed=true; count("steps");
    if(k!=j){ bool eq=m[k].w==m[j].w&&m[k].h==m[j].h&&m[k].nd==m[j].nd&&m[k].v==m[j].v; if((a[k]==a[j])!=eq) fail("operator==",hist); if(eq&&N) count("equal_pairs"); }
    if(s%6==5||s==steps-1) for(int t=0;t<K;t++) same(a[t],m[t],"independence",r);
    if(!st().violcount.empty()) break; }
  if(changed){ nontrivial(hh.h); if(want_sample()) sample(hist); }
}
// ---- three-dimensional rasters
template<class T> struct M3 { int w=0,h=0; std::vector<T> v; T nd=(T)-1; bool dirty=false; };
template<class T> void run3(Rng&r){
  const int K=3; std::vector<Array3D<T>> a(K); std::vector<M3<T>> m(K); hist.clear(); Hash hh; auto h=[&](const std::string&s){ hist+=s+";"; hh.adds(s); };
  auto same3=[&](int k,const char*nm){ auto&A=a[k]; auto&M=m[k]; const auto&C=A; auto F=[&](const char*q){ fail(std::string("Array3D:")+nm+":"+q,hist); }; if(A.width()!=M.w||A.height()!=M.h||A.size()!=(size_t)M.w*M.h||A.empty()!=M.v.empty()||A.noData()!=M.nd) return F("size"); size_t cnt=0; for(int y=0;y<M.h;y++)for(int x=0;x<M.w;x++){ size_t i=(size_t)y*M.w+x; for(int n=0;n<9;n++){ if(A.xyToI(x,y,n)!=i*9+n) return F("xyToI"); T q=M.v[i*9+n]; if(C(x,y,n)!=q||A(x,y,n)!=q||A.getIN(i,n)!=q||C.getIN(i,n)!=q||A.getData()[i*9+n]!=q) return F("contents"); } bool nd=M.v[i*9]==M.nd; if(A.isNoData(x,y)!=nd||A.isNoData(i)!=nd) return F("isNoData"); cnt+=!nd; } for(int t=0;t<6;t++){ int x=r.range(-2,M.w+1),y=r.range(-2,M.h+1); if(A.inGrid(x,y)!=(x>=0&&y>=0&&x<M.w&&y<M.h)) return F("inGrid"); } if(M.dirty&&r.chance(0.5)){ A.countDataCells(); M.dirty=false; } if(!M.dirty&&A.numDataCells()!=cnt) return F("numDataCells"); };
  for(int s=0;s<24;s++){ int k=r.below(K),j=r.below(K); auto&A=a[k]; auto&M=m[k]; T v=val<T>(r); int w=r.range(0,7),q=r.range(0,7); const char*nm="";
    switch(r.range(0,8)){
      case 0: h(fmt("%d.resize(%d,%d)",k,w,q)); op(nm="resize3"); A.resize(w,q,v); M.w=w; M.h=q; M.v.assign((size_t)w*q*9,v); M.dirty=false; break;
      case 1: h(fmt("%d=Array3D(%d,%d)",k,w,q)); op(nm="construct3"); A=Array3D<T>(w,q,v); M=M3<T>(); M.w=w; M.h=q; M.v.assign((size_t)w*q*9,v); break;
      case 2: h(fmt("%d.setAll",k)); op(nm="setAll3"); A.setAll(v); std::fill(M.v.begin(),M.v.end(),v); M.dirty=false; break;
      case 3: case 4: if(M.v.empty()) break; h(fmt("%d.write",k)); op(nm="write3"); for(int t=0;t<6;t++){ size_t i=r.below(M.v.size()); T u=val<T>(r); if(r.chance(0.5)) A.getIN(i/9,i%9)=u; else A((i/9)%M.w,(i/9)/M.w,i%9)=u; M.v[i]=u; } M.dirty=true; break;
      case 5: h(fmt("%d.setNoData",k)); op(nm="setNoData3"); A.setNoData(v); M.nd=v; M.dirty=false; break;
      case 6: h(fmt("%d=copy %d",k,j)); op(nm="copy3"); A=a[j]; M=m[j]; break;
      case 7: if(k==j) break; h(fmt("%d=move %d",k,j)); op(nm="move3"); A=std::move(a[j]); M=m[j]; if(!a[j].empty()) fail("Array3D:move:source-not-empty",hist); a[j]=Array3D<T>(); m[j]=M3<T>(); break;
      default: { h(fmt("%d from 2D",k)); op(nm="from2D"); Array2D<int> t(w,q,3); t.geotransform={1,2,3,4,5,6}; t.projection="x"; t.basename="y"; t.metadata["a"]="b"; A=Array3D<T>(t,v); if(A.geotransform!=t.geotransform||A.projection!="x"||A.basename!="y"||A.metadata!=t.metadata) fail("Array3D:from2D:georeference",hist); M=M3<T>(); M.w=w; M.h=q; M.v.assign((size_t)w*q*9,v); Array2D<T> b(A,v); if(b.width()!=w||b.height()!=q||b.geotransform!=t.geotransform||b.countval(v)!=b.size()) fail("Array2D:from3D",hist); } }
    same3(k,nm); count("steps3"); if(k!=j){ bool eq=m[k].w==m[j].w&&m[k].h==m[j].h&&m[k].nd==m[j].nd&&m[k].v==m[j].v; if((a[k]==a[j])!=eq) fail("Array3D:operator==",hist); } if(s%6==5) for(int t=0;t<K;t++) same3(t,"independence"); if(!st().violcount.empty()) break; }
  nontrivial(hh.h);
}
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t){ st().violcount.clear(); int k=r.range(0,9); switch(k){case 0:case 1:run<int>(r);break;case 2:run<float>(r);break;case 3:run<double>(r);break;case 4:run<uint8_t>(r);break;case 5:run<int16_t>(r);break;case 6:run<int8_t>(r);break;case 7:run3<float>(r);break;case 8:run3<int>(r);break;default:run3<int8_t>(r);} }); }
