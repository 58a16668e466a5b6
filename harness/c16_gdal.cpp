// C16: GeoTIFF round trips, windows and chains of saves, checked against the raster in memory and an independent GDAL reader.
#include "gen.hpp"
#include <richdem/common/loaders.hpp>
#include <ogr_spatialref.h>
#include <sys/resource.h>
using namespace rv; using namespace richdem;
static std::vector<std::string> projs;
template<class T> struct Ref { int w=0,h=0; std::vector<T> v; T nd; std::vector<double> gt; std::string proj; std::map<std::string,std::string> md; };
template<class T> bool sameb(const T&a,const T&b){ return memcmp(&a,&b,sizeof(T))==0; }
template<class T> T rv_val(Rng&r){ using L=std::numeric_limits<T>; switch(r.range(0,9)){ case 0: return L::max(); case 1: return L::lowest(); case 2: if constexpr(!L::is_integer) return L::infinity(); return (T)0; case 3: if constexpr(!L::is_integer) return (T)(r.unit()*1e-30); return (T)1; case 4: if constexpr(!L::is_integer) return L::quiet_NaN(); return (T)r.next(); case 5: if constexpr(!L::is_integer) return (T)((r.unit()-0.5)*1e9); return (T)r.next(); default: return (T)r.range(0,100); } }
static std::string word(Rng&r,bool key){ static const char*ks="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_"; static const char*vs=" =.:;,/()[]{}<>&\"'|%#@!?*+-"; std::string s; int n=r.range(1,12); s+='K'; for(int i=0;i<n;i++){ if(key||r.chance(0.7)||i==n-1){ char ch=ks[r.below(63)]; s+=key?(char)toupper(ch):ch; /* GDAL keys ignore case */ } else s+=vs[r.below(strlen(vs))]; } return s; }
static bool std_tag(const std::string&k){ return k=="TIFFTAG_DATETIME"||k=="TIFFTAG_SOFTWARE"||k=="AREA_OR_POINT"; }
static const std::vector<double> DEFGT={1000.,1.,0.,1000.,0.,-1.};
static bool closev(const std::vector<double>&a,const std::vector<double>&b,double tol=1e-9){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if(std::fabs(a[i]-b[i])>tol*(1+std::fabs(a[i]))) return false; return true; }
// history line: "\n<time> | <program> | <msg>"
static bool history_ok(const std::string&before,const std::string&after,const std::string&msg){ if(after.compare(0,before.size(),before)) return false; std::string e=after.substr(before.size()); if(!e.empty()&&e[0]=='\n') e=e.substr(1); std::string tail=" | "+program_identifier+" | "+(msg.empty()?"Unspecified Operation":msg); return e.size()==23+tail.size()&&e.substr(23)==tail&&e.find('\n')==std::string::npos; }
template<class T> void compare(const Array2D<T>&a,const Ref<T>&m,const std::string&nm,const std::string&ctx){
  auto F=[&](const std::string&k){ fail(nm+":"+k,TypeInfo<T>::name()+std::string(" ")+ctx); };
  if(a.width()!=m.w||a.height()!=m.h) return F("size"); for(int y=0;y<m.h;y++)for(int x=0;x<m.w;x++){ count("cells"); T q=a(x,y),e=m.v[(size_t)y*m.w+x]; bool ok=sameb(q,e); if constexpr(!std::numeric_limits<T>::is_integer) ok=ok||(std::isnan(q)&&std::isnan(e)); if(!ok) return F("values"); }
  bool ok=sameb(a.noData(),m.nd); if constexpr(!std::numeric_limits<T>::is_integer) ok=ok||(std::isnan(a.noData())&&std::isnan(m.nd)); if(!ok) return F("nodata");
  if(!closev(a.geotransform,m.gt.empty()?DEFGT:m.gt)) return F("geotransform"); if(a.projection!=m.proj) return F("projection");
  for(auto&kv:m.md) if(!std_tag(kv.first)){ auto it=a.metadata.find(kv.first); if(it==a.metadata.end()||it->second!=kv.second){ fail(nm+":metadata","'"+kv.first+"'='"+kv.second+"' became "+(it==a.metadata.end()?"absent":"'"+it->second+"'")+" "+ctx); return; } } for(auto&kv:a.metadata) if(!std_tag(kv.first)&&!m.md.count(kv.first)) return F("metadata-added"); }
template<class T> void gdal_check(const std::string&file,const Ref<T>&m,std::vector<double> gt,const std::string&nm,const std::string&ctx){
  auto F=[&](const std::string&k){ fail(nm+":file-"+k,TypeInfo<T>::name()+std::string(" ")+ctx); };
  GDALDatasetH d=GDALOpen(file.c_str(),GA_ReadOnly); if(!d) return F("unreadable"); GDALRasterBandH b=GDALGetRasterBand(d,1); std::string bad;
  if(GDALGetRasterXSize(d)!=m.w||GDALGetRasterYSize(d)!=m.h||GDALGetRasterCount(d)!=1) bad="size"; else {
    if(GDALGetRasterDataType(b)!=NativeTypeToGDAL<T>()) bad="type"; int has=0; double nd=GDALGetRasterNoDataValue(b,&has); if(!has||!(nd==(double)m.nd||(std::isnan(nd)&&std::isnan((double)m.nd)))) bad="nodata";
    std::vector<double> v((size_t)m.w*m.h); if(GDALRasterIO(b,GF_Read,0,0,m.w,m.h,v.data(),m.w,m.h,GDT_Float64,0,0)!=CE_None) bad="read"; else for(size_t i=0;i<v.size();i++){ double e=(double)m.v[i]; if(v[i]!=e&&!(std::isnan(v[i])&&std::isnan(e))){ bad="values"; break; } }
    double g[6]; bool have=GDALGetGeoTransform(d,g)==CE_None; if(gt.empty()?have:(!have||!closev(gt,std::vector<double>(g,g+6)))) bad="geotransform"; if(std::string(GDALGetProjectionRef(d))!=m.proj) bad="projection"; const char*s=GDALGetMetadataItem(d,"TIFFTAG_SOFTWARE",nullptr); if(!s||program_identifier!=s) bad="software"; }
  GDALClose(d); count("files_read_back"); if(!bad.empty()) F(bad); }
template<class T> void window(const Ref<T>&m,int x0,int y0,int w,int h,Ref<T>&o){ o=m; o.w=w; o.h=h; o.v.clear(); for(int y=y0;y<y0+h;y++)for(int x=x0;x<x0+w;x++) o.v.push_back(m.v[(size_t)y*m.w+x]); }
template<class U> U conv(double v){ using L=std::numeric_limits<U>; if constexpr(L::is_integer){ if(std::isnan(v)) return 0; v=std::round(v); if(v<=(double)L::lowest()) return L::lowest(); if(v>=(double)L::max()) return L::max(); return (U)v; } else return (U)v; }
template<class T,class U> void cross(Rng&r,const std::string&f,const Ref<T>&m,const std::string&ctx){ // the same file read as another type
  (void)r; op("load-as"); Array2D<U> b(f); if(b.width()!=m.w||b.height()!=m.h){ fail("load-as:size",ctx); return; } U nd=conv<U>((double)m.nd); 
  bool inr=true; if constexpr(std::numeric_limits<U>::is_integer){ double q=(double)m.nd; inr=!std::isnan(q)&&std::round(q)>=(double)std::numeric_limits<U>::lowest()&&std::round(q)<=(double)std::numeric_limits<U>::max(); }
  if(!inr) count("nodata_out_of_type_range"); // no value of the type stands for it: only memory safety and the values are judged
  bool frac=false; for(T v:m.v) if(std::fabs(std::fmod((double)v,1.0))==0.5) frac=true; if(frac) return;
  if(inr&&!(b.noData()==nd||(std::isnan((double)nd)&&std::isnan((double)b.noData())))) fail(std::string("load-as:nodata:")+TypeInfo<T>::name()+"-as-"+TypeInfo<U>::name(),fmt("file %.17g loaded %.17g expected %.17g ",(double)m.nd,(double)b.noData(),(double)nd)+ctx);
  for(size_t i=0;i<m.v.size();i++){ U e=conv<U>((double)m.v[i]); U q=b((uint32_t)i); if(q!=e&&!(std::isnan((double)q)&&std::isnan((double)e))&&std::fabs((double)m.v[i])<4e6){ fail(std::string("load-as:values:")+TypeInfo<T>::name()+"-as-"+TypeInfo<U>::name(),fmt("%.17g -> %.17g ",(double)m.v[i],(double)q)+ctx); return; } if(inr&&m.v[i]==m.nd&&!b.isNoData((uint32_t)i)){ fail("load-as:nodata-cell-lost",ctx); return; } } count("cross_type_loads"); }
template<class T> void run(Rng&r,uint64_t cs){
  Ref<T> m; std::string ctx; m.w=r.chance(0.1)?1:r.range(1,opts().thorough()?60:18); m.h=r.chance(0.1)?1:r.range(1,opts().thorough()?60:18); bool specials=r.chance(0.5);
  for(int i=0;i<m.w*m.h;i++) m.v.push_back(specials?rv_val<T>(r):(T)r.range(0,120)); m.nd=r.chance(0.3)?(T)-1:r.chance(0.4)?m.v[r.below(m.v.size())]:r.chance(0.3)?(T)-9999:rv_val<T>(r);
  if(r.chance(0.85)){ double cx=r.chance(0.5)?r.range(1,30):r.unit()*3+0.01,cy=r.chance(0.7)?cx:r.unit()*5+0.01; m.gt={std::floor((r.unit()-0.5)*1e6),cx,0,std::floor((r.unit()-0.5)*1e6),0,r.chance(0.85)?-cy:cy}; if(r.chance(0.25)){ m.gt[2]=r.unit()*cx; m.gt[4]=-r.unit()*cy; } }
  m.proj=r.pick(projs); int nm=r.range(0,4); for(int i=0;i<nm;i++) m.md[word(r,true)]=word(r,false); if(r.chance(0.3)) m.md["PROCESSING_HISTORY"]="2001-01-01 | earlier | step one";
  Array2D<T> a(m.w,m.h); for(int i=0;i<m.w*m.h;i++) a((uint32_t)i)=m.v[i]; a.setNoData(m.nd); a.geotransform=m.gt; a.projection=m.proj; a.metadata=m.md; a.basename="bn"; a.filename="fn";
  Hash hh; hh.add(cs); hh.add(m.w); hh.add(m.h); hh.adds(TypeInfo<T>::name()); if(m.v.size()) hh.add(m.v[0]);
  int chain=r.range(1,3); std::string f; std::vector<std::string> msgs; int gens=0;
  for(int g=0;g<chain;g++){ f=fmt("f%d.tif",g); std::string msg=r.chance(0.3)?"":word(r,false); bool comp=r.chance(0.3); ctx=fmt("%dx%d nd=%g gen=%d compress=%d",m.w,m.h,(double)m.nd,g,(int)comp);
    std::string before=a.metadata.count("PROCESSING_HISTORY")?a.metadata["PROCESSING_HISTORY"]:""; auto mdb=a.metadata; bool loader=r.chance(0.3);
    op(loader?"SaveGDAL":"saveGDAL"); const char*sn=loader?"SaveGDAL":"saveGDAL"; if(loader) SaveGDAL(a,f,msg,0,0,0,0,comp); else a.saveGDAL(f,msg,0,0,comp);
    // the raster in memory
    auto mda=a.metadata; if(loader){ if(mda!=mdb) fail("SaveGDAL:changed-metadata",ctx); } else { if(!history_ok(before,mda["PROCESSING_HISTORY"],msg)) fail("saveGDAL:history-in-memory","'"+mda["PROCESSING_HISTORY"]+"' after '"+before+"'"); mda.erase("PROCESSING_HISTORY"); auto q=mdb; q.erase("PROCESSING_HISTORY"); if(mda!=q) fail("saveGDAL:changed-metadata",ctx); }
    { Ref<T> k=m; k.md=a.metadata; auto gt=a.geotransform; if(gt!=m.gt) fail(std::string(sn)+":changed-geotransform",ctx); if(a.geotransform.empty()) a.geotransform=DEFGT; compare(a,k,std::string(sn)+":memory",ctx); a.geotransform=gt; if(a.basename!="bn"||a.filename!="fn") fail(std::string(sn)+":changed-name",ctx); }
    gdal_check(f,m,m.gt,sn,ctx);
    // load it back
    bool lload=r.chance(0.3); op(lload?"LoadGDAL":"loadGDAL"); Array2D<T> b; if(lload) LoadGDAL(f,b); else if(r.chance(0.3)){ b=Array2D<T>(f,false,0,0,0,0,false,false); if(!b.empty()||b.width()!=m.w||b.height()!=m.h||b.countval(m.v[0])!=0) fail("load-without-data:state",ctx); b.loadData(); bool t=false; try{ b.loadData(); }catch(const std::exception&){ t=true; } if(!t) fail("loadData:twice-accepted",ctx); } else b=Array2D<T>(f);
    std::string hist=b.metadata["PROCESSING_HISTORY"]; if(!history_ok(before,hist,msg)) fail(std::string(sn)+":history-in-file","'"+hist+"' after '"+before+"'"); Ref<T> k=m; k.md=mdb; k.md["PROCESSING_HISTORY"]=hist; compare(b,k,lload?"LoadGDAL":"loadGDAL",ctx);
    if(b.viewXoff()!=0||b.viewYoff()!=0) fail("loadGDAL:view-offset",ctx); m=k; if(m.gt.empty()) m.gt=DEFGT; gens++; a=b; a.basename="bn"; a.filename="fn"; count("generations"); }
  // windows
  for(int t=0;t<4;t++){ int x0=r.below(m.w),y0=r.below(m.h),w=r.chance(0.15)?0:r.range(1,m.w-x0),h=r.chance(0.15)?0:r.range(1,m.h-y0); bool over=r.chance(0.15); int W=w?w:m.w-x0,H=h?h:m.h-y0; Ref<T> win; window(m,x0,y0,W,H,win); std::string wc=fmt("window %d,%d %dx%d of ",x0,y0,w,h)+ctx; int rw=w,rh=h; if(over&&w&&h){ rw=m.w-x0+r.range(0,5); rh=m.h-y0+r.range(0,5); W=m.w-x0; H=m.h-y0; window(m,x0,y0,W,H,win); }
    if(r.chance(0.3)){ op("LoadGDAL-window"); int px=r.range(0,3),py=r.range(0,3); Array2D<T> b; LoadGDAL(f,b,px,py,x0,y0,rw,rh); Ref<T> p=win; p.w=W+2*px; p.h=H+2*py; p.v.assign((size_t)p.w*p.h,(T)0); for(int y=0;y<H;y++)for(int x=0;x<W;x++) p.v[(size_t)(y+py)*p.w+x+px]=win.v[(size_t)y*W+x]; compare(b,p,"LoadGDAL-window",wc+fmt(" pad %d,%d",px,py));
      op("SaveGDAL-padded"); SaveGDAL(b,"w.tif","m",x0,y0,px,py); auto gt=m.gt; gt[0]+=x0*m.gt[1]+y0*m.gt[2]; gt[3]+=x0*m.gt[4]+y0*m.gt[5]; gdal_check("w.tif",win,gt,"SaveGDAL-padded",wc+fmt(" pad %d,%d",px,py)); }
    else { op("loadGDAL-window"); bool lazy=r.chance(0.3); Array2D<T> b(f,false,x0,y0,rw,rh,false,!lazy); if(lazy) b.loadData(); compare(b,win,"loadGDAL-window",wc); if(b.viewXoff()!=x0||b.viewYoff()!=y0) fail("loadGDAL-window:view-offset",wc);
      op("saveGDAL-window"); Array2D<T> c(b); Array2D<float> tmpl(b,1.f); if(tmpl.viewXoff()!=x0||tmpl.viewYoff()!=y0) fail("template:view-offset",wc); c.saveGDAL("w.tif","m",c.viewXoff(),c.viewYoff()); auto gt=m.gt; gt[0]+=x0*m.gt[1]+y0*m.gt[2]; gt[3]+=x0*m.gt[4]+y0*m.gt[5]; gdal_check("w.tif",win,gt,"saveGDAL-window",wc); }
    hh.add(x0*1000+y0); count("windows"); }
  { op("window-outside"); int x0=0,y0=0; if(r.chance(0.5)) x0=m.w+r.range(0,3); else y0=m.h+r.range(0,3); if(r.chance(0.3)){ x0=-r.range(1,3); y0=0; } bool t=false; try{ Array2D<T> b(f,false,x0,y0,r.range(0,2),r.range(0,2)); }catch(const std::exception&){ t=true; } if(!t) fail("window-outside:accepted",fmt("%d,%d of %dx%d",x0,y0,m.w,m.h));
    int ex=r.below(m.w),ey=r.below(m.h); bool good=r.chance(0.5); t=false; try{ Array2D<T> b(f,false,ex,ey,m.w-ex+(good?0:1),m.h-ey,true); }catch(const std::exception&){ t=true; } if(t==good) fail("exact:wrong-outcome",fmt("%d,%d",ex,ey)); }
  if(r.chance(0.4)) switch(r.range(0,4)){ case 0: cross<T,uint8_t>(r,f,m,ctx); break; case 1: cross<T,int16_t>(r,f,m,ctx); break; case 2: cross<T,int32_t>(r,f,m,ctx); break; case 3: cross<T,float>(r,f,m,ctx); break; default: cross<T,double>(r,f,m,ctx); }
  if(r.chance(0.15)){ // a file that cannot be written, or not completely
    op("save-fault"); bool t=false; try{ a.saveGDAL("missing-dir/x.tif"); }catch(const std::exception&){ t=true; } if(!t) fail("saveGDAL:missing-directory-accepted",ctx); 
    ::unlink("q.tif"); struct rlimit o,l; getrlimit(RLIMIT_FSIZE,&o); l=o; size_t full=(size_t)m.w*m.h*sizeof(T); l.rlim_cur=1+r.below(full+1500); t=false; setrlimit(RLIMIT_FSIZE,&l); Array2D<T> c(a); try{ if(r.chance(0.5)) c.saveGDAL("q.tif","z"); else SaveGDAL(c,"q.tif","z"); }catch(const std::exception&){ t=true; } setrlimit(RLIMIT_FSIZE,&o);
    if(!t){ // reported as written: must be complete
      bool ok=true; try{ Array2D<T> d("q.tif"); for(size_t i=0;i<m.v.size();i++){ T q=d((uint32_t)i); if(!sameb(q,m.v[i])&&!(std::isnan((double)q)&&std::isnan((double)m.v[i]))) ok=false; } }catch(const std::exception&){ ok=false; } if(!ok) fail("save-fault:unreported",fmt("limit %lu ",(unsigned long)l.rlim_cur)+ctx); else count("faults_harmless"); } else count("faults_reported"); }
  nontrivial(hh.h); if(want_sample()) sample(ctx+fmt(" type %s generations %d",TypeInfo<T>::name(),gens));
}
int main(int n,char**v){ signal(SIGXFSZ,SIG_IGN); GDALAllRegister(); CPLSetErrorHandler(CPLQuietErrorHandler); projs.push_back(""); for(int e:{4326,32615,3857,27700}){ OGRSpatialReference s; if(s.importFromEPSG(e)) continue; char*w=nullptr; s.exportToWkt(&w); GDALDriverH d=GDALGetDriverByName("GTiff"); std::string f="/vsimem/p.tif"; GDALDatasetH o=GDALCreate(d,f.c_str(),2,2,1,GDT_Byte,nullptr); GDALSetProjection(o,w); double g[6]={1,2,0,3,0,-2}; GDALSetGeoTransform(o,g); GDALClose(o); o=GDALOpen(f.c_str(),GA_ReadOnly); projs.push_back(GDALGetProjectionRef(o)); GDALClose(o); CPLFree(w); }
  return main_loop(n,v,[](Rng&r,uint64_t c){ st().violcount.clear(); switch(r.range(0,6)){ case 0:run<uint8_t>(r,c);break; case 1:run<uint16_t>(r,c);break; case 2:run<int16_t>(r,c);break; case 3:run<uint32_t>(r,c);break; case 4:run<int32_t>(r,c);break; case 5:run<float>(r,c);break; default:run<double>(r,c);} }); }
