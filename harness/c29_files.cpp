// C29: damaged, foreign and hostile input files. Every way of opening a raster is compared with what GDAL itself says about
// the same file (established in a child process first, so that a file GDAL cannot survive judges nobody), while the number of
// open datasets, open descriptors and the largest allocation are watched.
#include "rv.hpp"
#include <gdal.h>
#include <gdal_priv.h>
#include <cpl_error.h>
#include <richdem/common/loaders.hpp>
#include <richdem/tiled/A2Array2D.hpp>
#include <fstream>
#include <cmath>
#include <limits>
#include <new>
#include <dirent.h>
#include <sys/wait.h>
static const size_t LIMIT=300u<<20; static size_t biggest=0;
static void*get(size_t n){ if(n>biggest) biggest=n; if(n>LIMIT) throw std::bad_alloc(); void*p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void*operator new(size_t n){ return get(n); } void*operator new[](size_t n){ return get(n); }
void*operator new(size_t n,const std::nothrow_t&) noexcept{ return n>LIMIT?nullptr:malloc(n?n:1); } void*operator new[](size_t n,const std::nothrow_t&) noexcept{ return n>LIMIT?nullptr:malloc(n?n:1); } void operator delete(void*p,const std::nothrow_t&) noexcept{ free(p); } void operator delete[](void*p,const std::nothrow_t&) noexcept{ free(p); }
void operator delete(void*p) noexcept{ free(p); } void operator delete[](void*p) noexcept{ free(p); } void operator delete(void*p,size_t) noexcept{ free(p); } void operator delete[](void*p,size_t) noexcept{ free(p); }
using namespace rv; using namespace richdem;
template<class T> struct TN; template<> struct TN<uint8_t>{ static const char*n(){return "u8";} }; template<> struct TN<int16_t>{ static const char*n(){return "i16";} }; template<> struct TN<int32_t>{ static const char*n(){return "i32";} }; template<> struct TN<float>{ static const char*n(){return "f32";} }; template<> struct TN<double>{ static const char*n(){return "f64";} };
static std::string slurp(const std::string&f){ std::ifstream i(f,std::ios::binary); std::ostringstream o; o<<i.rdbuf(); return o.str(); }
static void spit(const std::string&f,const std::string&d){ std::ofstream o(f,std::ios::binary|std::ios::trunc); o.write(d.data(),d.size()); }
// descriptors of files in the scratch directory (GDAL's libraries open and close files of their own at will)
static int nfds(){ char cwd[4096],l[4200]; if(!getcwd(cwd,sizeof cwd)) return 0; size_t cl=strlen(cwd); int n=0; DIR*d=opendir("/proc/self/fd"); while(auto*e=readdir(d)){ ssize_t k=readlink((std::string("/proc/self/fd/")+e->d_name).c_str(),l,4199); if(k>(ssize_t)cl&&!strncmp(l,cwd,cl)&&l[cl]=='/') n++; } closedir(d); return n; }
static int nds(){ GDALDatasetH*l; int n=0; GDALGetOpenDatasets(&l,&n); return n; }
struct Held { int ds,fd; Held():ds(nds()),fd(nfds()){} };
static void released(const Held&h,const std::string&nm,const std::string&ctx,bool failed){ int d=nds(),f=nfds(); count("resource_checks"); if(d!=h.ds) fail(nm+":dataset-left-open"+(failed?"-after-failure":""),fmt("%d before, %d after ",h.ds,d)+ctx); else if(f!=h.fd) fail(nm+":descriptor-left-open"+(failed?"-after-failure":""),fmt("%d before, %d after ",h.fd,f)+ctx); }
// What GDAL says about a file
template<class T> struct Say { bool open=false,band=false,read=false,huge=false; int w=0,h=0,type=0; bool gt=false; double g[6]={}; std::vector<T> v; };
template<class T> Say<T> ask(const std::string&f,int x0,int y0,int w,int h){ // w==0: to the right edge
  Say<T> s; GDALDatasetH d=GDALOpen(f.c_str(),GA_ReadOnly); if(!d) return s; s.open=true; GDALRasterBandH b=GDALGetRasterBand(d,1); s.gt=GDALGetGeoTransform(d,s.g)==CE_None; if(b){ s.band=true; s.w=GDALGetRasterBandXSize(b); s.h=GDALGetRasterBandYSize(b); s.type=GDALGetRasterDataType(b);
    if(x0<s.w&&y0<s.h){ int W=w&&w<s.w-x0?w:s.w-x0,H=h&&h<s.h-y0?h:s.h-y0; if((uint64_t)W*H*sizeof(T)>LIMIT) s.huge=true; else { s.v.assign((size_t)W*H,(T)0); s.read=GDALRasterIO(b,GF_Read,x0,y0,W,H,s.v.data(),W,H,NativeTypeToGDAL<T>(),0,0)==CE_None; } } }
  GDALClose(d); return s; }
template<class T> bool survives(const std::string&f){ fflush(outf()); pid_t p=fork(); if(!p){ arm(0); alarm(20); signal(SIGPROF,SIG_DFL); int n=open("/dev/null",O_WRONLY); dup2(n,2); try{ ask<T>(f,0,0,0,0); ask<T>(f,0,0,1,1); }catch(...){ _exit(3); } _exit(0); } int st=0; waitpid(p,&st,0); return WIFEXITED(st)&&WEXITSTATUS(st)==0; }
template<class T> bool same(const T*a,const T*b,size_t n){ for(size_t i=0;i<n;i++) if(!(a[i]==b[i]||(a[i]!=a[i]&&b[i]!=b[i]))) return false; return true; }
// One file, every way of opening it
template<class F> int attempt(const char*nm,const std::string&ctx,uint64_t cells_bytes,F f){ // 1 = done, 0 = reported
  op(nm); Held h; biggest=0; int rc=1; try{ f(); }catch(const std::exception&){ rc=0; } catch(...){ fail(std::string(nm)+":odd-exception",ctx); rc=0; }
  if(biggest>cells_bytes+(64u<<20)) fail(std::string(nm)+":allocation",fmt("asked for %zu bytes at once, the raster has %llu ",biggest,(unsigned long long)cells_bytes)+ctx);
  released(h,nm,ctx,!rc); count(rc?"opened":"refused"); return rc; }
template<class T> void expect(const char*nm,const std::string&ctx,int rc,bool ok,const Say<T>&s,const Array2D<T>&a,int W,int H){
  if(rc!=(ok?1:0)){ fail(std::string(nm)+(ok?":readable-refused":":damaged-accepted"),ctx); return; } if(!ok) return;
  if(a.width()!=W||a.height()!=H){ fail(std::string(nm)+":size",fmt("%dx%d, file %dx%d ",a.width(),a.height(),W,H)+ctx); return; }
  if(a.empty()||!same(a.data(),s.v.data(),s.v.size())) fail(std::string(nm)+":values",ctx); count("values_compared",s.v.size()); }
template<class T> void judge(Rng&r,const std::string&f,std::string ctx){
  ctx+=std::string(" as ")+TN<T>::n(); op("survive"); if(!survives<T>(f)){ count("files_gdal_cannot_survive"); return; } op("ask");
  const Say<T> s=ask<T>(f,0,0,0,0); const bool any=s.open&&s.band; uint64_t bytes=(uint64_t)s.w*s.h*sizeof(T); if(s.read) count("readable_files"); else if(any) count("files_with_unreadable_cells"); else if(s.open) count("files_without_bands"); else count("files_not_opened");
  { GDALDataType t=GDT_Unknown; int rc=attempt("peekGDALType",ctx,0,[&]{ t=peekGDALType(f); }); if(rc!=any) fail(std::string("peekGDALType:")+(any?"refused":"accepted"),ctx); else if(rc&&t!=s.type) fail("peekGDALType:type",ctx); }
  { int32_t h=-7,w=-7; GDALDataType t=GDT_Unknown; double g[6]={9,9,9,9,9,9}; bool wantg=r.chance(0.5); int rc=attempt("getGDALDimensions",ctx,0,[&]{ getGDALDimensions(f,h,w,t,wantg?g:nullptr); }); bool ok=any&&(!wantg||s.gt); if(rc!=ok) fail(std::string("getGDALDimensions:")+(ok?"refused":"accepted"),ctx); else if(rc&&(h!=s.h||w!=s.w||t!=s.type||(wantg&&!same(g,s.g,6)))) fail("getGDALDimensions:values",ctx); }
  { int32_t h=-7,w=-7; T nd; double g[6]; int rc=attempt("getGDALHeader",ctx,0,[&]{ getGDALHeader<T>(f,h,w,nd,g); }); if(rc!=any) fail(std::string("getGDALHeader:")+(any?"refused":"accepted"),ctx); else if(rc&&(h!=s.h||w!=s.w||(s.gt&&!same(g,s.g,6)))) fail("getGDALHeader:values",ctx); }
  { Array2D<T> a; int rc=attempt("load",ctx,bytes,[&]{ a=Array2D<T>(f); }); expect("load",ctx,rc,any&&s.read,s,a,s.w,s.h); if(rc&&any){ bool ok=a.geotransform.size()==6; if(ok&&s.gt) ok=same(a.geotransform.data(),s.g,6); if(!ok) fail("load:geotransform",ctx); } }
  { Array2D<T> a(2,2,(T)5); int px=r.chance(0.5)?r.range(1,3):0,py=px?r.range(0,3):0; int rc=attempt(px?"LoadGDAL-padded":"LoadGDAL",ctx,(px||py)&&bytes<LIMIT?bytes*2+1000000:bytes,[&]{ LoadGDAL(f,a,px,py); }); bool ok=any&&s.read; const char*nm=px?"LoadGDAL-padded":"LoadGDAL";
    if(rc!=ok) fail(std::string(nm)+(ok?":readable-refused":":damaged-accepted"),ctx); else if(ok){ if(a.width()!=s.w+2*px||a.height()!=s.h+2*py) fail(std::string(nm)+":size",ctx); else { bool eq=true; for(int y=0;y<s.h;y++)for(int x=0;x<s.w;x++) eq=eq&&same(&a(x+px,y+py),&s.v[(size_t)y*s.w+x],1); if(!eq) fail(std::string(nm)+":values",ctx); } } }
  { int x0=r.range(0,4),y0=r.range(0,4),w=r.range(0,5),h=r.range(0,5); if(any&&r.chance(0.5)&&s.w>0&&s.h>0){ x0=r.below(s.w); y0=r.below(s.h); w=r.range(1,4); h=r.range(1,4); } const Say<T> q=ask<T>(f,x0,y0,w,h); bool in=any&&x0<q.w&&y0<q.h; int W=w&&w<q.w-x0?w:q.w-x0,H=h&&h<q.h-y0?h:q.h-y0; std::string c=fmt("window %d,%d %dx%d of ",x0,y0,w,h)+ctx; 
    Array2D<T> a; int rc=attempt("load-window",c,in?(uint64_t)W*H*sizeof(T):0,[&]{ a=Array2D<T>(f,false,x0,y0,w,h); }); expect("load-window",c,rc,in&&q.read,q,a,W,H);
    Array2D<T> l; rc=attempt("load-later:header",c,0,[&]{ l=Array2D<T>(f,false,x0,y0,w,h,false,false); }); if(rc!=in) fail(std::string("load-later:header-")+(in?"refused":"accepted"),c); else if(in){ for(int t=0;t<2;t++){ rc=attempt("load-later:cells",c,(uint64_t)W*H*sizeof(T),[&]{ l.loadData(); }); expect("load-later:cells",c,rc,q.read,q,l,W,H); if(!rc&&!l.empty()){ fail("load-later:cells:half-read-raster-kept",c); break; } if(rc) break; } } }
  { Array2D<T> a; int rc=attempt("as-native",ctx,1u<<20,[&]{ a=Array2D<T>(f,true); }); if(rc&&a.size()>0) fail("as-native:accepted",ctx); }
}
static void drop(const std::string&base){ for(const char*e:{"",".aux.xml",".hdr",".prj",".hdr.bak",".ovr",".msk"}) ::unlink((base+e).c_str()); std::string s=base.substr(0,base.find_last_of('.')); for(const char*e:{".hdr",".prj",".stx",".clr",".aux.xml",".tfw"}) ::unlink((s+e).c_str()); }
// A good file of some format; returns the names of its parts, the first being the one to open
template<class T> std::vector<std::string> good(Rng&r,const std::string&stem,int w,int h,std::string&ctx,std::vector<T>*out=nullptr,int force=-1){
  static const char*drv[]={"GTiff","GTiff","GTiff","GTiff","AAIGrid","ENVI","EHdr","VRT","RST","SAGA"}; int k=force>=0?force:r.range(0,9); std::string d=drv[k]; std::vector<T> v; for(int i=0;i<w*h;i++) v.push_back((T)(r.chance(0.05)?r.next()&0xffff:r.range(0,90))); int nb=d=="GTiff"&&r.chance(0.2)?r.range(2,3):1;
  char**o=nullptr; std::string ext=".tif"; if(d=="GTiff"){ static const char*cm[]={"NONE","DEFLATE","LZW","PACKBITS"}; const char*c=cm[r.range(0,3)]; o=CSLSetNameValue(o,"COMPRESS",c); if(r.chance(0.3)){ o=CSLSetNameValue(o,"TILED","YES"); o=CSLSetNameValue(o,"BLOCKXSIZE","16"); o=CSLSetNameValue(o,"BLOCKYSIZE","16"); } else if(r.chance(0.5)) o=CSLSetNameValue(o,"BLOCKYSIZE",fmt("%d",r.range(1,4)).c_str()); if(r.chance(0.2)) o=CSLSetNameValue(o,"BIGTIFF","YES"); if(r.chance(0.2)) o=CSLSetNameValue(o,"ENDIANNESS","BIG"); if(r.chance(0.15)) o=CSLSetNameValue(o,"SPARSE_OK","TRUE"); ctx+=std::string("GTiff/")+c; } else ctx+=d;
  GDALDataType ty=NativeTypeToGDAL<T>(); if(d=="GTiff"&&r.chance(0.05)) ty=GDT_CFloat32;
  GDALDatasetH m=GDALCreate(GDALGetDriverByName("MEM"),"",w,h,nb,ty,nullptr); double g[6]={r.unit()*100,1.5,0,r.unit()*100,0,-1.5}; if(d!="GTiff"||r.chance(0.8)) GDALSetGeoTransform(m,g); for(int b=1;b<=nb;b++){ GDALRasterBandH B=GDALGetRasterBand(m,b); if(GDALRasterIO(B,GF_Write,0,0,w,h,v.data(),w,h,NativeTypeToGDAL<T>(),0,0)!=CE_None) exit(3); if(r.chance(0.7)) GDALSetRasterNoDataValue(B,7); }
  std::vector<std::string> parts; if(d=="AAIGrid") ext=".asc"; else if(d=="ENVI") ext=".img"; else if(d=="EHdr") ext=".flt"; else if(d=="RST") ext=".rst"; else if(d=="SAGA") ext=".sdat";
  if(d=="VRT"){ GDALDatasetH t=GDALCreateCopy(GDALGetDriverByName("GTiff"),(stem+"s.tif").c_str(),m,0,nullptr,nullptr,nullptr); GDALDatasetH q=GDALCreateCopy(GDALGetDriverByName("VRT"),(stem+".vrt").c_str(),t,0,nullptr,nullptr,nullptr); GDALClose(q); GDALClose(t); parts={stem+".vrt",stem+"s.tif"}; }
  else { GDALDatasetH q=GDALCreateCopy(GDALGetDriverByName(d.c_str()),(stem+ext).c_str(),m,0,o,nullptr,nullptr); if(q) GDALClose(q); parts.push_back(stem+ext); if(d=="ENVI"||d=="EHdr") parts.push_back(stem+".hdr"); if(d=="RST") parts.push_back(stem+".rdc"); if(d=="SAGA") parts.push_back(stem+".sgrd"); }
  GDALClose(m); CSLDestroy(o); if(out) *out=v; return parts; }
static std::string corrupt(Rng&r,std::string d,std::string&ctx){
  int n=1+(r.chance(0.3)?1:0); for(int t=0;t<n;t++){ int k=r.range(0,8); if(d.empty()) k=7; switch(k){
    case 0: case 1: { size_t c=r.chance(0.3)&&d.size()>20?d.size()-1-r.below(12):r.below(d.size()); ctx+=fmt(" cut@%zu/%zu",c,d.size()); d.resize(c); break; }
    case 2: case 3: { int m=r.range(1,8); ctx+=" flip"; for(int i=0;i<m;i++){ size_t c=r.chance(0.6)?r.below(std::min<size_t>(d.size(),400)):r.below(d.size()); d[c]=(char)r.next(); ctx+=fmt("@%zu",c); } break; }
    case 4: { size_t c=r.below(d.size()),l=1+r.below(60); ctx+=fmt(" zero@%zu+%zu",c,l); for(size_t i=c;i<d.size()&&i<c+l;i++) d[i]=0; break; }
    case 5: { // a number in a text header, or a tag value in a TIFF
      static const char*hv[]={"-1","0","2147483647","4294967296","1000000","99999999999999999999","nan","","70000","-2147483648","1e308","x"}; std::vector<size_t> at; for(size_t i=1;i<d.size()&&i<4000;i++) if(isdigit((unsigned char)d[i])&&!isalnum((unsigned char)d[i-1])) at.push_back(i);
      bool tiff=d.size()>8&&((d[0]=='I'&&d[1]=='I')||(d[0]=='M'&&d[1]=='M')); if(tiff&&r.chance(0.8)&&d[0]=='I'&&d[2]==42){ uint32_t off; memcpy(&off,&d[4],4); if(off+2<d.size()){ uint16_t ne; memcpy(&ne,&d[off],2); if(ne){ size_t e=off+2+12*r.below(ne); if(e+12<=d.size()){ static const uint32_t tv[]={0,1,2,3,5,16,255,65535,70000,1000000,0x7fffffff,0x80000000u,0xffffffffu}; uint32_t x=tv[r.below(13)]; int fld=r.chance(0.7)?8:r.chance(0.5)?4:2; uint16_t tag; memcpy(&tag,&d[e],2); if(fld==2){ uint16_t y=(uint16_t)r.range(0,18); memcpy(&d[e+2],&y,2); } else memcpy(&d[e+fld],&x,4); ctx+=fmt(" tag%u.%d=%u",tag,fld,x); break; } } } }
      if(!at.empty()){ size_t i=r.pick(at),j=i; while(j<d.size()&&(isdigit((unsigned char)d[j])||d[j]=='.')) j++; const char*x=hv[r.below(12)]; ctx+=fmt(" num@%zu=%s",i,x); d=d.substr(0,i)+x+d.substr(j); } break; }
    case 6: { ctx+=" append"; int m=r.range(1,40); for(int i=0;i<m;i++) d+=(char)r.next(); break; }
    case 7: { ctx+=" foreign"; d.clear(); int m=r.range(0,300),kind=r.range(0,3); for(int i=0;i<m;i++) d+=kind==0?(char)r.next():kind==1?(char)r.range(32,126):kind==2?(char)0:(char)('0'+r.range(0,9)); if(r.chance(0.3)) d=std::string("II*\0",4)+d; break; }
    default: { size_t a=r.below(d.size()),b=r.below(d.size()),l=1+r.below(30); ctx+=fmt(" move@%zu>%zu",a,b); std::string x=d.substr(a,l); for(size_t i=0;i<x.size()&&b+i<d.size();i++) d[b+i]=x[i]; } } }
  return d; }
static std::string hostile_vrt(Rng&r,const std::string&src,std::string&ctx){ static const int sz[]={1,3,70000,65536,100000,2147483647,46341,20000}; int w=sz[r.below(8)],h=sz[r.below(8)]; int kind=r.range(0,5); static const char*ty[]={"Byte","Int16","Int32","Float32","Float64","CInt16","CFloat64","UInt32","Int8","Int64"}; const char*t=ty[r.below(10)];
  std::string s=fmt("<VRTDataset rasterXSize=\"%d\" rasterYSize=\"%d\">",w,h); if(kind>=1){ s+=fmt("<VRTRasterBand dataType=\"%s\" band=\"1\"><NoDataValue>%s</NoDataValue>",t,r.chance(0.3)?"nan":r.chance(0.5)?"1e300":"-9999"); if(kind>=2) s+=fmt("<SimpleSource><SourceFilename relativeToVRT=\"1\">%s</SourceFilename><SourceBand>%d</SourceBand></SimpleSource>",kind==3?"absent.tif":src.c_str(),kind==4?5:1); s+="</VRTRasterBand>"; } else count("bandless_made");
  s+="</VRTDataset>"; ctx+=fmt("vrt %dx%d kind %d type %s",w,h,kind,t); return s; }
template<class T> void one(Rng&r,uint64_t cs){ Hash hh; hh.add(cs); std::string ctx; int w=r.range(1,r.chance(0.2)?70:14),h=r.range(1,r.chance(0.2)?70:14); std::vector<std::string> parts;
  int kind=r.range(0,19); if(kind<14){ parts=good<T>(r,"a",w,h,ctx); bool touched=r.chance(0.93); if(touched){ size_t k=parts.size()>1&&r.chance(0.6)?1:0; ctx+=k?" second-part":""; if(r.chance(0.06)){ ::unlink(parts[k].c_str()); ctx+=" missing"; } else spit(parts[k],corrupt(r,slurp(parts[k]),ctx)); } else ctx+=" intact"; }
  else if(kind<18){ std::string c0; good<T>(r,"b",w,h,c0,nullptr,0); spit("a.vrt",hostile_vrt(r,"b.tif",ctx)); parts={"a.vrt"}; }
  else if(kind==18){ ctx="directory"; parts={"."}; } else { ctx="absent"; parts={r.chance(0.5)?"absent.tif":""}; }
  hh.adds(ctx); judge<T>(r,parts[0],ctx); if(r.chance(0.3)) judge<double>(r,parts[0],ctx); if(parts[0]!="."&&parts[0]!="")for(auto&p:parts) drop(p); drop("b.tif"); drop("a.vrt"); ::unlink("as.tif"); nontrivial(hh.h); if(want_sample()) sample(ctx); }
// A file whose cells cannot be read for a while
template<class T> void transient(Rng&r,uint64_t cs){ std::string ctx="transient "; int w=r.range(2,60),h=r.range(2,60); std::vector<T> v; auto p=good<T>(r,"a",w,h,ctx,&v,0); std::string whole=slurp(p[0]); size_t cut=1+r.below(whole.size()); const Say<T> s=ask<T>(p[0],0,0,0,0); Array2D<T> a(p[0],false,0,0,0,0,false,false); auto md=a.metadata; auto gt=a.geotransform; spit(p[0],whole.substr(0,cut)); ctx+=fmt(" cut@%zu/%zu",cut,whole.size());
  if(!survives<T>(p[0])) return; const Say<T> b=ask<T>(p[0],0,0,0,0); int rc=attempt("loadData-damaged",ctx,(uint64_t)w*h*sizeof(T),[&]{ a.loadData(); }); bool ok=b.read&&b.w==s.w&&b.h==s.h; if(b.read&&(b.w!=s.w||b.h!=s.h)) return; expect("loadData-damaged",ctx,rc,ok,b,a,w,h); if(ok) { count("cuts_harmless"); return; }
  if(!a.empty()) fail("loadData-damaged:half-read-raster-kept",ctx); if(a.metadata!=md||a.geotransform!=gt||a.width()!=w||a.height()!=h) fail("loadData-damaged:properties-changed",ctx); spit(p[0],whole); rc=attempt("loadData-restored",ctx,(uint64_t)w*h*sizeof(T),[&]{ a.loadData(); }); expect("loadData-restored",ctx,rc,s.read,s,a,w,h); count("faults_recovered"); drop(p[0]); Hash hh; hh.add(cs); hh.adds(ctx); nontrivial(hh.h); }
// A tiled raster some of whose tiles are damaged
template<class T> void tiles(Rng&r,uint64_t cs){ int W=r.range(1,3),H=r.range(1,3),n=W*H,w=r.range(1,9),h=r.range(1,9); std::string ctx=fmt("tiles %dx%d of %dx%d:",W,H,w,h); std::vector<std::vector<T>> v(n); std::vector<std::string> whole(n),f(n); std::vector<int> state(n,0); std::string lay; Hash hh; hh.add(cs);
  int force_first=r.chance(0.3); for(int t=0;t<n;t++){ std::string c; GDALDatasetH q; f[t]=fmt("t%d.tif",t); for(int i=0;i<w*h;i++) v[t].push_back((T)r.range(0,90)); char**o=nullptr; if(r.chance(0.5)) o=CSLSetNameValue(o,"COMPRESS",r.chance(0.5)?"DEFLATE":"LZW"); q=GDALCreate(GDALGetDriverByName("GTiff"),f[t].c_str(),w,h,1,NativeTypeToGDAL<T>(),o); CSLDestroy(o); double g[6]={(double)(t%W)*w,1,0,(double)-(t/W)*h,0,-1}; GDALSetGeoTransform(q,g); if(GDALRasterIO(GDALGetRasterBand(q,1),GF_Write,0,0,w,h,v[t].data(),w,h,NativeTypeToGDAL<T>(),0,0)!=CE_None) exit(3); GDALClose(q); whole[t]=slurp(f[t]); }
  int bad=r.range(1,2); auto damage=[&](int t){ std::string c; spit(f[t],corrupt(r,whole[t],c)); ctx+=fmt(" tile %d%s",t,c.c_str()); }; bool before=r.chance(0.3); auto hit=[&]{ for(int i=0;i<bad;i++){ int t=i==0&&force_first?0:r.below(n); damage(t); } };
  int odd=-1; for(int y=0;y<H;y++){ for(int x=0;x<W;x++){ std::string nm=f[y*W+x]; if(r.chance(0.06)&&n>1){ nm=""; state[y*W+x]=3; } else if(r.chance(0.03)){ nm="none.tif"; odd=y*W+x; ctx+=" absent-tile"; } else if(r.chance(0.02)){ spit("z.vrt",hostile_vrt(r,f[0],ctx)); nm="z.vrt"; odd=y*W+x; } lay+=nm+(x+1<W?",":""); f[y*W+x]=nm.empty()?f[y*W+x]:nm; } lay+="\n"; } spit("l.layout",lay); bool allnull=true; for(int t=0;t<n;t++) if(state[t]!=3) allnull=false;
  if(odd>=0&&f[odd]!="none.tif") {} if(before) hit(); hh.adds(ctx); std::vector<Say<T>> s(n); auto see=[&]{ for(int t=0;t<n;t++) if(state[t]!=3){ if(!survives<T>(f[t])) return false; s[t]=ask<T>(f[t],0,0,0,0); } return true; }; if(!see()){ count("files_gdal_cannot_survive"); return; }
  int first=-1; for(int t=0;t<n&&first<0;t++) if(state[t]!=3) first=t; bool fok=first>=0&&s[first].open&&s[first].band;
  { GDALDataType t=GDT_Unknown; int rc=attempt("peekLayoutType",ctx,0,[&]{ t=peekLayoutType("l.layout"); }); if(rc!=fok) fail(std::string("peekLayoutType:")+(fok?"refused":"accepted"),ctx); else if(rc&&t!=s[first].type) fail("peekLayoutType:type",ctx); }
  { int z=0; int rc=attempt("peekLayoutTileSize",ctx,0,[&]{ z=peekLayoutTileSize("l.layout"); }); bool big=fok&&(uint64_t)s[first].w*s[first].h>(uint64_t)INT32_MAX; bool ok=fok&&!big; if(rc!=ok) fail(std::string("peekLayoutTileSize:")+(ok?"refused":"accepted"),ctx); else if(rc&&z!=s[first].w*s[first].h) fail("peekLayoutTileSize:size",ctx); }
  bool ctor=!allnull||true; bool dims=true; int aw=-1,ah=-1; bool toobig=false; for(int t=0;t<n;t++) if(state[t]!=3){ if(!s[t].open||!s[t].band) ctor=false; else { if(aw<0){ aw=s[t].w; ah=s[t].h; } else if(s[t].w!=aw||s[t].h!=ah) dims=false; if((uint64_t)s[t].w*W>INT32_MAX||(uint64_t)s[t].h*H>INT32_MAX||(uint64_t)s[t].w*s[t].h>UINT32_MAX-1) toobig=true; } } bool want=ctor&&dims;
  int cache=r.range(1,n); std::unique_ptr<A2Array2D<T>> a; int rc=attempt("tiled-open",ctx,0,[&]{ a.reset(new A2Array2D<T>("l.layout",cache)); }); if(toobig&&want){ count("huge_tiles"); return; } if(rc!=want){ fail(std::string("tiled-open:")+(want?"refused":"accepted"),ctx); return; } if(!rc){ nontrivial(hh.h); return; } if(aw!=w||ah!=h) return;
  if(!before) hit(); std::vector<char> ok(n,1); std::set<int> held; if(!see()) return; for(int t=0;t<n;t++) if(state[t]!=3){ ok[t]=s[t].read&&s[t].w==w&&s[t].h==h; if(s[t].read&&(s[t].w!=w||s[t].h!=h)) return; if(s[t].gt&&(s[t].g[1]<0||s[t].g[5]>0)) return; }
  bool fixed=false; int steps=r.range(10,60); for(int i=0;i<steps;i++){ int t=r.below(n),x=r.below(w),y=r.below(h); if(state[t]==3) continue; if(!fixed&&i>steps*2/3&&r.chance(0.5)){ fixed=true; for(int k=0;k<n;k++) if(state[k]!=3&&f[k][0]=='t'&&f[k]!=std::string("none.tif")) spit(f[k],whole[k]); for(int k=0;k<n;k++) if(state[k]!=3&&f[k][0]=='t'){ } break; }
    T q{}; rc=attempt("tiled-read",ctx,(uint64_t)w*h*sizeof(T),[&]{ q=(*a)((t%W)*w+x,(t/W)*h+y); }); if(rc!=ok[t]){ fail(std::string("tiled-read:")+(ok[t]?"readable-refused":"damaged-accepted"),fmt("tile %d step %d cache %d ",t,i,cache)+ctx); break; } if(rc&&!same(&q,&s[t].v[(size_t)y*w+x],1)){ fail("tiled-read:value",fmt("tile %d step %d cache %d ",t,i,cache)+ctx); break; } count(rc?"tile_reads":"tile_reads_refused"); }
  nontrivial(hh.h); if(want_sample()) sample(ctx); }
template<class T> void mix(Rng&r,uint64_t c){ double u=r.unit(); if(u<0.7) one<T>(r,c); else if(u<0.8) transient<T>(r,c); else tiles<T>(r,c); }
int main(int n,char**v){ setenv("GDAL_DRIVER_PATH","disable",1); setenv("GDAL_CACHEMAX","64",1); setenv("GDAL_DISABLE_READDIR_ON_OPEN","FALSE",1); GDALAllRegister(); CPLSetErrorHandler(CPLQuietErrorHandler);
  return main_loop(n,v,[](Rng&r,uint64_t c){ st().violcount.clear(); switch(r.range(0,4)){ case 0:mix<uint8_t>(r,c);break; case 1:mix<int16_t>(r,c);break; case 2:mix<int32_t>(r,c);break; case 3:mix<float>(r,c);break; default:mix<double>(r,c);} }); }
