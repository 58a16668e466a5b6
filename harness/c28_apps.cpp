// C28: the command line tools, built from apps/ and run as processes, against the library operation on the same data, an
// independent GDAL reader and the exit status.
#include "gen.hpp"
#include <richdem/common/version.hpp>
#include <richdem/depressions/Barnes2014.hpp>
#include <richdem/depressions/Zhou2016.hpp>
#include <richdem/depressions/Lindsay2016.hpp>
#include <richdem/depressions/fill_spill_merge.hpp>
#include <richdem/flats/flat_resolution.hpp>
#include <richdem/methods/flow_accumulation.hpp>
#include <richdem/methods/terrain_attributes.hpp>
#include <richdem/misc/misc_methods.hpp>
#include <gdal.h>
#include <cpl_error.h>
#include <ogr_srs_api.h>
#include <sys/resource.h>
#include <sys/wait.h>
namespace rv {
using namespace richdem;
#define RVT(X) X(uint8_t) X(uint16_t) X(int16_t) X(uint32_t) X(int32_t) X(float) X(double)
struct File { int w=0,h=0; std::vector<double> v; double nd=0; bool hasnd=false,hasgt=false; double gt[6]; std::string proj,hist; GDALDataType t=GDT_Unknown; bool ok=false; };
struct Proc { int status=0; bool sig=false,timeout=false; std::string out,err; bool good()const{return !sig&&!timeout&&status==0;} };
File readfile(const std::string&f); Proc runapp(const std::string&app,const std::vector<std::string>&args,long fsize); void wr(const std::string&f,const File&x); std::string slurp(const std::string&f); const std::vector<std::string>&projections(); bool exists(const std::string&f);
template<class T> void run(Rng&r);
#if RV_PART==0
std::string slurp(const std::string&f){ std::string s; FILE*h=fopen(f.c_str(),"rb"); if(!h) return s; char b[65536]; size_t n; while((n=fread(b,1,sizeof b,h))>0) s.append(b,n); fclose(h); return s; }
bool exists(const std::string&f){ return access(f.c_str(),F_OK)==0; }
File readfile(const std::string&f){ File x; CPLPushErrorHandler(CPLQuietErrorHandler); GDALDatasetH d=GDALOpen(f.c_str(),GA_ReadOnly); if(d&&GDALGetRasterCount(d)==1){ x.w=GDALGetRasterXSize(d); x.h=GDALGetRasterYSize(d); GDALRasterBandH b=GDALGetRasterBand(d,1); x.t=GDALGetRasterDataType(b); int has=0; x.nd=GDALGetRasterNoDataValue(b,&has); x.hasnd=has; x.v.resize((size_t)x.w*x.h);
    x.ok=GDALRasterIO(b,GF_Read,0,0,x.w,x.h,x.v.data(),x.w,x.h,GDT_Float64,0,0)==CE_None; x.hasgt=GDALGetGeoTransform(d,x.gt)==CE_None; x.proj=GDALGetProjectionRef(d); const char*m=GDALGetMetadataItem(d,"PROCESSING_HISTORY",nullptr); x.hist=m?m:""; }
  if(d) GDALClose(d); CPLPopErrorHandler(); return x; }
void wr(const std::string&f,const File&x){ GDALDatasetH d=GDALCreate(GDALGetDriverByName("GTiff"),f.c_str(),x.w,x.h,1,x.t,nullptr); if(x.hasgt) GDALSetGeoTransform(d,const_cast<double*>(x.gt)); if(!x.proj.empty()) GDALSetProjection(d,x.proj.c_str()); if(!x.hist.empty()) GDALSetMetadataItem(d,"PROCESSING_HISTORY",x.hist.c_str(),nullptr);
  GDALRasterBandH b=GDALGetRasterBand(d,1); if(x.hasnd) GDALSetRasterNoDataValue(b,x.nd); if(GDALRasterIO(b,GF_Write,0,0,x.w,x.h,const_cast<double*>(x.v.data()),x.w,x.h,GDT_Float64,0,0)!=CE_None) abort(); GDALClose(d); }
const std::vector<std::string>&projections(){ static std::vector<std::string> p; if(p.empty()){ p.push_back(""); for(int e:{26915,4326,3857}){ OGRSpatialReferenceH s=OSRNewSpatialReference(nullptr); char*w=nullptr; if(OSRImportFromEPSG(s,e)==0&&OSRExportToWkt(s,&w)==0) p.push_back(w); CPLFree(w); OSRDestroySpatialReference(s); } } return p; }
Proc runapp(const std::string&app,const std::vector<std::string>&args,long fsize){
  std::string exe=std::string(getenv("RV_APPS"))+"/"+app, so="app.out",se="app.err"; Proc p; count("run_"+app); op(app);
  pid_t c=fork(); if(c==0){ int a=open(so.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600),b=open(se.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); dup2(a,1); dup2(b,2); rlimit l={20,25}; setrlimit(RLIMIT_CPU,&l); rlimit z={0,0}; setrlimit(RLIMIT_CORE,&z); if(fsize>=0){ rlimit q={(rlim_t)fsize,(rlim_t)fsize}; setrlimit(RLIMIT_FSIZE,&q); signal(SIGXFSZ,SIG_IGN); } signal(SIGPROF,SIG_DFL); signal(SIGXCPU,SIG_DFL); signal(SIGALRM,SIG_DFL);
    setenv("ASAN_OPTIONS","exitcode=98:detect_leaks=0:handle_abort=0:hard_rss_limit_mb=3000",1); setenv("UBSAN_OPTIONS","print_stacktrace=1",1); std::vector<char*> v; v.push_back((char*)exe.c_str()); for(auto&s:args) v.push_back((char*)s.c_str()); v.push_back(nullptr); execv(exe.c_str(),v.data()); _exit(127); }
  int st=0; while(waitpid(c,&st,0)<0&&errno==EINTR); p.sig=WIFSIGNALED(st); p.status=p.sig?WTERMSIG(st):WEXITSTATUS(st); p.timeout=p.sig&&(p.status==SIGXCPU||p.status==SIGKILL); p.out=slurp(so); p.err=slurp(se); if(p.status==127&&!p.sig){ fprintf(stderr,"cannot run %s\n",exe.c_str()); _exit(3); } return p; }
#define X(T) extern template void run<T>(Rng&);
RVT(X)
#undef X
#else
static std::string q(const std::string&a){ return a; }
static std::vector<std::string> lines(const std::string&s){ std::vector<std::string> v; std::stringstream t(s); std::string l; while(std::getline(t,l)) v.push_back(l); return v; }
template<class T> struct Case { Rng&r; File in; Array2D<T> a; std::string ctx; std::string hist; Case(Rng&r_):r(r_){} };
static bool nanaware(double a,double b){ return a==b||(std::isnan(a)&&std::isnan(b)); }
template<class T> void make(Case<T>&c,const std::string&f,int maxdim,int ndmode,const char*kind="dem"){
  Rng&r=c.r; T nd; Dem d=make_dem<T>(r,maxdim,ndmode,nd); File&x=c.in; x.w=d.w; x.h=d.h; x.t=NativeTypeToGDAL<T>(); x.nd=(double)nd; x.hasnd=true; x.v.resize((size_t)d.w*d.h); if(!strcmp(kind,"dirs")) for(int i=0;i<d.w*d.h;i++) d.z[i]=r.range(0,8);
  if(!strcmp(kind,"few")) for(int i=0;i<d.w*d.h;i++) d.z[i]=std::is_floating_point<T>::value&&r.chance(0.5)?r.range(0,80)/4.0:r.range(0,200); if(strcmp(kind,"dem")){ nd=std::numeric_limits<T>::is_signed?(T)-9999:(T)std::min<double>(std::numeric_limits<T>::max(),999999); x.nd=(double)nd; }
  for(size_t i=0;i<x.v.size();i++) x.v[i]=d.nd[i]?(double)nd:(double)(T)d.z[i];
  x.hasgt=r.chance(0.9); double sx=r.chance(0.5)?1:std::ldexp(r.range(1,40),-3), sy=r.chance(0.6)?sx:std::ldexp(r.range(1,40),-3); double g[6]={r.range(-1000,1000)/4.0,sx,0,r.range(-1000,1000)/4.0,0,-sy}; memcpy(x.gt,g,sizeof g); if(!x.hasgt){ double k[6]={1000,1,0,1000,0,-1}; memcpy(x.gt,k,sizeof k); }
  x.proj=projections()[r.below(projections().size())]; if(r.chance(0.6)) x.hist=fmt("\n2020-01-0%d | earlier | step %d",r.range(1,9),r.range(0,99)); wr(f,x); x=readfile(f); x.hasgt=true; memcpy(x.gt,g,sizeof g); if(!readfile(f).hasgt){ double k[6]={1000,1,0,1000,0,-1}; memcpy(x.gt,k,sizeof k); }
  if(!x.ok) abort(); c.a.resize(x.w,x.h,(T)0); for(int y=0;y<x.h;y++)for(int xx=0;xx<x.w;xx++) c.a(xx,y)=(T)x.v[(size_t)y*x.w+xx]; c.a.setNoData((T)x.nd); c.a.geotransform.assign(x.gt,x.gt+6); c.a.projection=x.proj; c.ctx=std::string(TypeInfo<T>::name())+fmt(" nodata %.9g ",x.nd)+dump(d); }
static bool report(const std::string&app,const Proc&p,const std::string&ctx){ size_t i=p.err.find("runtime error:"); size_t j=p.err.find("ERROR: AddressSanitizer"); if(i!=std::string::npos||j!=std::string::npos){ size_t k=std::min(i,j); fail(app+":sanitizer-report",p.err.substr(k>80?k-80:0,1500)+" | "+ctx); return true; } if(p.timeout){ fail(app+":hang",ctx); return true; } if(p.sig&&p.status!=SIGABRT){ fail(app+fmt(":signal-%d",p.status),p.err.substr(0,600)+" | "+ctx); return true; } return false; }
template<class U> bool judge(const std::string&app,const std::string&f,const Array2D<U>&e,const File&in,const std::string&history,const std::vector<std::string>&args,const std::string&ctx,bool values=true,double tol=0){
  File o=readfile(f); count("outputs_judged"); auto F=[&](const std::string&k,const std::string&m=""){ fail(app+":"+k,m+" | "+ctx); return false; };
  if(!o.ok) return F("output-unreadable"); if(o.w!=e.width()||o.h!=e.height()) return F("size",fmt("%dx%d",o.w,o.h)); if(o.t!=NativeTypeToGDAL<U>()) return F("type"); if(!o.hasnd||!nanaware(o.nd,(double)e.noData())) return F("nodata",fmt("file %.17g expected %.17g",o.nd,(double)e.noData()));
  if(values) for(int y=0;y<o.h;y++)for(int x=0;x<o.w;x++){ count("cells"); double a=o.v[(size_t)y*o.w+x],b=(double)e(x,y); if(!nanaware(a,b)&&!(tol>0&&std::fabs(a-b)<=tol*(1+std::fabs(b)))) return F("value",fmt("(%d,%d) file %.17g expected %.17g",x,y,a,b)); }
  if(!o.hasgt) return F("geotransform","none"); for(int i=0;i<6;i++) if(o.gt[i]!=in.gt[i]) return F("geotransform",fmt("[%d] %.17g instead of %.17g",i,o.gt[i],in.gt[i])); if(o.proj!=in.proj) return F("projection","'"+o.proj.substr(0,60)+"' instead of '"+in.proj.substr(0,60)+"'");
  if(o.hist.compare(0,history.size(),history)) return F("history-lost",o.hist); std::string added=o.hist.substr(history.size()); if(args.empty()) return true; size_t pos=0; for(auto&a:args){ pos=added.find(a,pos); if(pos==std::string::npos) return F("history-command",added); pos+=a.size(); } return true; }
static std::string num(double v){ return fmt("%.17g",v); }

template<class T> void run(Rng&r){
  Case<T> c(r); std::string in="in.tif",out="out.tif"; for(const char*f:{"in.tif","in2.tif","out.tif","out.tif.aux.xml","pre-flowdirs.tif","pre-label.tif","pre-graph.csv","pre-wtd.tif","pre-hydrologic-surface-height.tif"}) unlink(f);
  static const char* APPS[]={"rd_compare","rd_d8_flowdirs","rd_depressions_breach","rd_depressions_flood","rd_depressions_has","rd_depressions_mask","rd_expand_dimensions","rd_flow_accumulation","rd_terrain_property","rd_depression_hierarchy","rd_fill_spill_merge","rd_flood_for_flowdirs","rd_geotransform","rd_hist","rd_loop_check","rd_no_data","rd_processing_history","rd_projection","rd_raster_display","rd_raster_inspect","rd_taudem_d8_to_richdem_d8","rd_merge_rasters_by_layout"};
  std::string app=APPS[r.below(22)]; if(getenv("RV_APP")) app=getenv("RV_APP"); bool dirs=app=="rd_taudem_d8_to_richdem_d8"||app=="rd_loop_check"; bool few=app=="rd_hist"||app=="rd_raster_inspect"||app=="rd_raster_display";
  constexpr bool fl=std::is_floating_point<T>::value; bool big=r.chance(0.08);
  make(c,in,big?60:16,dirs||few?r.range(0,2):r.range(0,3),dirs?"dirs":few?"few":"dem"); c.ctx=app+" "+c.ctx; if(want_sample()) sample(c.ctx); { Hash h; for(double v:c.in.v) h.addd(v); h.add(c.in.w); for(char ch:app) h.add(ch); nontrivial(h.h); }
  Array2D<T>&a=c.a; const File&x=c.in; std::vector<std::string> args; std::function<void(const Proc&)> check; std::vector<std::string> outs{out}; bool inplace=false,writes=true;
  auto H=[&]{ return inplace?x.hist:std::string(); };
  auto std_out=[&](auto e,bool values=true){ return [=,&r,&c,&args](const Proc&){ judge(app,out,e,c.in,inplace?c.in.hist:std::string(),args,c.ctx,values); }; };
  bool bad_option=r.chance(0.06); // an option the tool does not have or a value it must refuse
  if(app=="rd_depressions_flood"){ int m=r.chance(0.5)?0:r.range(1,30); args={in,out,std::to_string(m)}; if(bad_option) args[2]="many"; Array2D<T> e(a); if(m==0) PriorityFlood_Zhou2016(e); else PriorityFlood_Barnes2014_max_dep<Topology::D8>(e,m); inplace=true; check=std_out(e); }
  else if(app=="rd_depressions_breach"){ static const char*ms[]={"COMPLETE","SELECTIVE","CONSTRAINED"}; int m=r.range(0,2); bool eps=r.chance(0.5),fill=r.chance(0.5); int len=r.range(0,20); double dep=r.chance(0.2)?1e9:r.range(0,20); static const LindsayMode lm[]={COMPLETE_BREACHING,SELECTIVE_BREACHING,CONSTRAINED_BREACHING}; std::string ds=dep==1e9&&r.chance(0.5)?"inf":num(dep); args={in,out,ms[m],eps?"EPS":"NOEPS",fill?"FILL":"NOFILL",std::to_string(len),ds}; if(bad_option) args[2+r.range(0,2)]="MAYBE";
    Array2D<T> e(a); double dd=std::min(dep,(double)std::numeric_limits<T>::max()); if(fl&&ds=="inf") dd=(double)std::numeric_limits<T>::max(); Lindsay2016(e,lm[m],eps,fill,(uint32_t)len,(T)dd); inplace=true; check=std_out(e); }
  else if(app=="rd_depressions_has"){ args={in}; writes=false; bool e=HasDepressions<Topology::D8>(a); bad_option=false; check=[=](const Proc&p){ bool no=p.out.find("m No depressions found.")!=std::string::npos,yes=p.out.find("m Depressions found.")!=std::string::npos; if(no==yes||yes!=e) fail(app+":answer",c.ctx); }; }
  else if(app=="rd_depressions_mask"){ args={in,out}; bad_option=false; Array2D<uint8_t> e(a); pit_mask<Topology::D8>(a,e); check=std_out(e); }
  else if(app=="rd_d8_flowdirs"||app=="rd_flood_for_flowdirs"){ bool d=app=="rd_d8_flowdirs"; args={in,d?"pre":out}; if(d) outs={"pre-flowdirs.tif"}; bad_option=false; Array2D<T> e(a); Array2D<uint8_t> f; PriorityFlood_Barnes2014<Topology::D8>(e); barnes_flat_resolution_d8(e,f,false); std::string o=outs[0]; check=[=,&args](const Proc&){ judge(app,o,f,c.in,"",args,c.ctx); }; }
  else if(app=="rd_expand_dimensions"){ int w=x.w+r.range(0,9),h=x.h+r.range(0,9); if(bad_option){ if(r.chance(0.5)) w=x.w-1; else h=x.h-1; } args={in,out,std::to_string(w),std::to_string(h)}; if(!bad_option){ Array2D<T> e(w,h,(T)x.nd); for(int y=0;y<x.h;y++)for(int k=0;k<x.w;k++) e(k,y)=a(k,y); e.setNoData((T)x.nd); inplace=true; check=std_out(e); } }
  else if(app=="rd_flow_accumulation"){ int g=r.range(1,6); args={in,out,std::to_string(g)}; double par=r.range(1,20)/2.0; if(g==4||g==5) args.push_back(num(par)); if(bad_option){ args={in,out,r.chance(0.5)?std::to_string(r.range(7,9)):std::to_string(r.range(10,99)),"1.0"}; if(r.chance(0.3)) args={in,out,"4"}; }
    Array2D<double> e(a,1); if(g==1) FA_D8(a,e); if(g==2) FA_Rho8(a,e); if(g==3) FA_Quinn(a,e); if(g==4) FA_Holmgren(a,e,(float)par); if(g==5) FA_Freeman(a,e,(float)par); if(g==6) FA_Tarboton(a,e); const double area=std::fabs(x.gt[1]*x.gt[5]); for(uint32_t i=0;i<(uint32_t)e.size();i++) if(!a.isNoData(i)) e(i)*=area; else e(i)=e.noData();
    check=[=,&args](const Proc&){ judge(app,out,e,c.in,"",args,c.ctx,g!=2,1e-12); if(g==2){ File o=readfile(out); double cells=0; for(size_t i=0;i<o.v.size();i++){ if((c.in.v[i]==c.in.nd)!=(o.v[i]==o.nd)) fail(app+":rho8-nodata",c.ctx); if(c.in.v[i]!=c.in.nd){ cells++; double q_=o.v[i]/area; if(q_<1-1e-9||std::fabs(q_-std::round(q_))>1e-6*q_) fail(app+":rho8-value",c.ctx+num(q_)); } } for(size_t i=0;i<o.v.size();i++) if(c.in.v[i]!=c.in.nd&&o.v[i]/area>cells+1e-6) fail(app+":rho8-more-than-all",c.ctx); } }; }
  else if(app=="rd_terrain_property"){ int g=r.range(1,8); float z=r.chance(0.5)?1:(float)(r.range(1,40)/8.0); args={in,out,std::to_string(g),num(z)}; if(bad_option){ if(r.chance(0.6)) args[2]=std::to_string(r.range(9,50)); else args[3]="much"; } Array2D<float> e(a); if(g==1) TA_slope_riserun(a,e,z); if(g==2) TA_slope_percentage(a,e,z); if(g==3) TA_slope_degrees(a,e,z); if(g==4) TA_slope_radians(a,e,z); if(g==5) TA_aspect(a,e,z); if(g==6) TA_curvature(a,e,z); if(g==7) TA_planform_curvature(a,e,z); if(g==8) TA_profile_curvature(a,e,z); check=std_out(e); }
  else if(app=="rd_geotransform"){ inplace=true; if(r.chance(0.3)){ args={in}; writes=false; bad_option=false; check=[=](const Proc&p){ size_t i=p.out.find("Geotransform: "); if(i==std::string::npos){ fail(app+":show",p.out); return; } std::stringstream s(p.out.substr(i+14)); for(int k=0;k<6;k++){ double v=1e99; s>>v; if(std::fabs(v-c.in.gt[k])>1e-4*(1+std::fabs(c.in.gt[k]))){ fail(app+":show",p.out.substr(i)+c.ctx); return; } } std::string t; int w=0,h=0; s>>t>>w>>t>>h; if(w!=c.in.w||h!=c.in.h) fail(app+":show-size",p.out.substr(i)); }; }
    else { args={in,out}; for(int k=0;k<6;k++){ if(r.chance(0.4)){ double v=k==1?r.range(1,50)/8.0:k==5?-r.range(1,50)/8.0:k==2||k==4?0:r.range(-400,400)/8.0; args.push_back(num(v)); c.in.gt[k]=v; } else args.push_back("x"); } if(bad_option) args[2+r.range(0,5)]="north"; Array2D<T> e(a); check=std_out(e); } }
  else if(app=="rd_hist"){ args={in}; writes=false; bad_option=false; check=[=](const Proc&p){ std::map<double,long> m,g; for(double v:c.in.v) m[v]++; bool on=false; std::string nd; for(auto&l:lines(p.out)){ if(l.compare(0,8,"Nodata: ")==0){ on=true; nd=l.substr(8); continue; } if(!on||l.empty()) continue; std::stringstream s(l); double v; long k; if(!(s>>v>>k)||g.count(v)){ fail(app+":line","'"+l+"' "+c.ctx); return; } g[v]=k; } double ndv=0; if(sscanf(nd.c_str(),"%lf",&ndv)!=1||std::fabs(ndv-c.in.nd)>1e-5*std::fabs(c.in.nd)) fail(app+":nodata","'"+nd+"' "+c.ctx); std::map<double,long> m2; for(auto&kv:m){ double v=0; std::ostringstream os; os<<kv.first; v=fl?atof(os.str().c_str()):kv.first; m2[v]+=kv.second; } if(m2!=g) fail(app+":counts",c.ctx); }; }
  else if(app=="rd_no_data"){ inplace=true; if(r.chance(0.4)){ args={in}; writes=false; bad_option=false; check=[=](const Proc&p){ auto l=lines(p.err); double v=0; if(l.empty()||sscanf(l.back().c_str(),"%lf",&v)!=1||!nanaware(v,c.in.nd)) fail(app+":show",p.err+" "+c.ctx); }; }
    else { T nd; switch(r.range(0,3)){ case 0: nd=a((uint32_t)r.below(a.size())); break; case 1: nd=std::numeric_limits<T>::lowest(); break; case 2: nd=std::numeric_limits<T>::max(); break; default: nd=(T)r.range(0,100); if(fl) nd=(T)(r.range(-100000,100000)/16.0); } args={in,out,num((double)nd)}; if(bad_option) args[2]="none"; Array2D<T> e(a); e.setNoData(nd); check=std_out(e); } }
  else if(app=="rd_processing_history"){ args={in}; writes=false; bad_option=false; check=[=](const Proc&p){ if(p.out.find(c.in.hist.empty()?"No processing history!":c.in.hist)==std::string::npos) fail(app+":text",p.out.substr(0,800)); }; }
  else if(app=="rd_projection"){ inplace=true; if(r.chance(0.5)){ auto&ps=projections(); std::string p=ps[1+r.below(ps.size()-1)]; File t; t.w=t.h=1; t.v={1}; t.t=GDT_Byte; t.proj=p; wr("in2.tif",t); c.in.proj=readfile("in2.tif").proj; args={in,out,"in2.tif"}; if(bad_option) args[2]="absent.tif"; } else { bad_option=false; auto&ps=projections(); std::string p=ps[1+r.below(ps.size()-1)]; File t; t.w=t.h=1; t.v={1}; t.t=GDT_Byte; t.proj=p; wr("in2.tif",t); c.in.proj=readfile("in2.tif").proj; args={in,out,":"+p}; } Array2D<T> e(a); check=[=](const Proc&){ judge(app,out,e,c.in,c.in.hist,{in,out},c.ctx); }; }
  else if(app=="rd_taudem_d8_to_richdem_d8"){ inplace=true; Array2D<T> e(a); static const int tx[9]={0,1,1,0,-1,-1,-1,0,1},ty[9]={0,0,-1,-1,-1,0,1,1,1}; // TauDEM: 1 is east and then anticlockwise
    for(uint32_t i=0;i<(uint32_t)e.size();i++) if(!e.isNoData(i)){ int n=(int)a(i); for(int k=0;k<=8;k++) if(DX8[k]==tx[n]&&DY8[k]==ty[n]) e(i)=(T)k; } if(bad_option){ size_t at=r.below(x.v.size()); File b=x; b.v[at]=b.nd==20?21:20; wr(in,b); } args={in,out}; check=std_out(e); }
  else if(app=="rd_compare"){ writes=false; bad_option=false; File b=x; int how=r.range(0,3); if(how==1) for(int k=r.range(1,5);k--;){ size_t i=r.below(b.v.size()); b.v[i]=b.v[i]==7?8:7; } if(how==2){ b.w=std::max(1,x.w+r.range(-3,3)); b.h=std::max(1,x.h+r.range(-3,3)); b.v.assign((size_t)b.w*b.h,1); } if(how==3&&x.hasgt) b.gt[r.chance(0.5)?0:3]+=8; if(r.chance(0.3)) b.nd=b.nd==100?101:100; if(r.chance(0.3)) b.proj=projections()[r.below(projections().size())]; b.t=r.chance(0.7)?x.t:GDT_Float64; wr("in2.tif",b); File y=readfile("in2.tif"); if(!readfile(in).hasgt&&!y.hasgt) memcpy(y.gt,x.gt,sizeof y.gt); if(!y.hasgt){ double k[6]={1000,1,0,1000,0,-1}; memcpy(y.gt,k,sizeof k); } args={in,"in2.tif"};
    long diff=0; bool same=y.w==x.w&&y.h==x.h; if(same) for(size_t i=0;i<x.v.size();i++) diff+=!(x.v[i]==y.v[i]); bool g=memcmp(y.gt,x.gt,sizeof y.gt)!=0,n=y.nd!=x.nd,pr=y.proj!=x.proj; check=[=](const Proc&p){ auto has=[&](const char*s){ return p.out.find(s)!=std::string::npos; }; if(has("Geotransforms differ.")!=g) fail(app+":geotransform",c.ctx); if(has("NoData values differ.")!=n) fail(app+":nodata",c.ctx); if(has("Projections differ.")!=pr) fail(app+":projection",c.ctx); if(has("Widths differ.")!=(y.w!=c.in.w)) fail(app+":width",c.ctx); if(has("Heights differ.")!=(y.h!=c.in.h)) fail(app+":height",c.ctx); size_t i=p.out.find("values which differ = "); if(same&&(i==std::string::npos||atol(p.out.c_str()+i+22)!=diff)) fail(app+":count",p.out.substr(i==std::string::npos?0:i)+fmt(" expected %ld ",diff)+c.ctx); }; }
  else if(app=="rd_loop_check"){ args={in}; writes=false; bad_option=false; check=[](const Proc&){}; }
  else if(app=="rd_raster_display"){ static const char*fs[]={"noflip","fliph","flipv","fliphv"}; int k=r.range(0,3); args={in,bad_option?"flip":fs[k]}; writes=false; check=[=](const Proc&p){ auto l=lines(p.out); if((int)l.size()<c.in.h){ fail(app+":lines",c.ctx); return; } for(int y=0;y<c.in.h;y++){ std::stringstream s(l[l.size()-c.in.h+y]); for(int xx=0;xx<c.in.w;xx++){ int sx=k&1?c.in.w-1-xx:xx,sy=k&2?c.in.h-1-y:y; double v=1e99,e=std::trunc(c.in.v[(size_t)sy*c.in.w+sx]); s>>v; if(std::fabs(e)<2e9&&v!=e){ fail(app+":value",fmt("(%d,%d) shows %g expected %g ",xx,y,v,e)+c.ctx); return; } } } }; }
  else if(app=="rd_raster_inspect"){ bool fh=r.chance(0.3),fv=r.chance(0.3),centre=r.chance(0.4); int x0,x1,y0,y1; writes=false; if(fh) args.push_back(r.chance(0.5)?"-H":"--flipH"); if(fv) args.push_back(r.chance(0.5)?"-V":"--flipV"); args.push_back(in); bool outside=!bad_option&&r.chance(0.15);
    if(centre){ int cx=r.below(x.w),cy=r.below(x.h),rad=r.range(0,5); if(bad_option) cx=x.w+rad+r.range(1,5); for(int v:{cx,cy,rad}) args.push_back(std::to_string(v)); x0=std::max(0,cx-rad); x1=std::min(x.w-1,cx+rad); y0=std::max(0,cy-rad); y1=std::min(x.h-1,cy+rad); outside=false; } else { x0=r.below(x.w); x1=r.range(x0,x.w-1); y0=r.below(x.h); y1=r.range(y0,x.h-1); if(outside){ if(r.chance(0.5)) x1=x.w+r.range(0,20); else y1=x.h+r.range(0,2000); bad_option=true; } else if(bad_option){ x1=x0; x0=x1+1; } for(int v:{x0,x1,y0,y1}) args.push_back(std::to_string(v)); }
    check=[=](const Proc&p){ std::string t; for(size_t i=0;i<p.out.size();i++){ if(p.out[i]=='\033'){ while(i<p.out.size()&&p.out[i]!='m') i++; t+=' '; } else t+=p.out[i]; } auto l=lines(t); int n=y1-y0+1; if((int)l.size()<n+1){ fail(app+":lines",c.ctx); return; } for(int y=y0;y<=y1;y++){ std::stringstream s(l[l.size()-n+(y-y0)]); int yy=-1; s>>yy; if(yy!=y){ fail(app+":row",l[l.size()-n+(y-y0)]); return; } for(int xx=x0;xx<=x1;xx++){ int sx=fh?c.in.w-1-xx:xx,sy=fv?c.in.h-1-y:y; double v=1e99,e=c.in.v[(size_t)sy*c.in.w+sx]; s>>v; if(std::fabs(v-e)>1e-5*std::fabs(e)){ fail(app+":value",fmt("(%d,%d) shows %g expected %g ",xx,y,v,e)+c.ctx); return; } } } }; }
  else if(app=="rd_depression_hierarchy"){ bad_option=false; float lvl=(float)(x.v[r.below(x.v.size())]); if(r.chance(0.5)) lvl=-50; args={in,"pre",num(lvl)}; outs={"pre-label.tif","pre-graph.csv"}; Array2D<float> t(a); for(uint32_t i=0;i<(uint32_t)t.size();i++) t(i)=(float)x.v[i]; t.setNoData((float)x.nd); Array2D<dephier::dh_label_t> lab(t.width(),t.height(),dephier::NO_DEP); Array2D<flowdir_t> fd(t.width(),t.height(),NO_FLOW); bool ocean=false; for(uint32_t i=0;i<(uint32_t)t.size();i++) if(t.isNoData(i)||t(i)==lvl){ lab(i)=dephier::OCEAN; ocean=true; }
    dephier::DepressionHierarchy<float> deps; try{ if(ocean) deps=dephier::GetDepressionHierarchy<float,Topology::D8>(t,lab,fd); }catch(const std::runtime_error&){ ocean=false; } if(!ocean) bad_option=true; else { check=[=](const Proc&){ judge(app,"pre-label.tif",lab,c.in,"",{},c.ctx); auto l=lines(slurp("pre-graph.csv")); if(l.size()!=deps.size()||l[0]!="parent,child,oceanlink"){ fail(app+":graph-size",c.ctx); return; } for(size_t i=1;i<deps.size();i++){ uint32_t p=0,ch=0; int ol=-1; sscanf(l[i].c_str(),"%u,%u,%d",&p,&ch,&ol); bool child=deps[i].parent!=dephier::NO_VALUE&&deps[i].parent!=dephier::OCEAN&&(deps[deps[i].parent].lchild==i||deps[deps[i].parent].rchild==i); bool link=deps[i].parent!=dephier::NO_VALUE&&!child; if(p!=deps[i].parent||ch!=i||ol!=(int)link){ fail(app+":graph",l[i]+" "+c.ctx); return; } } }; } }
  else if(app=="rd_fill_spill_merge"){ // D8, elevations as double
    Array2D<double> t(a); for(uint32_t i=0;i<(uint32_t)t.size();i++) t(i)=x.v[i]; t.setNoData(x.nd); double lvl=r.chance(0.5)?x.v[r.below(x.v.size())]:-50; outs={"pre-wtd.tif","pre-hydrologic-surface-height.tif"}; Array2D<double> wtd(t,0); double swl=r.range(0,40)/8.0; bool file=r.chance(0.4); if(file){ File wf=x; wf.t=GDT_Float64; wf.hist.clear(); for(auto&v:wf.v) v=r.range(0,16)/8.0; if(bad_option){ wf.w++; wf.v.assign((size_t)wf.w*wf.h,1); } wr("in2.tif",wf); if(!bad_option) for(uint32_t i=0;i<(uint32_t)wtd.size();i++) wtd(i)=wf.v[i]; args={in,"pre",num(lvl),"--swf","in2.tif"}; } else { wtd.setAll(swl); args={in,"pre",num(lvl),"--swl",num(swl)}; if(bad_option) args.resize(3); }
    Array2D<dephier::dh_label_t> lab(t.width(),t.height(),dephier::NO_DEP); Array2D<flowdir_t> fd(t.width(),t.height(),NO_FLOW); wtd.setNoData(t.noData()); BucketFillFromEdges<Topology::D8>(t,lab,lvl,dephier::OCEAN); bool ocean=false; for(uint32_t i=0;i<(uint32_t)t.size();i++) if(t.isNoData(i)||lab(i)==dephier::OCEAN){ lab(i)=dephier::OCEAN; wtd(i)=0; ocean=true; }
    if(!ocean) bad_option=true; else if(!bad_option){ try{ auto deps=dephier::GetDepressionHierarchy<double,Topology::D8>(t,lab,fd); dephier::FillSpillMerge(t,lab,fd,deps,wtd); }catch(const std::runtime_error&){ bad_option=true; } Array2D<double> sur(wtd); for(uint32_t i=0;i<(uint32_t)t.size();i++) if(!t.isNoData(i)) sur(i)+=t(i); check=[=](const Proc&){ if(judge(app,"pre-wtd.tif",wtd,c.in,"",{},c.ctx)) judge(app+"-surface","pre-hydrologic-surface-height.tif",sur,c.in,"",{},c.ctx); }; } }
  else { // rd_merge_rasters_by_layout: a layout of tiles of equal size, cut from the raster
    writes=true; int tw=r.range(1,6),th=r.range(1,6),nx=r.range(1,4),ny=r.range(1,4); File m; m.w=tw*nx; m.h=th*ny; m.v.resize((size_t)m.w*m.h); for(auto&v:m.v) v=(double)(T)(r.range(0,200)); if(fl) for(auto&v:m.v) v+=r.range(0,3)/4.0; m.nd=std::numeric_limits<T>::is_signed?-9999:201; m.hasnd=true; m.t=NativeTypeToGDAL<T>(); m.proj=x.proj; memcpy(m.gt,x.gt,sizeof m.gt); std::string lay; for(int ty=0;ty<ny;ty++){ for(int tx=0;tx<nx;tx++){ File t=m; t.w=tw; t.h=th; t.hasgt=true; t.v.clear(); for(int y=0;y<th;y++)for(int k=0;k<tw;k++) t.v.push_back(m.v[(size_t)(ty*th+y)*m.w+tx*tw+k]); t.gt[0]=m.gt[0]+tx*tw*m.gt[1]; t.gt[3]=m.gt[3]+ty*th*m.gt[5]; std::string n=fmt("tile_%d_%d.tif",tx,ty); wr(n,t); lay+=n+","; } lay+="\n"; } FILE*f=fopen("lay.layout","w"); fputs(lay.c_str(),f); fclose(f); m.proj=readfile("tile_0_0.tif").proj; m.hasgt=true; args={"lay.layout",std::to_string(r.range(1,20)),out,"noflip"}; if(bad_option) args[0]="absent.layout"; Array2D<T> e(m.w,m.h); for(uint32_t i=0;i<(uint32_t)e.size();i++) e(i)=(T)m.v[i]; e.setNoData((T)m.nd); c.ctx+=fmt(" tiles %dx%d of %dx%d",nx,ny,tw,th); check=[=](const Proc&){ judge(app,out,e,m,"",{},c.ctx); }; }
  // what should go wrong
  const int none=0; int fault=bad_option?1:none; long fsize=-1; std::string fname=bad_option?"option":"";
  if(!fault&&r.chance(0.25)){ switch(r.range(0,5)){
    case 0: unlink(in.c_str()); if(app=="rd_merge_rasters_by_layout") unlink("lay.layout"); fault=2; fname="missing-input"; break;
    case 1: args.pop_back(); if(app=="rd_raster_inspect"&&args.size()>=4&&args[args.size()-4]==in) { args.pop_back(); } if((app=="rd_geotransform"||app=="rd_no_data")&&args.size()==1) args.clear(); fault=3; fname="too-few-arguments"; break;
    case 2: if(app=="rd_raster_inspect"){ while(args.size()<8) args.push_back("1"); } for(int k=0;k<2;k++) args.push_back("extra"); if(app=="rd_projection"||true){} fault=4; fname="too-many-arguments"; break;
    case 3: if(writes&&app!="rd_merge_rasters_by_layout"){ args[1]="absent/"+args[1]; fault=5; fname="unwritable-output"; } else if(writes){ args[2]="absent/out.tif"; fault=5; fname="unwritable-output"; } break;
    case 4: if(app!="rd_merge_rasters_by_layout"&&app!="rd_depression_hierarchy"&&app!="rd_fill_spill_merge"&&!((app=="rd_geotransform"||app=="rd_no_data"||app=="rd_processing_history")&&args.size()==1)&&app!="rd_raster_inspect"&&app!="rd_loop_check"){ GDALDatasetH d=GDALCreate(GDALGetDriverByName("GTiff"),in.c_str(),x.w,x.h,1,GDT_CFloat32,nullptr); GDALClose(d); fault=6; fname="complex-input"; } break;
    case 5: if(writes&&x.w*x.h*(int)sizeof(T)>2600&&app!="rd_merge_rasters_by_layout"){ fsize=x.w*x.h*(outs.size()==1&&inplace?sizeof(T):1)/2; fault=7; fname="disk-full"; } break; } }
  if(!check&&!fault) return; Proc p=runapp(app+".exe",args,fsize); std::string cmd; for(auto&s:args) cmd+=" "+s.substr(0,80); c.ctx="command"+cmd+" | "+c.ctx; if(report(app,p,c.ctx)) return;
  if(fault){ count("fault_"+fname); if(p.good()) fail(app+":success-despite-"+fname,p.err.substr(0,300)+" | "+c.ctx); else if(fault<=4||fault==6) for(auto&o:outs) if(exists(o)&&!(fname=="option"&&app=="rd_merge_rasters_by_layout")) fail(app+":output-despite-"+fname,o+" | "+c.ctx); return; }
  if(!p.good()){ fail(app+":failed",fmt("status %d ",p.status)+p.err.substr(p.err.size()>600?p.err.size()-600:0)+" | "+c.ctx); return; } count("succeeded_"+app); check(p);
}
#define X(T) RV_I##T
#if RV_PART==1
template void run<uint8_t>(Rng&);
#elif RV_PART==2
template void run<uint16_t>(Rng&);
#elif RV_PART==3
template void run<int16_t>(Rng&);
#elif RV_PART==4
template void run<uint32_t>(Rng&);
#elif RV_PART==5
template void run<int32_t>(Rng&);
#elif RV_PART==6
template void run<float>(Rng&);
#elif RV_PART==7
template void run<double>(Rng&);
#endif
#endif
}
#if RV_PART==0
using namespace rv;
int main(int n,char**v){ GDALAllRegister(); return main_loop(n,v,[](Rng&r,uint64_t){ switch(r.range(0,6)){ case 0: run<uint8_t>(r); break; case 1: run<uint16_t>(r); break; case 2: run<int16_t>(r); break; case 3: run<uint32_t>(r); break; case 4: run<int32_t>(r); break; case 5: run<float>(r); break; default: run<double>(r); } }); }
#endif
