// C25/C26: the tiled multi-process programs run under our own MPI (fakempi.hpp) on random tilings, orientations,
// retention strategies, process counts and message orders; every output file is compared with a single-raster computation.
#include "fakempi.hpp"
#define main program_main
#ifdef RV_PF
#define RV_ONE 0.3
#include <parallel_priority_flood/main.cpp>
#else
#define RV_ONE 0.5
#include <parallel_d8_accum/main.cpp>
#endif
#undef main
#include "gen.hpp"
#include <ogr_spatialref.h>
#include <dirent.h>
using namespace rv;
static const double UND=-1e300;
struct World { int W=0,H=0; std::vector<double> v; std::vector<char> out; /* NoData or missing tile */ std::vector<char> miss; double nd=255; };
static void rmfiles(){ DIR*d=opendir("."); if(!d) return; std::vector<std::string> dirs; while(auto*e=readdir(d)){ std::string n=e->d_name; if(n=="."||n=="..") continue; if(unlink(n.c_str())) dirs.push_back(n); } closedir(d); for(auto&n:dirs){ DIR*s=opendir(n.c_str()); if(!s) continue; while(auto*e=readdir(s)) if(e->d_name[0]!='.') unlink((n+"/"+e->d_name).c_str()); closedir(s); rmdir(n.c_str()); } }
static bool wtif(const std::string&f,int w,int h,const std::vector<double>&v,GDALDataType t,double nd,bool hasnd,const double*gt,const std::string&proj){
  GDALDriverH dr=GDALGetDriverByName("GTiff"); GDALDatasetH d=GDALCreate(dr,f.c_str(),w,h,1,t,nullptr); if(!d) return false; if(gt) GDALSetGeoTransform(d,(double*)gt); if(!proj.empty()) GDALSetProjection(d,proj.c_str()); GDALRasterBandH b=GDALGetRasterBand(d,1); if(hasnd) GDALSetRasterNoDataValue(b,nd); bool ok=GDALRasterIO(b,GF_Write,0,0,w,h,(void*)v.data(),w,h,GDT_Float64,0,0)==CE_None; GDALClose(d); return ok; }
static std::string utm(){ static std::string s; if(s.empty()){ OGRSpatialReference r; r.importFromEPSG(32615); char*w=nullptr; r.exportToWkt(&w); if(w) s=w; CPLFree(w); if(s.empty()) s="LOCAL_CS[\"x\"]"; } return s; }
#ifndef RV_PF
static std::vector<double> reference(const World&m){ // accumulation of acyclic D8 directions
  std::vector<double> a((size_t)m.W*m.H,0); std::vector<int> dep((size_t)m.W*m.H,0); static const int dx[9]={0,-1,-1,0,1,1,1,0,-1},dy[9]={0,0,-1,-1,-1,0,1,1,1};
  auto to=[&](int i)->int{ int n=(int)m.v[i]; if(n<1||n>8) return -1; int x=i%m.W+dx[n],y=i/m.W+dy[n]; if(x<0||y<0||x>=m.W||y>=m.H) return -1; int j=y*m.W+x; return m.out[j]?-1:j; };
  for(int i=0;i<m.W*m.H;i++) if(!m.out[i]){ int j=to(i); if(j>=0) dep[j]++; } std::vector<int> st; for(int i=0;i<m.W*m.H;i++) if(!m.out[i]&&!dep[i]) st.push_back(i); size_t seen=0;
  while(!st.empty()){ int i=st.back(); st.pop_back(); seen++; a[i]+=1; int j=to(i); if(j>=0){ a[j]+=a[i]; if(--dep[j]==0) st.push_back(j); } }
  for(int i=0;i<m.W*m.H;i++) if(m.out[i]) a[i]=-1; return a; }
static void fill_world(Rng&r,World&m){ static const int dx[9]={0,-1,-1,0,1,1,1,0,-1},dy[9]={0,0,-1,-1,-1,0,1,1,1}; int n=m.W*m.H; m.v.assign(n,0); std::vector<int> rank(n); int kind=r.range(0,4);
  // an order of the cells; each cell flows to a neighbour earlier in the order, off the raster, or nowhere
  if(kind==0){ Dem d; d.w=m.W; d.h=m.H; d.z.resize(n); d.nd.assign(n,0); surface(r,d,1000,false); std::vector<int> o(n); for(int i=0;i<n;i++) o[i]=i; std::stable_sort(o.begin(),o.end(),[&](int a,int b){ return d.z[a]<d.z[b]; }); for(int i=0;i<n;i++) rank[o[i]]=i; }
  else if(kind==1){ for(int i=0;i<n;i++) rank[i]=i; for(int i=n-1;i>0;i--) std::swap(rank[i],rank[r.below(i+1)]); }
  else if(kind==2){ for(int y=0;y<m.H;y++)for(int x=0;x<m.W;x++) rank[y*m.W+x]=y*m.W+((y&1)?m.W-1-x:x); } // serpentine
  else { // growth from a few seeds: long winding paths
    std::fill(rank.begin(),rank.end(),-1); int k=0; std::vector<int> fr; int seeds=r.range(1,3); while(k<n){ if(fr.empty()||(seeds>0)){ int s=r.below(n); if(rank[s]<0){ rank[s]=k++; fr.push_back(s); m.v[s]=0; } seeds--; if(fr.empty()) { for(int i=0;i<n;i++) if(rank[i]<0){ rank[i]=k++; fr.push_back(i); break; } } if(fr.empty()) break; continue; }
      size_t p=kind==3?fr.size()-1:r.below(fr.size()); int i=fr[p]; std::vector<int> c; for(int q=1;q<9;q++){ int x=i%m.W+dx[q],y=i/m.W+dy[q]; if(x>=0&&y>=0&&x<m.W&&y<m.H&&rank[y*m.W+x]<0) c.push_back(y*m.W+x); } if(c.empty()){ fr.erase(fr.begin()+p); continue; } int j=r.pick(c); rank[j]=k++; fr.push_back(j); } }
  double noflow=r.pick(std::vector<double>{0,0.01,0.1}),offp=r.pick(std::vector<double>{0,0.3,1});
  for(int i=0;i<n;i++){ int best=0,bo=1<<30; std::vector<int> lower,off; for(int q=1;q<9;q++){ int x=i%m.W+dx[q],y=i/m.W+dy[q]; if(x<0||y<0||x>=m.W||y>=m.H){ off.push_back(q); continue; } int j=y*m.W+x; if(rank[j]<rank[i]){ lower.push_back(q); int dist=rank[i]-rank[j]; if(dist<bo){ bo=dist; best=q; } } }
    int d=0; if(!off.empty()&&r.chance(offp)) d=r.pick(off); else if(!lower.empty()) d=(kind==0||r.chance(0.5))?(kind==0?lower[r.below(lower.size())]:best):r.pick(lower); else if(!off.empty()) d=r.pick(off); if(r.chance(noflow)) d=0; m.v[i]=d; } }
#else
static std::vector<double> reference(const World&m){ // level from which every cell drains off the data
  int n=m.W*m.H; std::vector<double> f(n,1e301); std::set<std::pair<double,int>> q; 
  for(int i=0;i<n;i++) if(!m.miss[i]){ int x=i%m.W,y=i/m.W; bool e=x==0||y==0||x==m.W-1||y==m.H-1; for(int b=-1;b<=1&&!e;b++)for(int a=-1;a<=1&&!e;a++) if(m.miss[(y+b)*m.W+x+a]) e=true; if(e){ f[i]=m.v[i]; q.insert({f[i],i}); } }
  while(!q.empty()){ auto c=*q.begin(); q.erase(q.begin()); int i=c.second,x=i%m.W,y=i/m.W; for(int b=-1;b<=1;b++)for(int a=-1;a<=1;a++){ int nx=x+a,ny=y+b; if(nx<0||ny<0||nx>=m.W||ny>=m.H) continue; int j=ny*m.W+nx; if(m.miss[j]) continue; double v=std::max(m.v[j],c.first); if(v<f[j]){ if(f[j]<1e300) q.erase({f[j],j}); f[j]=v; q.insert({v,j}); } } }
  for(int i=0;i<n;i++) if(m.miss[i]) f[i]=UND; return f; }
#endif
static void one_case(Rng&r,uint64_t){
  rmfiles(); World m; bool one=r.chance(RV_ONE); int tw=1,th=1,gx=1,gy=1; bool big=false;
#ifdef RV_PF
  if(one){ int mx=opts().thorough()?700:430; m.W=r.range(100,mx); m.H=r.range(100,mx); tw=r.chance(0.3)?-1:300; th=r.chance(0.3)?-1:r.range(300,310); auto fix=[&](int&s,int&t){ if(t>0&&s>t&&s%t!=0&&s%t<100) s=t+100+(int)r.below(60); }; fix(m.W,tw); fix(m.H,th); }
  else { tw=r.range(1,r.chance(0.2)?30:8); th=r.range(1,r.chance(0.2)?30:8); gx=r.range(1,5); gy=r.range(1,5); m.W=tw*gx; m.H=th*gy; }
  GDALDataType type=r.pick(std::vector<GDALDataType>{GDT_Byte,GDT_UInt16,GDT_Int16,GDT_UInt32,GDT_Int32,GDT_Float32,GDT_Float64}); bool integer=type!=GDT_Float32&&type!=GDT_Float64;
#else
  if(one){ m.W=r.range(1,40); m.H=r.range(1,40); tw=r.chance(0.1)?-1:r.range(1,15); th=r.chance(0.1)?-1:r.range(1,15); big=r.chance(0.004); if(big){ m.W=r.range(33000,36000); m.H=r.range(2,4); tw=r.chance(0.5)?-1:r.range(32900,40000); th=r.range(2,4); if(r.chance(0.5)){ std::swap(m.W,m.H); std::swap(tw,th); } } }
  else { tw=r.range(1,r.chance(0.2)?30:8); th=r.range(1,r.chance(0.2)?30:8); gx=r.range(1,5); gy=r.range(1,5); m.W=tw*gx; m.H=th*gy; }
  GDALDataType type=r.chance(0.7)?GDT_Byte:r.pick(std::vector<GDALDataType>{GDT_UInt16,GDT_Int16,GDT_UInt32,GDT_Int32,GDT_Float32,GDT_Float64}); bool integer=true; (void)integer;
#endif
  int n=m.W*m.H; m.out.assign(n,0); m.miss.assign(n,0); std::vector<char> null(gx*gy,0);
  if(!one){ double p=r.pick(std::vector<double>{0,0,0.15,0.4,0.7}); for(auto&c:null) c=r.chance(p); bool any=false; for(char c:null) any|=!c; if(!any) null[r.below(null.size())]=0; for(int y=0;y<m.H;y++)for(int x=0;x<m.W;x++) if(null[(y/th)*gx+x/tw]) m.miss[y*m.W+x]=m.out[y*m.W+x]=1; }
#ifdef RV_PF
  { Dem d; d.w=m.W; d.h=m.H; d.z.resize(n); d.nd.assign(n,0); int top=r.pick(std::vector<int>{2,5,20,100,200}); surface(r,d,top,integer); m.v=d.z; for(auto&v:m.v) v=integer?std::floor(v+20):(double)(float)v; m.nd=integer?0:-9999;
    if(r.chance(0.4)){ nodata(r,d,1); for(int i=0;i<n;i++) if(d.nd[i]){ m.v[i]=m.nd; m.out[i]=1; } } }
#else
  fill_world(r,m); if(r.chance(0.5)){ double p=r.pick(std::vector<double>{0.02,0.2,0.5}); for(int i=0;i<n;i++) if(r.chance(p)) m.out[i]=1; } 
  for(int i=0;i<n;i++) if(m.out[i]) m.v[i]=m.nd;
#endif
  bool hasnd=true; double cs=r.range(1,30); bool fh=!one&&r.chance(0.2),fv=!one&&r.chance(0.2),gh=!one&&r.chance(0.2),gv=!one&&r.chance(0.25); bool flipH=fh!=gh,flipV=fv!=gv; double gt0[6]={1000,gh?-cs:cs,0,5000,0,gv?cs:-cs}; bool hasgt=r.chance(0.9); if(!hasgt){ gh=false; gv=true; flipH=fh; flipV=!fv; } std::string proj=r.chance(0.08)?utm():"";
  // a file without a geotransform is taken as GDAL's default (0,1,0,0,0,1), whose rows run upwards; only single files are judged so
  if(!hasgt&&!one){ hasgt=true; gh=gt0[1]<0; gv=gt0[5]>0; flipH=fh!=gh; flipV=fv!=gv; }
  auto tilegt=[&](int x0,int y0,double*g){ memcpy(g,gt0,sizeof gt0); g[0]+=x0*gt0[1]; g[3]+=y0*gt0[5]; };
  struct Out{ std::string f; int x0,y0,w,h,gx,gy; bool fl; double gt[6]; }; std::vector<Out> outs; mkdir("in",0700); mkdir("out",0700); mkdir("ret",0700);
  bool useF=!one&&r.chance(0.4); std::string pat=std::string("out/o-")+(useF?"%f":"%n")+".tif"; int strat=r.range(0,2); std::string ret=strat==0?"@evict":strat==1?"@retain":(useF&&r.chance(0.5))?"ret/r-%f-":"ret/r-%n-"; std::string input;
  if(one){ input="in/all.tif"; if(!wtif(input,m.W,m.H,m.v,type,m.nd,hasnd,hasgt?gt0:nullptr,proj)) throw std::runtime_error("harness: cannot write input"); int bw=tw==-1?m.W:tw,bh=th==-1?m.H:th; for(int y=0,j=0;y<m.H;y+=bh,j++)for(int x=0,i=0;x<m.W;x+=bw,i++){ Out o{fmt("out/o-%d_%d.tif",i,j),x,y,std::min(bw,m.W-x),std::min(bh,m.H-y),i,j,false,{}}; tilegt(x,y,o.gt); outs.push_back(o); } }
  else { std::string lay; for(int j=0;j<gy;j++){ for(int i=0;i<gx;i++){ if(i) lay+=","; if(null[j*gx+i]){ if(i==gx-1) lay+=","; continue; } std::string nm=fmt("t%d%c.tif",i,'a'+j); lay+=nm; std::vector<double> v; for(int y=0;y<th;y++)for(int x=0;x<tw;x++){ int ax=i*tw+(flipH?tw-1-x:x),ay=j*th+(flipV?th-1-y:y); v.push_back(m.miss[ay*m.W+ax]?m.nd:m.v[ay*m.W+ax]); }
      Out o{useF?"out/o-"+nm.substr(0,nm.size()-4)+".tif":fmt("out/o-%d_%d.tif",i,j),i*tw,j*th,tw,th,i,j,true,{}}; tilegt(i*tw,j*th,o.gt); if(!wtif("in/"+nm,tw,th,v,type,m.nd,hasnd,o.gt,proj)) throw std::runtime_error("harness: cannot write input"); outs.push_back(o); } lay+="\n"; } input="in/l.layout"; FILE*f=fopen(input.c_str(),"w"); fputs(lay.c_str(),f); fclose(f); }
  std::vector<std::string> args={"prog"}; if(fv) args.push_back(r.chance(0.5)?"-V":"--flipV"); if(fh) args.push_back(r.chance(0.5)?"-H":"--flipH"); if(one){ args.push_back("-w"); args.push_back(std::to_string(tw)); args.push_back(r.chance(0.5)?"-h":"--bheight"); args.push_back(std::to_string(th)); } for(auto&s:{std::string(one?"one":"many"),ret,input,pat}) args.push_back(s);
  int P=r.range(2,std::min(6,(int)outs.size()+2)); std::string ctx=fmt("%dx%d %s tile %dx%d grid %dx%d P=%d %s type %s flips g%d%d u%d%d tiles %zu",m.W,m.H,one?"one":"many",tw,th,gx,gy,P,ret.c_str(),GDALGetDataTypeName(type),gh,gv,fh,fv,outs.size());
  op(std::string(one?"one:":"many:")+(strat==0?"evict":strat==1?"retain":"path")); const char*nm=(const char*)status()->op; std::string key=nm;
  auto o=fm::run(P,r,[&](int){ std::vector<char*> av; for(auto&s:args) av.push_back((char*)s.c_str()); av.push_back(nullptr); return program_main((int)args.size(),av.data()); });
  count("runs"); count("messages",o.msgs); count("scheduling_decisions",o.decisions); count(std::string("strategy_")+(strat==0?"evict":strat==1?"retain":"path")); count("tiles",outs.size()); for(char c:null) count("missing_tiles",c); if(big) count("tiles_with_perimeter_above_65535");
  Hash h; h.add(m.W); h.add(m.H); for(size_t i=0;i<m.v.size();i+=std::max<size_t>(1,m.v.size()/200)) h.addd(m.v[i]); h.add(o.trace); if(outs.size()>1) nontrivial(h.h);
  if(!o.ok){ fail(key+":"+(o.aborted?"aborted":o.problem),o.detail+" "+ctx); return; } for(size_t k=0;k<o.rc.size();k++) if(o.rc[k]!=0){ fail(key+":exit-code",fmt("rank %zu returned %d ",k,o.rc[k])+ctx); return; }
  auto e=reference(m); if(want_sample()) sample(ctx+fmt(" messages %llu decisions %llu trace %llx",(unsigned long long)o.msgs,(unsigned long long)o.decisions,(unsigned long long)o.trace));
  for(auto&t:outs){ std::string bad; GDALDatasetH d=GDALOpen(t.f.c_str(),GA_ReadOnly); if(!d){ fail(key+":output-missing",t.f+" "+ctx); return; } int w=GDALGetRasterXSize(d),hh=GDALGetRasterYSize(d); GDALRasterBandH b=GDALGetRasterBand(d,1);
    if(w!=t.w||hh!=t.h) bad="size"; else { std::vector<double> v((size_t)w*hh); if(GDALRasterIO(b,GF_Read,0,0,w,hh,v.data(),w,hh,GDT_Float64,0,0)!=CE_None) bad="unreadable"; else for(int y=0;y<hh&&bad.empty();y++)for(int x=0;x<w;x++){ int ax=t.x0+((t.fl&&flipH)?w-1-x:x),ay=t.y0+((t.fl&&flipV)?hh-1-y:y); count("cells"); double ex=e[ay*m.W+ax]; if(v[y*w+x]!=ex){ bad="values"; fail(key+":values",fmt("tile %d,%d cell %d,%d is %.17g expected %.17g ",t.gx,t.gy,x,y,v[y*w+x],ex)+ctx+(n<400?" "+dump(m.v,m.W,m.H,&m.out):"")); break; } }
      double g[6]; if(GDALGetGeoTransform(d,g)!=CE_None){ if(hasgt) bad="georeference"; } else if(hasgt) for(int i=0;i<6;i++) if(std::fabs(g[i]-t.gt[i])>1e-6) { if(bad.empty()) bad="georeference"; }
      int hn=0; double nd=GDALGetRasterNoDataValue(b,&hn);
#ifdef RV_PF
      if(!hn||nd!=m.nd) bad=bad.empty()?"nodata":bad; if(GDALGetRasterDataType(b)!=type) bad=bad.empty()?"type":bad;
#else
      if(!hn||nd!=-1) bad=bad.empty()?"nodata":bad; if(GDALGetRasterDataType(b)!=GDT_Float64) bad=bad.empty()?"type":bad;
#endif
      const char*pj=GDALGetProjectionRef(d); if((pj&&*pj)!=!proj.empty()) bad=bad.empty()?"projection":bad; }
    GDALClose(d); if(!bad.empty()){ if(bad!="values") fail(key+":"+bad,t.f+" "+ctx); return; } }
  // nothing else was written
  { DIR*d=opendir("out"); std::set<std::string> names; while(auto*e2=readdir(d)){ std::string s=e2->d_name; if(s[0]!='.') names.insert("out/"+s); } closedir(d); for(auto&t:outs) names.erase(t.f); names.erase("out/o-layout.layout"); names.erase("out/o-layout.tif"); for(auto&s:names) if(s.find(".aux.xml")==std::string::npos) fail(key+":extra-output",s+" "+ctx); }
  { std::ifstream f("out/o-layout.layout"); if(!f.good()) fail(key+":layout-missing",ctx); else { try{ LayoutfileReader lf("out/o-layout.layout"); size_t seen=0; bool bad=false; while(lf.next()){ if(lf.isNullTile()) continue; bool hit=false; for(auto&t:outs) if(t.gx==lf.getX()&&t.gy==lf.getY()&&t.f==lf.getFullPath()) hit=true; bad|=!hit; seen++; } if(bad||seen!=outs.size()) fail(key+":layout-wrong",ctx); }catch(const std::exception&x){ fail(key+":layout-unreadable",std::string(x.what())+" "+ctx); } } }
}
int main(int argc,char**argv){ setenv("GDAL_PAM_ENABLED","NO",1); setenv("GDAL_DRIVER_PATH","disable",1); GDALAllRegister(); CPLSetErrorHandler(CPLQuietErrorHandler); utm(); std::cerr.rdbuf()->pubsetbuf(nullptr,0); return main_loop(argc,argv,[](Rng&r,uint64_t c){ one_case(r,c); }); }
