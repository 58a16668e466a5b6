// C17: native format and eviction histories, with truncated / foreign files and write faults.
#include "gen.hpp"
#include <sys/resource.h>
using namespace rv; using namespace richdem;
static std::string hist;
template<class T> struct M { int w=0,h=0; std::vector<T> v; T nd=(T)-1; std::vector<double> gt; std::string proj; int xo=0,yo=0; };
template<class T> T v17(Rng&r){ using L=std::numeric_limits<T>; switch(r.range(0,6)){ case 0: return L::max(); case 1: return L::lowest(); case 2: return (T)r.next(); case 3: if constexpr(!L::is_integer) return L::infinity(); return 0; case 4: if constexpr(!L::is_integer) return (T)(r.unit()*1e-20); return 1; default: return (T)r.range(0,9);} }
static std::string slurp(const std::string&f){ std::ifstream i(f,std::ios::binary); std::ostringstream o; o<<i.rdbuf(); return o.str(); }
static void spit(const std::string&f,const std::string&d){ std::ofstream o(f,std::ios::binary|std::ios::trunc); o.write(d.data(),d.size()); }
template<class T> std::string diff(const Array2D<T>&a,const M<T>&m,bool data,bool native_gt){ std::vector<double> g=m.gt; if(native_gt&&g.empty()) g.assign(6,0.0); if(a.width()!=m.w||a.height()!=m.h) return "size"; if(!(a.noData()==m.nd)) return "nodata"; if(a.geotransform!=g) return "geotransform"; if(a.projection!=m.proj) return "projection"; if(a.viewXoff()!=m.xo||a.viewYoff()!=m.yo) return "window-offset";
  if(data){ if(a.empty()!=m.v.empty()) return "no-values"; uint32_t c=0; for(size_t i=0;i<m.v.size();i++){ count("cells"); if(a((uint32_t)i)!=m.v[i]) return "values"; c+=m.v[i]!=m.nd; if(a.isNoData((uint32_t)i)!=(m.v[i]==m.nd)) return "isNoData"; } if(a.numDataCells()!=c) return "data-cell-count"; int w=m.w; for(int n=1;n<=8&&m.v.size();n++) if(a.nshift(n)!=DY8[n]*w+DX8[n]) return "nshift"; } else if(!a.empty()) return "values-present"; return ""; }
template<class T,class U> void other_size(const std::string&f,const char*nm){ if(sizeof(T)==sizeof(U)) return; bool t=false; try{ Array2D<U> b(f,true); }catch(const std::exception&){ t=true; } if(!t) fail(std::string("foreign:")+nm,hist); count("foreign_refused"); }
template<class T> void run(Rng&r,uint64_t cs){
  hist.clear(); Hash hh; hh.add(cs); auto h=[&](const std::string&s){ hist+=s+";"; hh.adds(s); }; hist=TypeInfo<T>::name(); hist+=":";
  M<T> m; bool zero=r.chance(0.05); m.w=zero?0:r.range(1,12); m.h=zero&&r.chance(0.5)?0:r.range(1,12); auto newgeo=[&]{ if(r.chance(0.8)) m.gt={r.unit()*100,1.5,r.unit(),r.unit()*100,0,-2}; else m.gt.clear(); int n=r.range(0,60); m.proj.clear(); for(int i=0;i<n;i++) m.proj+=(char)(r.chance(0.05)?r.range(0,255):r.range(32,126)); };
  for(int i=0;i<m.w*m.h;i++) m.v.push_back(v17<T>(r)); newgeo(); if(m.v.size()&&r.chance(0.5)) m.nd=m.v[r.below(m.v.size())];
  Array2D<T> a(m.w,m.h);
  if constexpr(sizeof(T)<8||std::is_same<T,double>::value) if constexpr(!std::is_same<T,int8_t>::value) if(m.w>0&&m.h>0&&r.chance(0.3)){ m.xo=r.range(0,5); m.yo=r.range(0,5); Array2D<T> full(m.xo+m.w+r.range(0,2),m.yo+m.h+r.range(0,2),(T)3); full.geotransform={0,1,0,0,0,-1}; full.saveGDAL("full.tif"); a=Array2D<T>("full.tif",false,m.xo,m.yo,m.w,m.h); h("window"); count("windows"); }
  auto sync=[&]{ for(size_t i=0;i<m.v.size();i++) a((uint32_t)i)=m.v[i]; a.setNoData(m.nd); a.geotransform=m.gt; a.projection=m.proj; }; sync(); a.metadata["x"]="y"; a.basename="b";
  a.setCacheFilename("c0.dat"); bool loaded=true; 
  struct File{ bool ok=false; M<T> m; }; std::vector<File> files(3); int cur=0; bool cached=false; // 'cur' is the file that loadData would read, once cached
  auto F=[&](const std::string&k){ fail(k,hist); };
  int steps=opts().thorough()?40:18;
  for(int s=0;s<steps&&st().violcount.empty();s++){ int k=r.below(3); std::string fn=fmt("c%d.dat",k); std::string e; int c=r.range(0,12);
    switch(c){
      case 0: case 1: if(!loaded) break; h("save"+fn); op("saveToCache"); a.saveToCache(fn); files[k].ok=true; files[k].m=m; cur=k; cached=true; if(!(e=diff(a,m,true,false)).empty()) F("saveToCache:changed-"+e); count("saves"); break;
      case 2: case 3: case 4: if(!loaded) break; h("dump"); op("dumpData"); a.dumpData(); files[cur].ok=true; files[cur].m=m; cached=true; loaded=false; if(!(e=diff(a,m,false,false)).empty()) F("dumpData:"+e); if(a.metadata["x"]!="y"||a.basename!="b") F("dumpData:metadata"); count("evictions"); break;
      case 5: case 6: { if(loaded){ if(m.v.empty()) break; h("load-again"); op("loadData"); bool t=false; try{ a.loadData(); }catch(const std::exception&){ t=true; } if(!t) F("loadData:twice-accepted"); break; } h("load"); op("loadData"); m=files[cur].m; if(m.gt.empty()) m.gt.assign(6,0.0); a.loadData(); loaded=true; if(!(e=diff(a,m,true,true)).empty()) F("loadData:"+e); if(a.metadata["x"]!="y"||a.basename!="b") F("loadData:metadata"); count("reloads"); break; }
      case 7: if(!loaded||m.v.empty()) break; h("write"); { int n=r.range(1,5); for(int i=0;i<n;i++){ size_t j=r.below(m.v.size()); m.v[j]=v17<T>(r); a((uint32_t)j)=m.v[j]; } a.countDataCells(); } break;
      case 8: if(!loaded) break; h("props"); newgeo(); a.geotransform=m.gt; a.projection=m.proj; if(r.chance(0.5)){ m.nd=m.v.size()&&r.chance(0.7)?m.v[r.below(m.v.size())]:v17<T>(r); a.setNoData(m.nd); } break;
      case 9: { if(!files[k].ok) { h("missing"+fn); op("load-missing"); bool t=false; try{ Array2D<T> b("no-"+fn,true); }catch(const std::exception&){ t=true; } if(!t) F("load-missing:accepted"); break; } h("open"+fn); op("load-native"); bool data=r.chance(0.6); Array2D<T> b(fn,true,0,0,0,0,false,data); if(!(e=diff(b,files[k].m,data,true)).empty()) F(std::string(data?"load-native:":"load-native-without-data:")+e); if(!data){ bool t=false; if(files[k].m.v.size()){ try{ b.saveToCache("x.dat"); }catch(const std::exception&){ t=true; } if(!t) F("saveToCache:without-data-accepted"); } b.loadData(); if(!(e=diff(b,files[k].m,true,true)).empty()) F("load-native-later:"+e); } count("opens"); break; }
      case 10: { if(!files[k].ok) break; h("truncate"+fn); op("truncated-native"); std::string d=slurp(fn); std::vector<size_t> cuts; if(d.size()<160) for(size_t i=0;i<d.size();i++) cuts.push_back(i); else for(int i=0;i<24;i++) cuts.push_back(r.chance(0.3)?d.size()-1-r.below(9):r.below(d.size())); 
        for(size_t n:cuts){ spit("t.dat",d.substr(0,n)); bool t=false; std::string df="x"; try{ Array2D<T> b("t.dat",true); df=diff(b,files[k].m,true,true); }catch(const std::exception&){ t=true; } if(!t&&!df.empty()) F(fmt("truncated:accepted:%s",df.c_str())); count(t?"truncations_reported":"truncations_harmless"); }
        { std::string x=d; int n=r.range(1,9); for(int i=0;i<n;i++) x+=(char)r.next(); spit("t.dat",x); std::string df="x"; bool t=false; try{ Array2D<T> b("t.dat",true); df=diff(b,files[k].m,true,true); }catch(const std::exception&){ t=true; } if(!t&&!df.empty()) F("extended:accepted:"+df); } break; }
      case 11: { h("foreign"); op("foreign-native"); if(files[k].ok&&files[k].m.v.size()){ other_size<T,uint8_t>(fn,"u8"); other_size<T,int16_t>(fn,"i16"); other_size<T,float>(fn,"f32"); other_size<T,double>(fn,"f64"); } std::string d; int n=r.range(0,600); int kind=r.range(0,2); for(int i=0;i<n;i++) d+=kind==0?(char)r.next():kind==1?(char)r.range(32,126):(char)(r.chance(0.8)?0:r.range(0,3)); spit("t.dat",d); bool t=false; try{ Array2D<T> b("t.dat",true); if(b.width()>=0&&b.height()>=0&&b.size()==0) t=true; }catch(const std::exception&){ t=true; } if(!t) F("foreign:accepted"); count("foreign_refused"); 
        if(r.chance(0.3)){ Array2D<int> g(3,3,1); g.saveGDAL("g.tif"); t=false; try{ Array2D<T> b("g.tif",true); }catch(const std::exception&){ t=true; } if(!t) F("foreign:geotiff-accepted"); } break; }
      default: { if(!loaded) break; h("fault"); op("save-fault"); bool t=false; try{ a.saveToCache("missing-dir/c.dat"); }catch(const std::exception&){ t=true; } if(!t) F("saveToCache:missing-directory-accepted"); if(!(e=diff(a,m,true,false)).empty()) F("save-fault:changed-"+e);
        std::string q=fmt("c%d.dat",cur); struct rlimit o,l; getrlimit(RLIMIT_FSIZE,&o); l=o; l.rlim_cur=r.below(m.v.size()*sizeof(T)+m.proj.size()+90); t=false; bool dump=r.chance(0.5); setrlimit(RLIMIT_FSIZE,&l); try{ if(dump) a.dumpData(); else a.saveToCache(q); }catch(const std::exception&){ t=true; } setrlimit(RLIMIT_FSIZE,&o);
        if(t){ count("faults_reported"); files[cur].ok=false; if(!(e=diff(a,m,true,false)).empty()) F("save-fault:lost-"+e); a.saveToCache(q); files[cur].ok=true; files[cur].m=m; cached=true; }
        else { files[cur].ok=true; files[cur].m=m; cached=true; if(dump) loaded=false; std::string df="x"; try{ Array2D<T> b(q,true); df=diff(b,m,true,true); }catch(const std::exception&x){ df=x.what(); } if(!df.empty()) F("save-fault:unreported"); else count("faults_harmless"); } } }
    count("steps"); }
  nontrivial(hh.h); if(want_sample()) sample(hist);
}
int main(int n,char**v){ signal(SIGXFSZ,SIG_IGN); return main_loop(n,v,[](Rng&r,uint64_t c){ st().violcount.clear(); switch(r.range(0,8)){ case 0:run<uint8_t>(r,c);break; case 1:run<uint16_t>(r,c);break; case 2:run<int16_t>(r,c);break; case 3:run<uint32_t>(r,c);break; case 4:run<int32_t>(r,c);break; case 5:run<float>(r,c);break; case 6:run<int64_t>(r,c);break; case 7: run<int8_t>(r,c); break; default:run<double>(r,c);} }); }
