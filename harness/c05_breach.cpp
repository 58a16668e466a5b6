// C05: breaching.
#include "gen.hpp"
#include <richdem/depressions/depressions.hpp>
using namespace rv; using namespace richdem;

template<class T> struct Pits { std::vector<char> strict, pit; std::vector<double> lvl; };
// interior, not next to NoData: strict local minima and local minima (<=)
template<class T> Pits<T> find_pits(const Dem&d,bool d4){
  Pits<T> p; p.strict.assign(d.z.size(),0); p.pit=p.strict; p.lvl=d.z;
  for(int y=0;y<d.h;y++)for(int x=0;x<d.w;x++){ size_t i=(size_t)y*d.w+x; if(d.nd[i]||d.edge(x,y)) continue; double lo=1e300; bool nn=false; for(int n=1;n<=8;n++){ if(d4&&n%2==0) continue; if(d.isnd(x+DX8[n],y+DY8[n])) nn=true; else lo=std::min(lo,d.at(x+DX8[n],y+DY8[n])); } if(nn) continue; if(d.z[i]<lo){ p.strict[i]=1; p.lvl[i]=lo; } if(d.z[i]<=lo) p.pit[i]=1; }
  // raising an isolated pit can leave its lowest neighbour as part of a flat bottom: that is a pit too
  for(int y=0;y<d.h;y++)for(int x=0;x<d.w;x++){ size_t i=(size_t)y*d.w+x; if(d.nd[i]||d.edge(x,y)||p.pit[i]) continue; for(int n=1;n<=8;n++){ if(d4&&n%2==0) continue; if(!d.in(x+DX8[n],y+DY8[n])) continue; size_t k=(size_t)(y+DY8[n])*d.w+x+DX8[n]; if(p.strict[k]&&p.lvl[k]==d.z[i]) p.pit[i]=1; } }
  return p;
}
template<class T> std::string ctx(const Dem&d,const Array2D<T>&a,int i){ return fmt("type %s cell (%d,%d) %.17g -> %.17g; in ",TypeInfo<T>::name(),i%d.w,i/d.w,d.z[i],(double)a((uint32_t)i))+dump(d)+" out "+dumpA(a); }

// what every mode must respect; returns count of lowered / raised cells
template<class T> bool common(const std::string&nm,const Dem&d,const Array2D<T>&a,T ndv,const Pits<T>&p,const std::vector<double>&F,bool filling,bool eps,size_t&low,size_t&up){
  low=up=0; double slack=0; if(eps){ double mx=1; for(size_t i=0;i<d.z.size();i++) if(!d.nd[i]) mx=std::max(mx,std::fabs(d.z[i])); slack=((double)std::nextafter((T)mx,(T)1e30)-(double)(T)mx)*d.z.size(); }
  std::map<double,double> levels; for(size_t i=0;i<d.z.size();i++) if(p.pit[i]){ auto&v=levels[p.lvl[i]]; v=std::max(v,F[i]); if(levels[p.lvl[i]]<F[i]) levels[p.lvl[i]]=F[i]; }
  for(int i=0;i<(int)d.z.size();i++){ T g=a((uint32_t)i);
    if(d.nd[i]){ if(g!=ndv){ fail(nm+":nodata-altered",ctx(d,a,i)); return false; } continue; }
    if(g==ndv){ fail(nm+":became-nodata",ctx(d,a,i)); return false; }
    if((double)g>d.z[i]){ up++; double lim= filling? F[i]+slack : p.strict[i]? p.lvl[i] : d.z[i]; if((double)g>std::max(lim,p.strict[i]?p.lvl[i]:d.z[i])){ fail(nm+":raised",ctx(d,a,i)); return false; } }
    if((double)g<d.z[i]){ low++; if(!eps&&!filling){ } }
  }
  return true;
}
template<class T> bool drained(const Dem&d,const Array2D<T>&a,bool d4,int&bad){ Dem e=d; for(size_t i=0;i<d.z.size();i++) e.z[i]=a((uint32_t)i); auto F=ref_fill(e,d4); for(size_t i=0;i<d.z.size();i++) if(!d.nd[i]&&F[i]>e.z[i]){ bad=(int)i; return false; } return true; }

template<class T> void one(Rng&r){
  T ndv; int maxdim=opts().thorough()? (r.chance(0.05)?90:34) : (r.chance(0.04)?50:22);
  Dem d=make_dem<T>(r,maxdim,r.chance(0.4)?1:0,ndv);
  for(size_t i=0;i<d.z.size();i++) if(d.z[i]<=(double)ndv+1) d.z[i]=(double)(T)((double)ndv+2);   // keep data above NoData
  Array2D<T> a0; to_array(d,ndv,a0);
  for(int t=0;t<2;t++){ const bool d4=t; auto F=ref_fill(d,d4); auto p=find_pits<T>(d,d4);
    size_t deps=0; for(size_t i=0;i<d.z.size();i++) if(!d.nd[i]&&F[i]>d.z[i]) deps++;
    if(deps&&!d4){ nontrivial(hash(d)); if(want_sample()) sample(std::string(TypeInfo<T>::name())+" "+dump(d)); }
    std::map<double,double> lv; for(size_t i=0;i<d.z.size();i++) if(p.pit[i]){ auto it=lv.emplace(p.lvl[i],F[i]).first; it->second=std::max(it->second,F[i]); }
    auto complete=[&](const std::string&nm,auto f,bool eps){
      op(nm); Array2D<T> a(a0); f(a); count("breaches"); size_t lo,up; if(!common(nm,d,a,ndv,p,F,false,eps,lo,up)) return; count("lowered",lo); count("pits_raised",up);
      int bad; if(!drained(d,a,d4,bad)){ fail(nm+":depression-left",ctx(d,a,bad)); return; }
      if(!eps) for(int i=0;i<(int)d.z.size();i++) if(!d.nd[i]&&(double)a((uint32_t)i)<d.z[i]){ auto it=lv.find((double)a((uint32_t)i)); if(it==lv.end()){ fail(nm+":channel-level-is-no-pit-level",ctx(d,a,i)); return; } if(d.z[i]>it->second){ fail(nm+":channel-above-spill",ctx(d,a,i)); return; } }
      if(!deps&&lo==0&&up==0) count("clean_unchanged");
      if(!deps) for(int i=0;i<(int)d.z.size();i++) if(!eps&&!d.nd[i]&&(double)a((uint32_t)i)!=d.z[i]){ fail(nm+":altered-draining-surface",ctx(d,a,i)); return; }
    };
    if(d4){ complete("CompleteBreaching<D4>",[](auto&a){CompleteBreaching_Lindsay2016<Topology::D4>(a);},false); complete("BreachDepressions<D4>",[](auto&a){BreachDepressions<Topology::D4>(a);},false); }
    else { complete("CompleteBreaching<D8>",[](auto&a){CompleteBreaching_Lindsay2016<Topology::D8>(a);},false); complete("BreachDepressions<D8>",[](auto&a){BreachDepressions<Topology::D8>(a);},false);
      complete("Lindsay2016-complete",[](auto&a){Lindsay2016(a,COMPLETE_BREACHING,false,false,0,(decltype(a.noData()))0);},false);
      if(std::is_floating_point<T>::value) complete("Lindsay2016-complete-eps",[](auto&a){Lindsay2016(a,COMPLETE_BREACHING,true,false,0,(decltype(a.noData()))0);},true);
      // limited modes
      for(int k=0;k<3;k++){ int mode=r.chance(0.5)?SELECTIVE_BREACHING:CONSTRAINED_BREACHING; bool fill=r.chance(0.5), eps=std::is_floating_point<T>::value&&r.chance(0.3); uint32_t ml=r.chance(0.2)?1000000:r.range(0,12); int md=r.chance(0.2)?100:r.range(0,8);
        const std::string nm=std::string("Lindsay2016-")+(mode==SELECTIVE_BREACHING?"selective":"constrained")+(eps?"-eps":"")+(fill?"-fill":""); op(nm);
        Array2D<T> a(a0); Lindsay2016(a,mode,eps,fill,ml,(T)md); count("limited_runs"); size_t lo,up; if(!common(nm,d,a,ndv,p,F,fill,eps,lo,up)) continue;
        size_t np=0; for(char c:p.pit) np+=c;
        // np pits, each dug at most once, none deeper or longer than allowed (epsilon mode may dig a few ulps deeper)
        double mx=1; for(size_t i=0;i<d.z.size();i++) if(!d.nd[i]) mx=std::max(mx,std::fabs(d.z[i])); double slack=eps?mx*1e-6*d.z.size():1e-5*mx;
        for(int i=0;i<(int)d.z.size();i++) if(!d.nd[i]&&d.z[i]-(double)a((uint32_t)i)>(double)md*np+slack){ fail(nm+":too-deep",fmt("limits len %u depth %d pits %zu ",ml,md,np)+ctx(d,a,i)); break; }
        if(!eps&&lo>(size_t)ml*np) fail(nm+":too-long",fmt("limits len %u depth %d pits %zu lowered %zu ",ml,md,np,lo)+ctx(d,a,0));
        int bad; if(fill&&!drained(d,a,false,bad)) fail(nm+":depression-left",fmt("limits len %u depth %d ",ml,md)+ctx(d,a,bad));
      } }
  }
}
// A DEM with exactly one pit, all other cells distinct: the channel is known from complete breaching, so the limits can be judged exactly.
template<class T> void single(Rng&r){
  Dem d; d.w=r.range(5,14); d.h=r.range(5,14); d.nd.assign((size_t)d.w*d.h,0); d.z.assign(d.nd.size(),0); d.kind="single-pit";
  int px=r.range(2,d.w-3),py=r.range(2,d.h-3); std::vector<double> base(d.z.size());
  for(int y=0;y<d.h;y++)for(int x=0;x<d.w;x++){ int e=std::min(std::min(x,y),std::min(d.w-1-x,d.h-1-y)); double dist=std::max(std::abs(x-px),std::abs(y-py)); double rim=r.range(20,40); d.at(x,y)= e==0? 5+r.unit()*0.9 : 30+ (dist)*3+r.unit()*0.9; }
  d.at(px,py)=10+r.unit();
  for(auto&v:d.z) v=(double)(T)v;
  T ndv=-9999; Array2D<T> a0; to_array(d,ndv,a0); auto p=find_pits<T>(d,false); size_t np=0; for(char c:p.strict) np+=c; size_t npp=0; for(char c:p.pit) npp+=c; if(np!=1) { count("single_rejected"); return; }
  (void)npp;
  Array2D<T> C(a0); op("single-complete"); Lindsay2016(C,COMPLETE_BREACHING,false,false,0,(T)0); size_t L=1; double D=0; for(size_t i=0;i<d.z.size();i++){ double q=d.z[i]-(double)C((uint32_t)i); if(q>0){ L++; D=std::max(D,q);} }
  if(L<2){ count("single_rejected"); return; }
  count("single_pit_cases"); { Hash h; h.add(hash(d)); nontrivial(h.h);} 
  // the path may also contain cells already exactly at the channel level; values are distinct so it cannot here
  Array2D<T> P(a0); for(size_t i=0;i<d.z.size();i++) if(p.strict[i]) P((uint32_t)i)=(T)p.lvl[i];
  auto run=[&](int mode,uint32_t ml,T md,const char*what){ Array2D<T> a(a0); op(std::string("single-")+what); Lindsay2016(a,mode,false,false,ml,md); return a; };
  auto same=[&](const Array2D<T>&a,const Array2D<T>&b){ for(uint32_t i=0;i<a.size();i++) if(a(i)!=b(i)) return false; return true; };
  // raising the pit to its lowest neighbour makes that neighbour a (flat) pit as well, so the channel may be dug twice
  T big=1000; T dless=(T)(D*0.3), deq=(T)(D+1);
  for(int mode: {(int)SELECTIVE_BREACHING,(int)CONSTRAINED_BREACHING}){ std::string mn=mode==SELECTIVE_BREACHING?"selective":"constrained";
    if(!same(run(mode,1000000,big,"roomy"),C)) fail("single-"+mn+":roomy-limits-differ-from-complete",dump(d));
    // the cell after the last lowered one ends the path, so L+1 is certainly enough and L-1 certainly too short
    if(!same(run(mode,(uint32_t)L+1,deq,"just-fits"),C)) fail("single-"+mn+":fitting-path-not-dug",fmt("len %zu depth %g ",L,D)+dump(d));
  }
  if(!same(run(SELECTIVE_BREACHING,(uint32_t)L-2,big,"short"),P)) fail("single-selective:dug-beyond-length",fmt("len %zu depth %g ",L,D)+dump(d));
  if(!same(run(SELECTIVE_BREACHING,1000000,dless,"shallow"),P)) fail("single-selective:dug-beyond-depth",fmt("len %zu depth %g limit %g ",L,D,(double)dless)+dump(d));
  { auto a=run(CONSTRAINED_BREACHING,1000000,dless,"c-shallow"); for(uint32_t i=0;i<a.size();i++) if(d.z[i]-(double)a(i)>2*(double)dless+1e-4){ fail("single-constrained:dug-beyond-depth",fmt("len %zu depth %g limit %g cell %u dug %g ",L,D,(double)dless,i,d.z[i]-(double)a(i))+dump(d)); break; } else if((double)a(i)<std::min(d.z[i],(double)C(i))){ fail("single-constrained:dug-off-channel",dump(d)); break; } }
  { auto a=run(CONSTRAINED_BREACHING,(uint32_t)(L-2)/2,big,"c-short"); size_t n=0; for(uint32_t i=0;i<a.size();i++){ if((double)a(i)<d.z[i]) n++; if((double)a(i)<std::min(d.z[i],(double)C(i))){ fail("single-constrained:dug-off-channel",dump(d)); break; } } if(n>L-2) fail("single-constrained:dug-beyond-length",fmt("len %zu dug %zu ",L,n)+dump(d)); }
}
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t){ if(r.chance(0.2)){ if(r.chance(0.5)) single<float>(r); else single<double>(r); return; } switch(r.range(0,4)){case 0:one<float>(r);break;case 1:one<double>(r);break;case 2:one<uint8_t>(r);break;case 3:one<int16_t>(r);break;default:one<int32_t>(r);} }); }
