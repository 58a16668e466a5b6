// C08: each metric against a direct transcription of its definition.
#include "flow.hpp"
using namespace rv;
template<class T> void one(Rng&r){
  T ndv; Dem d=flow_dem<T>(r,ndv,70,22); Array2D<T> a; to_array(d,ndv,a); seed_rand(r.range(0,1<<30)); Array3D<float> p(a); bool nt=false;
  const double R2=std::sqrt(2.0);
  for(int m=0;m<NMET;m++){ const auto&M=METRICS[m]; double xp=pick_x(r); op(M.name); run_fm(m,a,p,xp); std::string nm=M.name; bool bad=false;
    for(int y=0;y<d.h&&!bad;y++)for(int x=0;x<d.w&&!bad;x++){ if(d.isnd(x,y)||d.edge(x,y)) continue; auto where=[&]{ std::string s=fmt("cell (%d,%d) x=%g z=%.17g nbrs",x,y,xp,d.at(x,y)); for(int n=1;n<=8;n++) s+= d.isnd(x+DX8[n],y+DY8[n])?" N":fmt(" %.17g",d.at(x+DX8[n],y+DY8[n])); return s+" props "+props_str(p,x,y)+" in "+dump(d); };
      double g[9]={0},gm=0; for(int n=1;n<=8;n++){ if(M.d4&&n%2==0) continue; int nx=x+DX8[n],ny=y+DY8[n]; if(d.isnd(nx,ny)) continue; double dz=d.at(x,y)-d.at(nx,ny); if(dz>0){ g[n]=dz/(n%2?1.0:R2); gm=std::max(gm,g[n]); } }
      std::vector<int> to; for(int n=1;n<=8;n++) if(p(x,y,n)>0) to.push_back(n); bool has=p(x,y,0)==HAS_FLOW_GEN; if(gm>0) nt=true; count("cells");
      if(m<2){ // D-infinity
        double best=0; struct F{double s,r;int e1,e2;}; std::vector<F> fs; for(int c=1;c<=7;c+=2) for(int k=-1;k<=1;k+=2){ int e=c+k; if(e==0) e=8; if(e==9) e=1; if(d.isnd(x+DX8[c],y+DY8[c])||d.isnd(x+DX8[e],y+DY8[e])) continue; double e0=d.at(x,y),e1=d.at(x+DX8[c],y+DY8[c]),e2=d.at(x+DX8[e],y+DY8[e]); double s1=e0-e1,s2=e1-e2,rr=std::atan2(s2,s1),s; if(rr<=0){ rr=0; s=s1; } else if(rr>=M_PI/4){ rr=M_PI/4; s=(e0-e2)/R2; } else s=std::hypot(s1,s2); fs.push_back({s,rr,c,e}); best=std::max(best,s); }
        if((best>0)!=has){ fail(nm+":flow-where-no-descent-or-missing",where()); bad=true; continue; } if(!has) continue;
        bool ok=false; for(auto&f:fs) if(f.s>=best*(1-1e-7)){ double w2=f.r/(M_PI/4),w1=1-w2; bool good=true; for(int n=1;n<=8;n++){ double want=n==f.e1?w1:n==f.e2?w2:0,got=std::max(0.f,p(x,y,n)); if(std::fabs(want-got)>1e-4) good=false; } ok|=good; }
        if(!ok){ fail(nm+":not-steepest-facet-angle-split",where()); bad=true; } continue; }
      if((gm>0)!=has){ fail(nm+":flow-missing-or-unfounded",where()); bad=true; continue; }
      if(!has) continue;
      if(m==2||m==3||m==4){ double ex=m==3?1:xp,S=0,W[9]={0}; bool holm=m!=4; double mx=0; for(int n=1;n<=8;n++) mx=std::max(mx,g[n]*(holm?(n%2?0.5:0.354):1)); for(int n=1;n<=8;n++) if(g[n]>0){ W[n]=std::pow(g[n]*(holm?(n%2?0.5:0.354):1)/mx,ex); S+=W[n]; }
        for(int n=1;n<=8;n++){ double want=W[n]/S,got=std::max(0.f,p(x,y,n)); if(std::fabs(want-got)>1e-5+(holm?want*0.0015*ex:0)){ fail(nm+":wrong-share",fmt("direction %d want %.9g got %.9g; ",n,want,got)+where()); bad=true; break; } } continue; }
      // single-direction metrics
      if(to.size()!=1||p(x,y,to[0])!=1){ fail(nm+":not-exactly-one-direction",where()); bad=true; continue; }
      int n=to[0]; if(!(g[n]>0)){ fail(nm+":not-a-lower-neighbour",where()); bad=true; continue; }
      if(M.stoch) continue;
      if(g[n]<gm*(1-1e-12)){ double lo=1e300; for(int k=1;k<=8;k++) if(g[k]>0) lo=std::min(lo,d.at(x+DX8[k],y+DY8[k])); bool lowest=d.at(x+DX8[n],y+DY8[n])==lo; count(lowest?"lowest_instead_of_steepest":"not_steepest"); fail(lowest&&!M.d4?"FM_OCallaghan<D8>:lowest-not-steepest":nm+":not-steepest",where()); if(!lowest||M.d4) bad=true; }
      for(int k=1;k<n;k++) if((k%2)==(n%2)&&g[k]>0&&d.at(x+DX8[k],y+DY8[k])==d.at(x+DX8[n],y+DY8[n])){ fail(nm+":tie-not-first",where()); bad=true; break; }
    } }
  if(nt){ nontrivial(hash(d)); if(want_sample()) sample(std::string(TypeInfo<T>::name())+" "+dump(d)); }
}
// Choice frequencies of the stochastic metrics: many isolated cells with two lower neighbours of known drop.
template<class T> void freq(Rng&r){
  bool d4=r.chance(0.5); int k=60; Array2D<T> a(3*k,3*k,(T)2000); a.setNoData((T)-9999); double A=r.range(20,60),B=r.range(20,100); int na,nb; double want; // na: direction never scaled; nb: randomly scaled
  if(d4){ na=r.chance(0.5)?1:5; nb=r.chance(0.5)?3:7; want=B/(A+B); } else { static const int card[]={1,3,5,7},diag[]={2,4,6,8}; na=card[r.below(4)]; nb=diag[r.below(4)]; want=std::min(1.0,std::max(0.0,B/A-1)); }
  for(int j=0;j<k;j++)for(int i=0;i<k;i++){ int x=3*i+1,y=3*j+1; a(x,y)=(T)1000; a(x+DX8[na],y+DY8[na])=(T)(1000-A); a(x+DX8[nb],y+DY8[nb])=(T)(1000-B); }
  seed_rand(r.range(0,1<<30)); Array3D<float> p(a); op("frequencies"); int m=d4?(r.chance(0.5)?6:8):(r.chance(0.5)?5:7); run_fm(m,a,p,1); size_t n=0,hit=0; for(int j=0;j<k;j++)for(int i=0;i<k;i++){ int x=3*i+1,y=3*j+1; n++; if(p(x,y,nb)==1) hit++; else if(p(x,y,na)!=1){ fail(std::string(METRICS[m].name)+":neither-lower-neighbour",props_str(p,x,y)); return; } }
  double ph=(double)hit/n,sd=std::sqrt(std::max(want*(1-want),1e-9)/n); count("frequency_tests"); count("frequency_draws",n);
  if(std::fabs(ph-want)>6*sd+1e-3) fail(std::string(METRICS[m].name)+":choice-frequency",fmt("drops %g (dir %d) and %g (dir %d): chose %d in %zu of %zu, expected share %g",A,na,B,nb,nb,hit,n,want));
  Hash h; h.add(d4); h.add(na); h.add(nb); h.addd(A); h.addd(B); nontrivial(h.h);
}
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t c){ if(c%40==7){ if(r.chance(0.5)) freq<float>(r); else freq<int32_t>(r); return; } switch(r.range(0,6)){case 0:case 1:one<float>(r);break;case 2:case 3:one<double>(r);break;case 4:one<uint8_t>(r);break;case 5:one<int16_t>(r);break;default:one<int32_t>(r);} }); }
