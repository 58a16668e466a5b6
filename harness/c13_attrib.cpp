// C13: terrain attributes against transcribed window formulas.
#include "gen.hpp"
#include <omp.h>
#include <richdem/methods/terrain_attributes.hpp>
using namespace rv; using namespace richdem;
using LD=long double;
struct Win{ LD a,b,c,d,e,f,g,h,i; LD mx; bool exact; };
template<class T> void run(Rng&r){
  T ndv; int ndm=r.chance(0.3)?1:r.chance(0.4)?2:r.chance(0.05)?3:0; Dem d=make_dem<T>(r,opts().thorough()?60:26,ndm,ndv); const int w=d.w,h=d.h,N=w*h;
  Array2D<T> dem; to_array(d,ndv,dem); for(int i=0;i<N;i++) if(!d.nd[i]&&dem((uint32_t)i)==ndv){ d.z[i]+=1; dem((uint32_t)i)=(T)d.z[i]; }
  static const double cs[]={1,1,30,0.5,0.0008333,1000}; double lx=cs[r.below(6)],ly=r.chance(0.7)?lx:cs[r.below(6)]; bool flipx=r.chance(0.1); dem.geotransform={100,flipx?-lx:lx,0,200,0,r.chance(0.2)?ly:-ly}; dem.projection="P";
  static const float zs[]={1.0f,1.0f,1.0f,2.0f,0.3048f,111120.0f,0.001f}; float z=zs[r.below(7)];
  static const int tn[]={2,3,4,8}; int nt=tn[r.below(4)];
  std::string what=fmt("cell %gx%g zscale %g ",lx,ly,z)+TypeInfo<T>::name()+fmt(" nodata %g ",(double)ndv)+dump(d);
  bool integral=true; for(double v:d.z) if(v!=std::floor(v)||std::fabs(v)>1e9) integral=false;
  auto win=[&](int x,int y){ auto g=[&](int dx,int dy)->LD{ int X=x+dx,Y=y+dy; double v=(d.in(X,Y)&&!d.isnd(X,Y))?d.at(X,Y):d.at(x,y); return (LD)((double)(T)v*(double)z); }; Win q{g(-1,-1),g(0,-1),g(1,-1),g(-1,0),g(0,0),g(1,0),g(-1,1),g(0,1),g(1,1),0,integral&&(z==1||z==2)}; for(LD v:{q.a,q.b,q.c,q.d,q.e,q.f,q.g,q.h,q.i}) q.mx=std::max(q.mx,std::fabs(v)); return q; };
  struct G{ LD p,q,s,cond; bool flat; }; auto grad=[&](const Win&k){ G o; LD nx=(k.c+2*k.f+k.i)-(k.a+2*k.d+k.g),ny=(k.g+2*k.h+k.i)-(k.a+2*k.b+k.c); o.flat=nx==0&&ny==0; o.p=nx/8/lx; o.q=ny/8/ly; o.s=std::sqrt(o.p*o.p+o.q*o.q); o.cond=k.mx/std::min(lx,ly)/std::max<LD>(o.s,1e-300L); return o; };
  enum{RR,PC,RAD,DEG,ASP,CUR,PLAN,PROF,NA}; static const char*nm[]={"TA_slope_riserun","TA_slope_percentage","TA_slope_radians","TA_slope_degrees","TA_aspect","TA_curvature","TA_planform_curvature","TA_profile_curvature"};
  auto call=[&](int k,const Array2D<T>&a,Array2D<float>&o){ op(nm[k]); switch(k){ case RR:TA_slope_riserun(a,o,z);break; case PC:TA_slope_percentage(a,o,z);break; case RAD:TA_slope_radians(a,o,z);break; case DEG:TA_slope_degrees(a,o,z);break; case ASP:TA_aspect(a,o,z);break; case CUR:TA_curvature(a,o,z);break; case PLAN:TA_planform_curvature(a,o,z);break; default:TA_profile_curvature(a,o,z); } };
  std::vector<Array2D<float>> res(NA); bool rough=false;
  for(int k=0;k<NA;k++){
    omp_set_num_threads(nt); Array2D<float>&o=res[k]; float ond=-9999; if(r.chance(0.3)) o.resize(r.range(1,5),r.range(1,5),7.f); o.setNoData(ond); call(k,dem,o);
    if(o.width()!=w||o.height()!=h||o.geotransform!=dem.geotransform||o.projection!=dem.projection||o.noData()!=ond){ fail(std::string(nm[k])+":shape-or-georeference",what); return; }
    for(int i=0;i<N;i++) if(dem((uint32_t)i)!=(d.nd[i]?ndv:(T)d.z[i])){ fail(std::string(nm[k])+":dem-altered",what); return; }
    omp_set_num_threads(1); Array2D<float> o1; o1.setNoData(ond); call(k,dem,o1); for(int i=0;i<N;i++) if(memcmp(&o((uint32_t)i),&o1((uint32_t)i),4)){ fail(std::string(nm[k])+":thread-dependent",fmt("cell %d threads %d ",i,nt)+what); return; }
    for(int y=0;y<h;y++)for(int x=0;x<w;x++){ float got=o(x,y); auto where=[&](LD want){ Win q=win(x,y); return fmt("cell (%d,%d) got %.9g want %.9Lg window %.9Lg %.9Lg %.9Lg / %.9Lg %.9Lg %.9Lg / %.9Lg %.9Lg %.9Lg; ",x,y,got,want,q.a,q.b,q.c,q.d,q.e,q.f,q.g,q.h,q.i)+what; };
      if(d.isnd(x,y)){ if(got!=ond||!o.isNoData(x,y)){ fail(std::string(nm[k])+":nodata-lost",where(ond)); return; } continue; }
      if(!(got==got)){ fail(std::string(nm[k])+":nan",where(0)); return; }
      Win q=win(x,y); G g=grad(q); if(!g.flat) rough=true; count("cells");
      if(k<=DEG){ LD want=k==RR?g.s:k==PC?g.s*100:k==RAD?std::atan(g.s):std::atan(g.s)*180/(LD)M_PI; LD f=k==PC?100:k==DEG?58:1; LD tol=2e-7L*want+f*8e-16L*q.mx/std::min(lx,ly)+1e-40L; if(got<0||std::fabs(got-want)>tol){ fail(std::string(nm[k])+":formula",where(want)); return; } continue; }
      if(k==ASP){ if(got!=-1&&!(got>=0&&got<=360)){ fail("TA_aspect:range",where(0)); return; } if(g.flat){ if(q.exact&&got!=-1){ fail("TA_aspect:flat-not-marked",where(-1)); return; } continue; }
        LD bearing=std::atan2(-g.p,g.q)*180/(LD)M_PI; if(bearing<0) bearing+=360; // downslope direction, clockwise from north; y grows southwards
        if(q.exact&&g.p==0&&g.q>0&&got!=0){ fail("TA_aspect:north-not-zero",where(0)); return; }
        if(g.cond>1e12L) continue; if(got==-1){ fail("TA_aspect:slope-marked-flat",where(bearing)); return; } LD df=std::fabs(std::remainder((LD)got-bearing,(LD)360)); if(df>1e-4L+60*2e-15L*g.cond){ fail("TA_aspect:formula",where(bearing)); return; } continue; }
      if(lx!=ly) continue; LD L=lx,D=((q.d+q.f)/2-q.e)/L/L,E=((q.b+q.h)/2-q.e)/L/L,F=(-q.a+q.c+q.g-q.i)/4/L/L,GG=(-q.d+q.f)/2/L,H=(q.b-q.h)/2/L; LD gh=GG*GG+H*H; LD sc=200*(std::fabs(D)+std::fabs(E)+std::fabs(F)),ab=4000e-16L*q.mx/L/L;
      LD want=0; if(k==CUR) want=-200*(D+E); else if(gh>0) want=k==PLAN? -200*(D*H*H+E*GG*GG-F*GG*H)/gh : 200*(D*GG*GG+E*H*H+F*GG*H)/gh; LD cond=q.mx/L/std::sqrt(std::max(gh,(LD)1e-300L)); if(k!=CUR){ if(gh==0&&!q.exact) continue; if(gh>0&&(cond>1e10L||gh<1e-200L)) continue; }
      LD tol=2e-7L*std::fabs(want)+ab+(k!=CUR&&gh>0?4e-15L*cond*sc:0)+sc*1e-13L; if(std::fabs(got-want)>tol){ fail(std::string(nm[k])+":formula",where(want)); return; } }
  }
  // units convert to one another
  for(int i=0;i<N;i++) if(!d.nd[i]){ double rr=res[RR]((uint32_t)i); auto chk=[&](int k,double want){ double got=res[k]((uint32_t)i); if(std::fabs(got-want)>3e-7*std::fabs(want)+1e-38){ fail(std::string(nm[k])+":unit-conversion",fmt("cell %d rise/run %.9g gives %.9g expected %.9g; ",i,rr,got,want)+what); return false; } return true; }; if(!(chk(PC,rr*100)&&chk(RAD,std::atan(rr))&&chk(DEG,std::atan(rr)*180/M_PI))) return; }
  // shifting by a constant (exact in the element type) changes nothing
  if(integral&&(z==1||z==2)&&lx==ly){ double s= std::is_same<T,uint8_t>::value||std::is_same<T,int8_t>::value?1:std::is_same<T,int16_t>::value?100:4096; bool fits=true; for(int i=0;i<N;i++) if(!d.nd[i]&&((double)(T)(d.z[i]+s)!=d.z[i]+s||d.z[i]+s>(double)std::numeric_limits<T>::max()/2||d.z[i]+s==(double)ndv||std::fabs(d.z[i])>1e6)) fits=false;
    if(fits){ Array2D<T> sh(dem); for(int i=0;i<N;i++) if(!d.nd[i]) sh((uint32_t)i)=(T)(d.z[i]+s); for(int k=0;k<NA;k++){ Array2D<float> o; o.setNoData(-9999); call(k,sh,o); for(int i=0;i<N;i++){ float A=o((uint32_t)i),B=res[k]((uint32_t)i); if(std::fabs(A-B)>1e-6f*std::fabs(B)+1e-6f){ fail(std::string(nm[k])+":shift-changes-result",fmt("cell %d %.9g shifted %.9g; ",i,B,A)+what); return; } } } count("shift_comparisons"); } }
  // SPI and CTI
  { Array2D<double> acc(dem,0.0); Array2D<float> sl(res[RR]); acc.setNoData(-1); sl.setNoData(-9999); acc.geotransform=dem.geotransform; for(int i=0;i<N;i++){ acc((uint32_t)i)=r.chance(0.1)?-1:1+r.below(1000); } Array2D<double> S,C; omp_set_num_threads(nt); op("TA_SPI"); TA_SPI(acc,sl,S); op("TA_CTI"); TA_CTI(acc,sl,C); if(S.width()!=w||C.height()!=h){ fail("TA_SPI:shape",what); return; }
    for(int i=0;i<N;i++){ bool nd=acc((uint32_t)i)==-1||d.nd[i]; double A=acc((uint32_t)i)/(lx*ly),s=(double)sl((uint32_t)i)+0.001; if(nd){ if(S((uint32_t)i)!=-1||C((uint32_t)i)!=-1||!S.isNoData((uint32_t)i)){ fail("TA_SPI/CTI:nodata-lost",what); return; } continue; } if(std::fabs(S((uint32_t)i)-std::log(A*s))>1e-6||std::fabs(C((uint32_t)i)-std::log(A/s))>1e-6){ fail("TA_SPI/CTI:formula",fmt("cell %d acc %g slope %g; ",i,acc((uint32_t)i),s)+what); return; } } 
    if(r.chance(0.05)){ Array2D<float> s2(w+1,h,0.f); bool t=false; try{ TA_SPI(acc,s2,S);}catch(const std::runtime_error&){t=true;} check(t,"TA_SPI:size-mismatch-accepted",what); Array2D<T> ng(dem); ng.geotransform.clear(); t=false; try{ Array2D<float> o; TA_slope_degrees(ng,o);}catch(const std::runtime_error&){t=true;} check(t,"TA_slope:no-geotransform-accepted",what); } }
  if(rough){ Hash hh; hh.add(hash(d)); hh.addd(lx); hh.addd(z); nontrivial(hh.h); if(want_sample()) sample(what); }
}
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t){ switch(r.range(0,5)){case 0:run<float>(r);break;case 1:run<double>(r);break;case 2:run<uint8_t>(r);break;case 3:run<int16_t>(r);break;case 4:run<int32_t>(r);break;default:run<uint16_t>(r);} }); }
