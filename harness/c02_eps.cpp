// C02: epsilon filling leaves strict descent everywhere, within tight bounds of the plain fill.
#include "gen.hpp"
#include <richdem/depressions/depressions.hpp>
using namespace rv; using namespace richdem;
template<class T> void one(Rng&r){
  T ndv; int ndmode=r.chance(0.5)?1:0; int maxdim=opts().thorough()? (r.chance(0.05)?120:40) : (r.chance(0.05)?80:26);
  Dem d=make_dem<T>(r,maxdim,ndmode,ndv);
  Array2D<T> a0; to_array(d,ndv,a0); const std::string tn=TypeInfo<T>::name();
  double mx=0; for(size_t i=0;i<d.z.size();i++) if(!d.nd[i]) mx=std::max(mx,std::fabs(d.z[i]));
  const double ulp=(double)std::nextafter((T)mx,std::numeric_limits<T>::infinity())-(double)(T)mx;
  auto run=[&](const char*name,bool d4,auto f){
    op(std::string("eps:")+name);
    Array2D<T> a(a0); f(a); count("fills");
    auto F=ref_fill(d,d4); bool any=false; size_t flats=0;
    for(int y=0;y<d.h;y++)for(int x=0;x<d.w;x++){
      size_t i=(size_t)y*d.w+x; double v=a(x,y);
      auto ctx=[&](){ return fmt("type %s cell (%d,%d) got %.17g original %.17g fill %.17g; dem ",tn.c_str(),x,y,v,d.z[i],F[i])+dump(d); };
      if(d.nd[i]){ if(a(x,y)!=ndv){ fail(std::string("eps:")+name+":nodata-altered",ctx()); return; } continue; }
      if(v<d.z[i]){ fail(std::string("eps:")+name+":lowered",ctx()); return; }
      if(v<F[i]){ fail(std::string("eps:")+name+":below-fill",ctx()); return; }
      if(v>F[i]+ulp*(double)(d.w*d.h)){ fail(std::string("eps:")+name+":raised-too-far",ctx()); return; }
      if(v!=d.z[i]) any=true;
      if(d.edge(x,y)){ if(v!=d.z[i]){ fail(std::string("eps:")+name+":edge-altered",ctx()); return; } continue; }
      bool nextnd=false,down=false;
      for(int n=1;n<=8;n++){ if(d4&&n%2==0) continue; int nx=x+DX8[n],ny=y+DY8[n]; if(d.isnd(nx,ny)) nextnd=true; else if((double)a(nx,ny)<v) down=true; }
      if(!down&&!nextnd){ fail(std::string("eps:")+name+":no-descent",ctx()); return; }
      if(nextnd && v!=d.z[i] && !down){ fail(std::string("eps:")+name+":outlet-raised",ctx()); return; }
      if(v!=d.z[i]) flats++;
    }
    if(any) nontrivial(hash(d)); count("cells_raised",flats); count("cells",d.z.size());
    if(any&&want_sample()) sample(tn+" "+name+" "+dump(d));
  };
  run("PriorityFloodEpsilon<D8>",false,[](auto&a){PriorityFloodEpsilon_Barnes2014<Topology::D8>(a);});
  run("PriorityFloodEpsilon<D4>",true ,[](auto&a){PriorityFloodEpsilon_Barnes2014<Topology::D4>(a);});
  run("FillDepressionsEpsilon<D8>",false,[](auto&a){FillDepressionsEpsilon<Topology::D8>(a);});
  run("FillDepressionsEpsilon<D4>",true ,[](auto&a){FillDepressionsEpsilon<Topology::D4>(a);});
}
template<class T> void refused(){
  op("eps:integer"); Array2D<T> a(5,5,(T)3); a(2,2)=1; Array2D<T> b(a); bool threw=false;
  try{ PriorityFloodEpsilon_Barnes2014<Topology::D8>(a); }catch(const std::exception&){ threw=true; }
  if(!threw) fail("eps:integer:not-refused",TypeInfo<T>::name());
  if(!(a==b)) fail("eps:integer:altered",TypeInfo<T>::name());
  count("integer_refusals");
}
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t c){ if(c%50==0){ refused<uint8_t>(); refused<int16_t>(); refused<uint16_t>(); refused<int32_t>(); refused<uint32_t>(); } if(r.chance(0.5)) one<float>(r); else one<double>(r); }); }
