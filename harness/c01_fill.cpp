// C01: complete filling against an independent minimax relaxation.
#include "gen.hpp"
#include <richdem/depressions/depressions.hpp>
using namespace rv; using namespace richdem;

template<class T> void one(Rng&r,uint64_t){
  T ndv; int ndmode=r.chance(0.4)?1:0; int maxdim=opts().thorough()? (r.chance(0.05)?120:40) : (r.chance(0.04)?70:26);
  Dem d=make_dem<T>(r,maxdim,ndmode,ndv);
  Array2D<T> a0; to_array(d,ndv,a0);
  const std::string tn=TypeInfo<T>::name();
  std::vector<double> ref8=ref_fill(d,false),ref4=ref_fill(d,true);
  size_t raised=0; for(size_t i=0;i<d.z.size();i++) if(!d.nd[i]&&ref8[i]>d.z[i]) raised++;
  if(raised) nontrivial(hash(d)); count("cells_raised_d8",raised); count("cells",d.z.size()); count("type_"+tn);
  if(want_sample()&&raised) sample(tn+" "+dump(d));
  auto run=[&](const char*name,bool d4,auto f){
    op(std::string("fill:")+name);
    Array2D<T> a(a0); f(a); count("fills");
    const auto&ref=d4?ref4:ref8;
    if(a.width()!=d.w||a.height()!=d.h){ fail(std::string("fill:")+name+":shape",dump(d)); return; }
    for(int y=0;y<d.h;y++)for(int x=0;x<d.w;x++){
      size_t i=(size_t)y*d.w+x; T want=d.nd[i]?ndv:(T)ref[i];
      if(a(x,y)!=want){ 
        std::string cl = d.nd[i]?"nodata-altered": a(x,y)<(T)d.z[i]?"lowered": a(x,y)<want?"underfilled":"overfilled";
        fail(std::string("fill:")+name+":"+cl,fmt("type %s cell (%d,%d) got %.17g want %.17g; dem ",tn.c_str(),x,y,(double)a(x,y),(double)want)+dump(d)); return; }
    }
    if(a.noData()!=ndv) fail(std::string("fill:")+name+":nodata-value",dump(d));
    // idempotence on the produced surface
    op(std::string("refill:")+name);
    Array2D<T> b(a); f(b);
    for(auto i=a.i0();i<a.size();i++) if(a(i)!=b(i)){ fail(std::string("fill:")+name+":not-idempotent",dump(d)); break; }
  };
  run("Original<D8>",false,[](auto&a){PriorityFlood_Original<Topology::D8>(a);});
  run("Original<D4>",true ,[](auto&a){PriorityFlood_Original<Topology::D4>(a);});
  run("Barnes2014<D8>",false,[](auto&a){PriorityFlood_Barnes2014<Topology::D8>(a);});
  run("Barnes2014<D4>",true ,[](auto&a){PriorityFlood_Barnes2014<Topology::D4>(a);});
  run("Wei2018",false,[](auto&a){PriorityFlood_Wei2018(a);});
  run("Zhou2016",false,[](auto&a){PriorityFlood_Zhou2016(a);});
  run("FillDepressions<D8>",false,[](auto&a){FillDepressions<Topology::D8>(a);});
  run("FillDepressions<D4>",true ,[](auto&a){FillDepressions<Topology::D4>(a);});
}
#define P(n,A,B) void part##n(Rng&r,uint64_t c,int k)
P(0,,); P(1,,); P(2,,); P(3,,); P(4,,);
#if RV_PART==0
void part0(Rng&r,uint64_t c,int k){ if(k) one<float>(r,c); else one<double>(r,c); }
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t c){ int k=r.range(0,9); switch(k/2){case 0:part0(r,c,k%2);break;case 1:part1(r,c,k%2);break;case 2:part2(r,c,k%2);break;case 3:part3(r,c,k%2);break;default:part4(r,c,k%2);} }); }
#elif RV_PART==1
void part1(Rng&r,uint64_t c,int k){ if(k) one<uint8_t>(r,c); else one<int32_t>(r,c); }
#elif RV_PART==2
void part2(Rng&r,uint64_t c,int k){ if(k) one<int16_t>(r,c); else one<uint32_t>(r,c); }
#elif RV_PART==3
void part3(Rng&r,uint64_t c,int k){ if(k) one<uint16_t>(r,c); else one<int64_t>(r,c); }
#else
void part4(Rng&r,uint64_t c,int k){ if(k) one<int8_t>(r,c); else one<uint64_t>(r,c); }
#endif
