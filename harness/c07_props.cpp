// C07: structural validity of every flow metric's proportions.
#include "flow.hpp"
using namespace rv;
template<class T> void one(Rng&r){
  T ndv; Dem d=flow_dem<T>(r,ndv,80,22); Array2D<T> a; to_array(d,ndv,a); seed_rand(r.range(0,1<<30));
  bool down=false; for(int y=1;y+1<d.h;y++)for(int x=1;x+1<d.w;x++) if(!d.isnd(x,y)) for(int n=1;n<=8;n++) if(!d.isnd(x+DX8[n],y+DY8[n])&&d.at(x+DX8[n],y+DY8[n])<d.at(x,y)) down=true;
  if(down){ nontrivial(hash(d)); if(want_sample()) sample(std::string(TypeInfo<T>::name())+" "+dump(d)); }
  Array3D<float> p(a); bool dirty=r.chance(0.3); if(dirty) for(auto i=p.i0();i<p.size();i++) for(int n=0;n<=8;n++) p.getIN(i,n)=r.unit()*3-2;
  Array2D<T> before(a);
  for(int m=0;m<NMET;m++){ double x=pick_x(r); op(METRICS[m].name); run_fm(m,a,p,x); count("metric_runs"); valid_props(METRICS[m].name,d,p,METRICS[m].d4); }
  if(!(a==before)) fail("input-altered",dump(d));
}
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t){ switch(r.range(0,6)){case 0:case 1:one<float>(r);break;case 2:case 3:one<double>(r);break;case 4:one<uint8_t>(r);break;case 5:one<int16_t>(r);break;default:one<int32_t>(r);} }); }
