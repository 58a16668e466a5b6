// C09: conservation and routing of flow accumulation: every output satisfies the local balance equation.
#include "flow.hpp"
using namespace rv;
template<class A> void balance(const std::string&nm,const Array3D<float>&p,const std::vector<double>&w,const Array2D<A>&acc,const std::vector<char>&nd,const std::string&what){
  int W=p.width(),H=p.height(); double eps=sizeof(A)==4?2e-4:1e-9,tot=0,out=0,scale=0;
  if(acc.width()!=W||acc.height()!=H){ fail(nm+":size",what); return; }
  for(int y=0;y<H;y++)for(int x=0;x<W;x++){ size_t i=(size_t)y*W+x; if(nd[i]){ if(acc(x,y)!=acc.noData()||acc.noData()!=(A)ACCUM_NO_DATA){ fail(nm+":nodata-not-marked",what); return; } continue; }
    double in=w[i],mag=std::fabs(w[i]); for(int n=1;n<=8;n++){ int nx=x+DX8[n],ny=y+DY8[n]; if(nx<0||ny<0||nx>=W||ny>=H||nd[(size_t)ny*W+nx]) continue; int b=n<=4?n+4:n-4; float q=p(nx,ny,b); if(q>0){ in+=(double)q*acc(nx,ny); mag+=std::fabs((double)q*acc(nx,ny)); } }
    count("balance_equations"); if(std::fabs(in-acc(x,y))>eps*(1+mag)){ fail(nm+":balance",fmt("cell (%d,%d) has %.12g, own flow plus inflow is %.12g; ",x,y,(double)acc(x,y),in)+what); return; }
    tot+=w[i]; scale+=std::fabs(w[i]); bool fl=false; double s=0; for(int n=1;n<=8;n++) if(p(x,y,n)>0){ fl=true; s+=p(x,y,n);} out+= fl? (1-s)*acc(x,y) : acc(x,y); }
  if(std::fabs(tot-out)>(sizeof(A)==4?1e-3:1e-6)*(1+scale)*std::max(1.0,std::sqrt((double)W*H)/10)) fail(nm+":total",fmt("generated %.12g, gathered at cells without onward flow %.12g; ",tot,out)+what);
}
template<class T,class A> void metrics(Rng&r){
  T ndv; Dem d=flow_dem<T>(r,ndv,90,26); Array2D<T> a; to_array(d,ndv,a); auto what=dump(d);
  for(int k=0;k<4;k++){ int m=r.below(NMET); double x=pick_x(r); uint64_t sd=r.below(1<<30);
    std::vector<double> w(d.z.size(),1); bool unit=r.chance(0.5); Array2D<A> acc(a,(A)1); if(!unit) for(size_t i=0;i<w.size();i++){ w[i]= r.chance(0.2)?0:(double)(A)(r.unit()*10); acc((uint32_t)i)=(A)w[i]; }
    if(!unit&&r.chance(0.3)) acc.setNoData((A)0);
    Array3D<float> p(a); seed_rand(sd); run_fm(m,a,p,x); seed_rand(sd); std::string nm=std::string("FA_")+(METRICS[m].name+3); op(nm); run_fa(m,a,acc,x); count("fa_runs");
    balance(nm,p,w,acc,d.nd,nm+" "+what);
    bool flow=false; for(auto i=p.i0();i<p.size();i++) if(p.getIN(i,0)==HAS_FLOW_GEN) flow=true; if(flow){ Hash h; h.add(hash(d)); h.add(m); h.add(unit); nontrivial(h.h); if(want_sample()) sample(nm+" "+what); } }
}
template<class A> void synth(Rng&r){ // arbitrary acyclic proportion fields on the eight-neighbour grid
  Dem d; shape(r,d.w,d.h,opts().thorough()?40:24); d.z.assign((size_t)d.w*d.h,0); d.nd=std::vector<char>(d.z.size(),0); if(r.chance(0.4)) nodata(r,d,r.range(1,2)); int N=d.w*d.h;
  std::vector<int> rank(N); for(int i=0;i<N;i++) rank[i]=i; int kind=r.range(0,2); if(kind==0) for(int i=N;i>1;i--) std::swap(rank[i-1],rank[r.below(i)]); else if(kind==1){ for(int i=0;i<N;i++) rank[i]=(i/d.w%2)? i/d.w*d.w+(d.w-1-i%d.w) : i; }  // serpentine: one long chain
  Array2D<float> base(d.w,d.h,0.f); Array3D<float> p(base); p.setAll(NO_FLOW_GEN); p.setNoData(NO_DATA_GEN); bool flow=false;
  for(int i=0;i<N;i++){ int x=i%d.w,y=i/d.w; if(d.nd[i]){ p(x,y,0)=NO_DATA_GEN; continue; } if(d.edge(x,y)) continue; std::vector<int> c; for(int n=1;n<=8;n++){ int k=(y+DY8[n])*d.w+x+DX8[n]; if(!d.nd[k]&&rank[k]<rank[i]) c.push_back(n); } if(c.empty()||r.chance(0.1)) continue; bool one=r.chance(kind==1?0.95:0.3); std::vector<double> q(9,0); double s=0; if(one){ int best=c[0]; if(kind==1){ for(int n:c) if(rank[(y+DY8[n])*d.w+x+DX8[n]]>rank[(y+DY8[best])*d.w+x+DX8[best]]) best=n; } else best=c[r.below(c.size())]; q[best]=1; s=1; } else for(int n:c) if(r.chance(0.7)){ q[n]=r.unit(); s+=q[n]; } if(s<=0) continue; p(x,y,0)=HAS_FLOW_GEN; flow=true; for(int n=1;n<=8;n++){ p(x,y,n)=(float)(q[n]/s); } }
  std::vector<double> w(N); Array2D<A> acc(d.w,d.h,(A)0); for(int i=0;i<N;i++){ w[i]=r.chance(0.5)?1:(double)(A)(r.unit()*100); acc((uint32_t)i)=(A)w[i]; }
  std::string what=fmt("synthetic kind %d ",kind)+dump(d.z,d.w,d.h,&d.nd); op("FlowAccumulation"); FlowAccumulation(p,acc); count("synthetic_runs"); balance("FlowAccumulation",p,w,acc,d.nd,what);
  if(flow){ Hash h; for(auto i=p.i0();i<p.size();i++) for(int n=0;n<=8;n++) h.addd(p.getIN(i,n)); nontrivial(h.h); }
  Array2D<A> wrong(d.w+1,d.h,(A)1); bool thrown=false; try{ FlowAccumulation(p,wrong); }catch(const std::exception&){ thrown=true; } if(!thrown) fail("FlowAccumulation:size-mismatch-accepted",what);
}
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t){ if(r.chance(0.35)){ if(r.chance(0.7)) synth<double>(r); else synth<float>(r); return; } switch(r.range(0,4)){case 0:metrics<float,double>(r);break;case 1:metrics<double,double>(r);break;case 2:metrics<uint8_t,float>(r);break;case 3:metrics<int16_t,double>(r);break;default:metrics<int32_t,double>(r);} }); }
