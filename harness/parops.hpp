// The library's parallel operations, each as a function from a DEM to bytes (shared by the schedule and the race checks).
#pragma once
#include "flow.hpp"
#include "dephier.hpp"
extern "C" { void rvgomp_set(int,int,uint64_t); uint64_t rvgomp_regions(); uint64_t rvgomp_started(); }
namespace rv {
using namespace richdem;
enum { EXACT=0, STOCHASTIC=1, ROUNDED=2 };
struct Out { std::vector<unsigned char> b; std::vector<double> approx; std::vector<std::pair<size_t,std::string>> marks;
  void raw(const void*p,size_t n){ b.insert(b.end(),(const unsigned char*)p,(const unsigned char*)p+n); }
  void mark(const std::string&s){ marks.push_back({b.size(),s}); }
  template<class U> void num(U v){ raw(&v,sizeof v); }
  template<class U> void arr(const std::string&nm,const Array2D<U>&a){ mark(nm); num(a.width()); num(a.height()); num(a.noData()); for(uint32_t i=0;i<(uint32_t)a.size();i++) num(a(i)); }
  void arr(const std::string&nm,const Array3D<float>&a){ mark(nm); for(int y=0;y<a.height();y++)for(int x=0;x<a.width();x++)for(int n=0;n<9;n++) num(a(x,y,n)); }
  std::string where(size_t at) const { std::string s="start"; size_t o=0; for(auto&m:marks) if(m.first<=at){ s=m.second; o=m.first; } return s+fmt("+%zu",at-o); } };
template<class T> struct In { Array2D<T> dem; Land land; double x; uint64_t seed; };
template<class T> struct Op { std::string name; int kind; std::function<void(const In<T>&,Out&)> f; };
template<class T> using Ops=std::vector<Op<T>>;
template<class T> void ops_flow(Ops<T>&); template<class T> void ops_flats_new(Ops<T>&); template<class T> void ops_flats_old(Ops<T>&); template<class T> void ops_dephier(Ops<T>&); template<class T> void ops_misc(Ops<T>&);
#ifndef RV_INST
#define RV_INST(f) template void f<float>(Ops<float>&); template void f<double>(Ops<double>&); template void f<int16_t>(Ops<int16_t>&);
#endif
}
