// C12: Fill-Spill-Merge against conservation, level-pond and routing oracles.
#include "dephier.hpp"
#include <richdem/depressions/fill_spill_merge.hpp>
using namespace rv; using namespace richdem;
// Independent routing of overflow on the hierarchy: water is poured at a leaf and belongs to the largest merged pond holding that leaf.
template<class T> struct Router {
  const dh::DepressionHierarchy<T>&deps; std::vector<double> w; std::vector<char> merged; double ocean=0; long events=0;
  explicit Router(const dh::DepressionHierarchy<T>&d):deps(d),w(d.size(),0.0),merged(d.size(),0){}
  bool leaf(int i){ return deps[i].lchild==dh::NO_VALUE; }
  int holder(int l){ int best=l,c=l; while(!deps[c].ocean_parent){ c=deps[c].parent; if(merged[c]) best=c; } return best; }
  void pour(int l,double e){
    while(e>0){ if(l==0){ ocean+=e; return; } int n=holder(l); w[n]+=e; e=0;
      while(w[n]>deps[n].dep_vol){ double x=w[n]-deps[n].dep_vol; w[n]=deps[n].dep_vol; events++;
        if(deps[n].ocean_parent){ e=x; l=deps[n].geolink; break; }
        int s=deps[n].odep; if((leaf(s)||merged[s])&&w[s]>=deps[s].dep_vol){ int p=deps[n].parent; merged[p]=1; w[p]=w[n]+w[s]+x; n=p; } else { e=x; l=deps[n].geolink; break; } } } }
};
template<class T,class W> void run(Rng&r){
  Land L=make_land<T>(r,opts().thorough()?(r.chance(0.05)?60:30):(r.chance(0.03)?44:22)); const Dem&d=L.d; const int w=d.w,h=d.h,N=w*h;
  bool seeded=false; for(int i=0;i<N;i++) if(L.oc[i]) for(int n=1;n<=8;n++){ int x=i%w+DX8[n],y=i/w+DY8[n]; if(d.in(x,y)&&!L.oc[y*w+x]) seeded=true; } if(!seeded) return;
  Array2D<T> dem; Array2D<dh::dh_label_t> label; Array2D<int8_t> fd; to_arrays(L,dem,label,fd); op("GetDepressionHierarchy"); auto deps=dh::GetDepressionHierarchy<T,Topology::D8>(dem,label,fd); const int D=(int)deps.size();
  double cap=0; for(int i=1;i<D;i++) if(deps[i].ocean_parent) cap+=deps[i].dep_vol;
  // supply
  Array2D<W> wtd(w,h,(W)0); int mode=r.range(0,6); bool ground=r.chance(0.2); double scale= cap>0? cap/N : 1; auto amount=[&](double m){ double v=r.unit()*m; if(r.chance(0.3)) v=std::floor(v+0.5); return v; };
  if(mode==0) for(int i=0;i<N;i++) wtd((uint32_t)i)=(W)(scale*2*r.unit()); else if(mode==1){ int k=r.range(1,4); for(int j=0;j<k;j++) wtd((uint32_t)r.below(N))=(W)amount(cap*1.2+1); } else if(mode==2){ double c=amount(3); for(int i=0;i<N;i++) wtd((uint32_t)i)=(W)c; }
  else if(mode==3) for(int i=0;i<N;i++) wtd((uint32_t)i)=(W)(cap+10); else if(mode==4){ for(int i=1;i<D;i++) if(deps[i].lchild==dh::NO_VALUE&&r.chance(0.6)){ int c=i; while(r.chance(0.4)&&!deps[c].ocean_parent) c=deps[c].parent; wtd(deps[i].pit_cell)=(W)(deps[c].dep_vol*(r.chance(0.5)?1:r.unit()*1.5)); } }
  else if(mode==5){ double p=r.unit(); for(int i=0;i<N;i++) if(r.chance(p)) wtd((uint32_t)i)=(W)amount(scale*4); } else wtd(0u)=(W)amount(cap+1);
  if(ground){ double p=r.unit(),m=r.chance(0.5)?1:scale*2+0.1; for(int i=0;i<N;i++) if(!L.oc[i]&&r.chance(p)&&(mode!=3)&&wtd((uint32_t)i)==0) wtd((uint32_t)i)=(W)(-r.unit()*m); }
  if(r.chance(0.3)) for(int i=0;i<N;i++) if(L.oc[i]) wtd((uint32_t)i)=0;
  std::vector<double> w0(N); double total=0,mag=0; for(int i=0;i<N;i++){ w0[i]=wtd((uint32_t)i); total+=w0[i]; mag+=std::fabs(w0[i]); }
  const bool fl=std::is_same<W,float>::value; double zmag=0; for(int i=0;i<N;i++) if(!L.oc[i]) zmag=std::max(zmag,std::fabs(d.z[i])); const double eps=fl?2e-6:1e-11; const double tolv=4e-6*(N+D)+eps*(mag+cap+N*zmag)*4, toll=4e-6+eps*(zmag*8+mag+cap);
  std::string what=fmt("mode %d%s wtd-type %s ",mode,ground?" groundwater":"",TypeInfo<W>::name())+L.what; { std::ostringstream o; o.precision(9); o<<" water"; for(int i=0;i<N&&i<600;i++) if(w0[i]!=0) o<<" "<<i<<":"<<w0[i]; what+=o.str(); }
  bool risky=false; const std::string nm=ground?"FillSpillMerge-groundwater":"FillSpillMerge"; auto bad=[&](const std::string&k,const std::string&m){ std::ostringstream o; o.precision(9); o<<" | result"; for(int i=0;i<N&&i<600;i++) if(wtd((uint32_t)i)!=0) o<<" "<<i<<":"<<(double)wtd((uint32_t)i); fail(risky?"FillSpillMerge-groundwater:merged-pond-uncovers-saddle":nm+":"+k,k+" "+m+"; "+(what.size()>1800?what.substr(0,1800):what)+o.str()); };
  // independent downhill movement of the water
  std::vector<double> m(w0); std::vector<int> dep(N,0),nx(N,-1); for(int i=0;i<N;i++){ int f=fd((uint32_t)i); if(f){ nx[i]=(i/w+DY8[f])*w+i%w+DX8[f]; dep[nx[i]]++; } } std::vector<int> q; for(int i=0;i<N;i++) if(!dep[i]) q.push_back(i); std::vector<double> atleaf(D,0); for(size_t k=0;k<q.size();k++){ int c=q[k]; if(nx[c]<0){ if(m[c]>0){ atleaf[label((uint32_t)c)]+=m[c]; m[c]=0; } } else { if(m[c]>0){ m[nx[c]]+=m[c]; m[c]=0; } if(--dep[nx[c]]==0) q.push_back(nx[c]); } }
  Router<T> R(deps); std::vector<int> order; for(int i=0;i<D;i++) order.push_back(i); for(int i=D;i>1;i--) std::swap(order[i-1],order[r.below(i)]); for(int l:order) if(atleaf[l]>0) R.pour(l,atleaf[l]);
  // groundwater under a merged pond may take so much of its water that the pond no longer covers the saddle joining its parts
  if(ground){ auto mg=R.merged; auto ww=R.w; for(int M=1;M<D;M++) if(!R.leaf(M)&&!mg[M]){ bool f=true; double s=0; for(int c:{(int)deps[M].lchild,(int)deps[M].rchild}){ f=f&&(R.leaf(c)||mg[c])&&ww[c]>=deps[c].dep_vol-tolv; s+=ww[c]; } if(f){ mg[M]=1; ww[M]=s; } } // both parts exactly full also form one pond
   for(int M=1;M<D;M++) if(mg[M]){ double G=0,sp=deps[deps[M].lchild].out_elev; for(int i=0;i<N;i++){ int l=(int)label((uint32_t)i); if(!l||m[i]>=0||d.z[i]>sp) continue; int c=l; while(c!=M&&!deps[c].ocean_parent) c=deps[c].parent; if(c==M) G-=m[i]; } if(G>0&&ww[M]-G<=deps[deps[M].lchild].dep_vol+deps[deps[M].rchild].dep_vol+tolv) risky=true; } }
  if(risky) count("merged_ponds_uncovering_saddle");
  op("FillSpillMerge"); auto dd=deps;
  try{ dh::FillSpillMerge(dem,label,fd,dd,wtd); } catch(const std::exception&e){ bad("threw",e.what()); return; }
  for(int i=0;i<N;i++) if(dem((uint32_t)i)!=(T)d.z[i]){ bad("dem-altered",""); return; }
  double fin=0; for(int i=0;i<N;i++){ double v=wtd((uint32_t)i); fin+=v; if(!(v>=std::min(0.0,w0[i])-1e-9)){ bad("negative-depth",fmt("cell %d %.9g was %.9g",i,v,w0[i])); return; } if(L.oc[i]&&v!=0){ bad("ocean-wet",fmt("ocean cell %d holds %.9g",i,v)); return; } }
  if(std::fabs(fin+dd[0].water_vol-total)>tolv){ bad("water-not-conserved",fmt("supplied %.12g, standing %.12g, ocean %.12g",total,fin,dd[0].water_vol)); return; }
  auto surf=[&](int i){ return d.z[i]+std::max(0.0,(double)wtd((uint32_t)i)); };
  for(int i=0;i<N;i++) if(wtd((uint32_t)i)>toll){ count("wet_cells"); for(int n=1;n<=8;n++){ int x=i%w+DX8[n],y=i/w+DY8[n]; if(!d.in(x,y)) continue; int g=y*w+x; if(surf(g)<surf(i)-toll){ bad(L.oc[g]?"stands-above-escape":"not-level",fmt("cell %d surface %.9g, neighbour %d surface %.9g",i,surf(i),g,surf(g))); return; } } }
  if(std::fabs(dd[0].water_vol-R.ocean)>tolv+1e-9*R.events){ bad("ocean-amount",fmt("ocean received %.12g, routing gives %.12g",dd[0].water_vol,R.ocean)); return; }
  // each merged pond (or unmerged leaf) holds what routing gives it
  std::vector<double> have(D,0),want(D,0); for(int i=0;i<N;i++){ int l=(int)label((uint32_t)i); if(!l) continue; int hd=R.holder(l); have[hd]+=wtd((uint32_t)i); want[hd]+=m[i]; } for(int i=1;i<D;i++) if(R.leaf(i)||R.merged[i]) if((R.leaf(i)?R.holder(i)==i:true)){ bool top=true; int c=i; while(!deps[c].ocean_parent){ c=deps[c].parent; if(R.merged[c]) top=false; } if(!top) continue; want[i]+=R.w[i]; count("ponds"); if(std::fabs(have[i]-want[i])>tolv){ bad("wrong-depression",fmt("node %d holds %.12g, routing gives %.12g",i,have[i],want[i])); return; } }
  if(mode==3&&!L.oc[0]+1){ Dem x=d; for(int i=0;i<N;i++) x.nd[i]=0; bool allow=true; (void)allow; // supply beyond every capacity: minimax to the ocean
    std::vector<double> F(N,std::numeric_limits<double>::infinity()); std::vector<int> st; for(int i=0;i<N;i++) if(L.oc[i]){ F[i]=d.z[i]; st.push_back(i); } for(size_t k=0;k<st.size();k++){ int c=st[k]; for(int n=1;n<=8;n++){ int X=c%w+DX8[n],Y=c/w+DY8[n]; if(!d.in(X,Y)) continue; int g=Y*w+X; double v=std::max(d.z[g],F[c]); if(v<F[g]){ F[g]=v; st.push_back(g); } } }
    for(int i=0;i<N;i++) if(!L.oc[i]&&std::fabs(surf(i)-F[i])>toll){ bad("oversupply-not-filled-surface",fmt("cell %d surface %.9g filled %.9g",i,surf(i),F[i])); return; } count("oversupplied"); }
  if(R.events){ Hash hh; hh.add(hash(d)); for(double v:w0) hh.addd(v); nontrivial(hh.h); count("overflows",R.events); if(want_sample()) sample(what); }
  op("FillSpillMerge-again"); std::vector<double> w1(N); for(int i=0;i<N;i++) w1[i]=wtd((uint32_t)i); try{ dh::FillSpillMerge(dem,label,fd,dd,wtd); } catch(const std::exception&e){ bad("again-threw",e.what()); return; }
  for(int i=0;i<N;i++) if(std::fabs(wtd((uint32_t)i)-w1[i])>toll*4+tolv*0.1){ bad("second-run-changed",fmt("cell %d %.9g then %.9g",i,w1[i],(double)wtd((uint32_t)i))); return; }
}
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t){ switch(r.range(0,4)){case 0:run<float,double>(r);break;case 1:run<double,double>(r);break;case 2:run<int32_t,double>(r);break;case 3:run<int16_t,double>(r);break;default:run<float,float>(r);} }); }
