// C11: depression hierarchy against the terrain's merge tree.
#include "dephier.hpp"
using namespace rv; using namespace richdem;
static const int DX4[5]={0,-1,0,1,0},DY4[5]={0,0,-1,0,1};
template<class T,Topology topo> void run(Rng&r){
  constexpr bool d4=topo==Topology::D4; const int NN=d4?4:8; const int*DX=d4?DX4:DX8,*DY=d4?DY4:DY8;
  Land L=make_land<T>(r,opts().thorough()?(r.chance(0.05)?60:30):(r.chance(0.03)?44:22)); const Dem&d=L.d; const int w=d.w,h=d.h,N=w*h;
  const std::string nm=d4?"GetDepressionHierarchy<D4>":"GetDepressionHierarchy<D8>"; op(nm); const std::string&what=L.what;
  bool seeded=false; for(int i=0;i<N;i++) if(L.oc[i]) for(int n=1;n<=NN;n++){ int x=i%w+DX[n],y=i/w+DY[n]; if(d.in(x,y)&&!L.oc[y*w+x]) seeded=true; }
  Array2D<T> dem; Array2D<dh::dh_label_t> label; Array2D<int8_t> fd; to_arrays(L,dem,label,fd);
  if(!seeded){ bool threw=false; try{ dh::GetDepressionHierarchy<T,topo>(dem,label,fd); } catch(const std::runtime_error&){ threw=true; } check(threw,nm+":no-ocean-accepted",what); return; }
  if(r.chance(0.03)){ int i=r.below(N); auto l2=label; l2((uint32_t)i)=7; bool threw=false; try{ auto f2=fd; dh::GetDepressionHierarchy<T,topo>(dem,l2,f2); } catch(const std::runtime_error&){ threw=true; } check(threw,nm+":bad-label-accepted",what); count("bad_labels_refused"); }
  auto deps=dh::GetDepressionHierarchy<T,topo>(dem,label,fd);
  for(int i=0;i<N;i++) if(dem((uint32_t)i)!=(T)d.z[i]){ fail(nm+":dem-altered",what); return; }
  const int D=(int)deps.size(); auto bad=[&](const std::string&k,const std::string&m){ std::ostringstream o; o<<" | labels "<<dumpA(label)<<" fd "<<dumpA(fd); fail(nm+":"+k,m+"; "+what+o.str()); };
  if(label.width()!=w||label.height()!=h||fd.width()!=w||fd.height()!=h||D<1){ bad("shape",""); return; }
  const auto NV=dh::NO_VALUE;
  // ---- structure
  std::vector<std::vector<int>> leaves(D); std::vector<int> nchild(D,0); int nl=0;
  if(deps[0].parent!=dh::NO_PARENT||deps[0].lchild!=NV||deps[0].rchild!=NV){ bad("ocean-node","ocean has a parent or children"); return; }
  for(int i=1;i<D;i++){ auto&q=deps[i];
    if((int)q.dep_label!=i){ bad("dep-label",fmt("node %d says %u",i,q.dep_label)); return; }
    if((q.lchild==NV)!=(q.rchild==NV)){ bad("one-child",fmt("node %d",i)); return; }
    if(q.lchild!=NV){ if(q.lchild==q.rchild||q.lchild<1||q.rchild<1||(int)q.lchild>=D||(int)q.rchild>=D){ bad("child-id",fmt("node %d",i)); return; } for(auto c:{q.lchild,q.rchild}){ if((int)deps[c].parent!=i){ bad("child-parent-link",fmt("node %d child %u has parent %u",i,c,deps[c].parent)); return; } if(deps[c].ocean_parent){ bad("child-with-ocean-parent",fmt("node %d child %u",i,c)); return; } nchild[c]++; } 
      if(deps[q.lchild].odep!=q.rchild||deps[q.rchild].odep!=q.lchild){ bad("odep",fmt("node %d",i)); return; } }
    else { leaves[i].push_back(i); nl++; }
    if((int)q.parent>=D||(int)q.parent==i){ bad("parent-id",fmt("node %d parent %u",i,q.parent)); return; }
    if(!q.ocean_parent){ auto&p=deps[q.parent]; if((int)p.lchild!=i&&(int)p.rchild!=i){ bad("parent-not-naming-child",fmt("node %d",i)); return; } }
    else { auto&ol=deps[q.parent].ocean_linked; if(std::count(ol.begin(),ol.end(),(dh::dh_label_t)i)!=1){ bad("ocean-link",fmt("node %d not linked once from %u",i,q.parent)); return; } if(q.odep!=NV){ bad("ocean-odep",fmt("node %d",i)); return; } if(q.geolink!=q.parent){ bad("ocean-geolink",fmt("node %d",i)); return; } if(deps[q.parent].lchild!=NV){ bad("ocean-linked-to-meta",fmt("node %d",i)); return; } }
    int c=i,steps=0; while(c!=0&&steps<=D){ c=deps[c].parent; steps++; } if(c!=0){ bad("cycle",fmt("node %d does not lead to the ocean",i)); return; } }
  for(int i=0;i<D;i++) for(auto c:deps[i].ocean_linked) if((int)c>=D||c<1||!deps[c].ocean_parent||(int)deps[c].parent!=i){ bad("ocean-linked-list",fmt("node %d lists %u",i,c)); return; }
  // leaves below each node: children may have any id, so recurse
  { std::function<const std::vector<int>&(int)> go=[&](int i)->const std::vector<int>&{ if(leaves[i].empty()&&deps[i].lchild!=NV){ auto a=go(deps[i].lchild); auto&b=go(deps[i].rchild); a.insert(a.end(),b.begin(),b.end()); leaves[i]=a; } return leaves[i]; }; for(int i=1;i<D;i++) go(i); }
  // ---- leaves and pits
  auto lower=[&](int i){ for(int n=1;n<=NN;n++){ int x=i%w+DX[n],y=i/w+DY[n]; if(d.in(x,y)&&d.z[y*w+x]<d.z[i]) return true; } return false; };
  std::map<int,int> pitleaf; for(int i=1;i<D;i++) if(deps[i].lchild==NV){ int p=(int)deps[i].pit_cell; if(p<0||p>=N||L.oc[p]||lower(p)){ bad("leaf-pit-not-a-pit",fmt("leaf %d pit %d",i,p)); return; } if((double)deps[i].pit_elev!=d.z[p]){ bad("pit-elev",fmt("leaf %d",i)); return; } if(pitleaf.count(p)){ bad("two-leaves-one-pit",fmt("leaf %d",i)); return; } pitleaf[p]=i; if((int)label((uint32_t)p)!=i){ bad("pit-label",fmt("leaf %d",i)); return; } }
  std::vector<char> seen(N,0); for(int s=0;s<N;s++) if(!L.oc[s]&&!seen[s]){ std::vector<int> comp{ s }; seen[s]=1; bool closed=true,touch=false; int pits=0; for(size_t k=0;k<comp.size();k++){ int c=comp[k]; pits+=pitleaf.count(c); for(int n=1;n<=NN;n++){ int x=c%w+DX[n],y=c/w+DY[n]; if(!d.in(x,y)) continue; int q=y*w+x; if(d.z[q]<d.z[c]) closed=false; else if(d.z[q]==d.z[c]){ if(L.oc[q]) touch=true; else if(!seen[q]){ seen[q]=1; comp.push_back(q); } } } }
    if(closed&&!touch){ count("pits"); if(pits!=1){ bad("leaves-per-pit",fmt("pit at cell %d (elev %.9g, %zu cells) has %d leaves",s,d.z[s],comp.size(),pits)); return; } } }
  // ---- labels and directions
  for(int i=0;i<N;i++){ int l=(int)label((uint32_t)i); if(l<0||l>=D||deps[l].lchild!=NV){ bad("label-not-leaf",fmt("cell %d label %d",i,l)); return; } int f=fd((uint32_t)i);
    if(L.oc[i]){ if(l!=0||f!=0){ bad("ocean-cell-changed",fmt("cell %d label %d dir %d",i,l,f)); return; } continue; }
    if(f<0||f>NN){ bad("direction-invalid",fmt("cell %d dir %d",i,f)); return; }
    if(f==0){ if(l==0||(int)deps[l].pit_cell!=i){ bad("no-direction-not-pit",fmt("cell %d label %d",i,l)); return; } continue; }
    int x=i%w+DX[f],y=i/w+DY[f]; if(!d.in(x,y)){ bad("direction-off-grid",fmt("cell %d",i)); return; } int q=y*w+x; if(d.z[q]>d.z[i]){ bad("direction-uphill",fmt("cell %d (%.9g) to %d (%.9g)",i,d.z[i],q,d.z[q])); return; } if((int)label((uint32_t)q)!=l){ bad("label-not-downstream-label",fmt("cell %d label %d flows to label %u",i,l,label((uint32_t)q))); return; } 
    int c=i,st=0; while(st<=N&&!L.oc[c]&&fd((uint32_t)c)!=0){ int g=fd((uint32_t)c); c=(c/w+DY[g])*w+c%w+DX[g]; st++; } if(st>N){ bad("direction-cycle",fmt("cell %d",i)); return; } count("cells_traced"); }
  // ---- spill levels: Kruskal over cells, recording the edges at which components holding terminals meet
  struct E{double wgt;int a,b;}; std::vector<E> es; auto id=[&](int c){ return L.oc[c]?N:c; };
  for(int i=0;i<N;i++) for(int n=1;n<=NN;n++){ int x=i%w+DX[n],y=i/w+DY[n]; if(!d.in(x,y)) continue; int q=y*w+x; if(q<i||(L.oc[i]&&L.oc[q])) continue; es.push_back({std::max(d.z[i],d.z[q]),id(i),id(q)}); }
  std::stable_sort(es.begin(),es.end(),[](const E&a,const E&b){return a.wgt<b.wgt;});
  std::vector<int> par(N+1),term(N+1,-1); std::iota(par.begin(),par.end(),0); for(auto&p:pitleaf) term[p.first]=p.second; term[N]=0; auto find=[&](int a){ while(par[a]!=a){ par[a]=par[par[a]]; a=par[a]; } return a; };
  std::vector<E> te; for(auto&e:es){ int a=find(e.a),b=find(e.b); if(a==b) continue; if(term[a]>=0&&term[b]>=0) te.push_back({e.wgt,term[a],term[b]}); par[b]=a; if(term[a]<0) term[a]=term[b]; }
  std::vector<int> cnt(D); bool nested=false;
  for(int i=1;i<D;i++){ std::vector<char> in(D,0); for(int l:leaves[i]) in[l]=1; double sp=std::numeric_limits<double>::infinity(); for(auto&e:te) if(in[e.a]!=in[e.b]) sp=std::min(sp,e.wgt);
    auto&q=deps[i]; if((double)q.out_elev!=sp){ bad("spill-level",fmt("node %d out_elev %.12g, lowest saddle %.12g",i,(double)q.out_elev,sp)); return; }
    if((int)q.out_cell<0||(int)q.out_cell>=N||d.z[q.out_cell]!=sp){ bad("out-cell-elevation",fmt("node %d out_cell %u",i,q.out_cell)); return; }
    auto lin=[&](int c){ return (bool)in[label((uint32_t)c)]; }; bool meets=false; int oc=(int)q.out_cell; for(int n=1;n<=NN&&!meets;n++){ int x=oc%w+DX[n],y=oc/w+DY[n]; if(!d.in(x,y)) continue; int c=y*w+x; if(lin(c)!=lin(oc)&&d.z[c]<=sp){ dh::dh_label_t o=lin(c)?label((uint32_t)oc):label((uint32_t)c); if(o==q.geolink) meets=true; } } if(!meets){ bad("out-cell-not-between",fmt("node %d out_cell %d geolink %u",i,oc,q.geolink)); return; }
    if(q.ocean_parent==false){ auto&o=leaves[q.odep]; if(std::find(o.begin(),o.end(),(int)q.geolink)==o.end()){ bad("geolink-not-in-sibling",fmt("node %d geolink %u",i,q.geolink)); return; } if((double)deps[q.parent].out_elev<sp){ bad("parent-spills-lower",fmt("node %d",i)); return; } nested=true; }
    if(q.lchild!=NV){ int pc=(int)q.pit_cell; if(!pitleaf.count(pc)||!in[pitleaf[pc]]){ bad("meta-pit",fmt("node %d pit %d",i,pc)); return; } }
    // terrain volume: cells connected below the spill level to the pits
    std::vector<char> vis(N,0); double tot=0,tc=0; std::vector<int> st; for(int l:leaves[i]) st.push_back((int)deps[l].pit_cell); int below=0; bool esc=false; for(size_t k=0;k<st.size();k++) vis[st[k]]=1; for(size_t k=0;k<st.size();k++){ int c=st[k]; if(!(d.z[c]<sp)) continue; below++; tot+=sp-d.z[c]; if(!lin(c)) esc=true; for(int n=1;n<=NN;n++){ int x=c%w+DX[n],y=c/w+DY[n]; if(!d.in(x,y)) continue; int g=y*w+x; if(vis[g]||!(d.z[g]<sp)) continue; if(L.oc[g]){ esc=true; continue; } vis[g]=1; st.push_back(g); } } (void)tc;
    if(esc){ bad("cells-below-spill-outside",fmt("node %d",i)); return; }
    double mag=1; uint32_t cc=0; for(int c=0;c<N;c++) if(!L.oc[c]&&lin(c)&&d.z[c]<=sp){ cc++; mag+=std::fabs(d.z[c])+std::fabs(sp); }
    if(q.cell_count!=cc){ bad("cell-count",fmt("node %d counts %u cells, terrain has %u",i,q.cell_count,cc)); return; }
    if(std::fabs(q.dep_vol-tot)>1e-12*mag*16){ bad("volume",fmt("node %d volume %.12g, terrain holds %.12g",i,q.dep_vol,tot)); return; } (void)below; count("nodes_checked"); }
  if(D>1){ Hash hh; hh.add(hash(d)); for(char c:L.oc) hh.add(c); hh.add(d4); nontrivial(hh.h); if(nested&&want_sample()) sample(what+fmt(" -> %d nodes",D)); } if(nested) count("nested_hierarchies"); (void)nl;
}
template<class T> void both(Rng&r){ if(r.chance(0.6)) run<T,Topology::D8>(r); else run<T,Topology::D4>(r); }
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t){ switch(r.range(0,5)){case 0:both<float>(r);break;case 1:both<double>(r);break;case 2:both<uint8_t>(r);break;case 3:both<int16_t>(r);break;case 4:both<int64_t>(r);break;default:both<int32_t>(r);} }); }
