// C18: layouts written and read back, hand-written layouts and broken ones, against the grid of names.
#include "rv.hpp"
#include <richdem/common/Layoutfile.hpp>
#include <fstream>
using namespace rv; using namespace richdem;
typedef std::vector<std::vector<std::string>> Grid;
static std::string base_model(const std::string&f){ std::string n=f; auto s=n.rfind('/'); if(s!=std::string::npos) n=n.substr(s+1); auto p=n.rfind('.'); if(p!=std::string::npos) n=n.substr(0,p); return n; }
static std::string chars(Rng&r,const char*set,int lo,int hi){ std::string s; int n=r.range(lo,hi),k=strlen(set); for(int i=0;i<n;i++) s+=set[r.below(k)]; return s; }
static std::string name(Rng&r){ static const char*A="abcXYZ0189_-+=@#%&()[]{}!~^ .;:'\"\\*?$|<>\xc3\xa9"; std::string s; do { s=r.chance(0.6)?chars(r,"abcdef0123_-",1,8):chars(r,A,1,14); if(r.chance(0.75)) s+=r.chance(0.8)?".tif":chars(r,".abc",1,5); } while(s.front()==' '||s.back()==' '||s.empty()); return s; }
static std::string dirname_(Rng&r){ static const char*D[]={"","d/","d.x/","d/e.f/","sp ace/","./","../w/","a,b/","d.tif/"}; std::string d=D[r.below(9)]; if(r.chance(0.3)) d=opts().scratch+"/w/"+d; return d; }
static std::string show(const Grid&g){ std::string s; for(auto&row:g){ for(auto&x:row) s+="<"+x+">"; s+=";"; } return s.substr(0,500); }
static void expect(const std::string&file,const std::string&dir,const Grid&g,const std::string&nm){
  op(nm+":read"); LayoutfileReader lf(file); size_t W=g[0].size(),n=0; std::string ctx="file '"+file+"' grid "+show(g);
  while(lf.next()){ if(n>=W*g.size()){ fail(nm+":too-many-entries",ctx); return; } int x=n%W,y=n/W; const std::string&e=g[y][x]; count("entries"); 
    if(lf.getX()!=x||lf.getY()!=y) return fail(nm+":position",fmt("%d,%d expected %d,%d ",lf.getX(),lf.getY(),x,y)+ctx);
    if(lf.newRow()!=(x==0)) return fail(nm+":newRow",fmt("at %d,%d ",x,y)+ctx);
    if(lf.getFilename()!=e) return fail(nm+":filename","'"+lf.getFilename()+"' expected '"+e+"' "+ctx);
    if(lf.getBasename()!=base_model(e)) return fail(nm+":basename","'"+lf.getBasename()+"' of '"+e+"' "+ctx);
    if(lf.isNullTile()!=e.empty()) return fail(nm+":isNullTile","'"+e+"' "+ctx);
    if(lf.getPath()!=dir) return fail(nm+":path","'"+lf.getPath()+"' expected '"+dir+"' "+ctx);
    if(lf.getFullPath()!=dir+e) return fail(nm+":fullpath","'"+lf.getFullPath()+"' "+ctx);
    if(lf.getGridLocName()!=std::to_string(x)+"_"+std::to_string(y)) return fail(nm+":gridloc",lf.getGridLocName()+" "+ctx);
    n++; }
  if(n!=W*g.size()) return fail(nm+":entries-missing",fmt("%zu of %zu ",n,W*g.size())+ctx);
  for(int i=0;i<3;i++) if(lf.next()) return fail(nm+":continues-after-end",ctx); }
static void refuse(const std::string&file,const std::string&nm,const std::string&ctx){ op(nm); bool t=false; try{ LayoutfileReader lf(file); }catch(const std::exception&){ t=true; } if(!t) fail(nm+":accepted",ctx); count("refusals"); }
static void run(Rng&r,uint64_t cs){
  Hash hh; hh.add(cs);
  Grid g; int W=r.chance(0.25)?1:r.range(1,7),H=r.chance(0.25)?1:r.range(1,6); double pn=r.chance(0.2)?0:r.chance(0.2)?1:r.unit();
  int special=r.range(0,5); for(int y=0;y<H;y++){ g.emplace_back(); for(int x=0;x<W;x++){ bool null=r.chance(pn); if(special==0&&x==W-1) null=true; if(special==1&&y==H-1) null=true; if(special==2&&x==0) null=true; g.back().push_back(null?"":name(r)); hh.adds(g.back().back()); } }
  std::string dir=dirname_(r); { std::string c; for(char q:dir){ if(q=='/'&&!c.empty()&&c!=".."&&c!=".") mkdir(c.c_str(),0700); c+=q; } }
  // written
  std::string stem=chars(r,"abcxyz_- ,",0,3)+"L",ext=r.chance(0.2)?"":r.chance(0.5)?".layout":r.chance(0.5)?".tif":".x.y"; std::string lname=dir+stem+ext, actual=ext.empty()?lname:dir+stem+(ext==".x.y"?".x":"")+".layout";
  op("write"); ::unlink(actual.c_str()); { LayoutfileWriter w(lname); for(auto&row:g){ w.addRow(); for(auto&e:row) w.addEntry(e.empty()?"":(r.chance(0.4)?dirname_(r):"")+e); } }
  if(access(actual.c_str(),F_OK)) fail("write:name","layout '"+lname+"' expected at '"+actual+"'"); else expect(actual,dir,g,"roundtrip");
  // rewritten from what was read
  if(r.chance(0.3)&&!access(actual.c_str(),F_OK)){ std::string n2=dir+"copy.layout"; { LayoutfileReader lf(actual); LayoutfileWriter w(n2); while(lf.next()){ if(lf.newRow()) w.addRow(); w.addEntry(lf.getFullPath()); } } expect(n2,dir,g,"copy"); ::unlink(n2.c_str()); }
  ::unlink(actual.c_str());
  // ragged from the writer: one short is blank, more is an error
  if(W>1&&H>1&&r.chance(0.5)){ std::string f=dir+"rag.layout"; int y=r.below(H),cut=r.range(1,W); Grid k=g; if(k[y][0].empty()) k[y][0]="n.tif"; for(int x=0;x<W;x++) if(k[(y+1)%H][x].empty()) k[(y+1)%H][x]="m.tif"; { LayoutfileWriter w(f); for(int i=0;i<H;i++){ w.addRow(); for(int x=0;x<(i==y?W-cut:W);x++) w.addEntry(k[i][x]); if(i==y&&cut==W){ } } }
    if(cut==1){ k[y][W-1]=""; expect(f,dir,k,"one-short"); } else if(cut<W) refuse(f,"ragged-writer",show(k)+fmt(" row %d short by %d",y,cut)); ::unlink(f.c_str()); }
  // written by hand: spaces around names, optional comma at the ends of rows, no newline at the end
  { std::string f=dir+"hand.layout",txt; auto sp=[&]{ return r.chance(0.4)?std::string(r.range(1,4),' '):std::string(); }; Grid k=g; 
    for(int y=0;y<H;y++){ bool blank_end=k[y][W-1].empty(); for(int x=0;x<W;x++){ if(x) txt+=","; txt+=sp()+k[y][x]+sp(); } bool trail=blank_end?true:r.chance(0.4); if(trail) txt+=","; if(y+1<H||r.chance(0.6)) txt+="\n"; hh.adds(txt); }
    { std::ofstream o(f); o<<txt; } expect(f,dir,k,"hand"); ::unlink(f.c_str()); }
  // broken
  { std::string f=dir+"bad.layout"; std::string txt; switch(r.range(0,4)){ case 0: break; case 1: txt="\n"; break; case 2: txt="\n\n\n"; break; case 3: { int a=r.range(3,6),b=r.range(1,a-2); for(int i=0;i<a;i++) txt+=fmt("%sx%d",i?",":"",i); std::string s2; for(int i=0;i<b;i++) s2+=fmt("%sy%d",i?",":"",i); txt=r.chance(0.5)?txt+"\n"+s2+"\n":s2+"\n"+txt+"\n"; if(r.chance(0.3)) txt=txt+txt; break; } default: { int a=r.range(2,6); txt="q"; for(int i=1;i<a;i++) txt+=",q"; txt+="\n\n"; for(int i=0;i<a;i++) txt+=fmt("%sx%d",i?",":"",i); if(a<2) txt=""; break; } }
    { std::ofstream o(f); o<<txt; } refuse(f,"broken",jesc(txt)); ::unlink(f.c_str()); refuse(f,"missing-file",f);
    op("unwritable"); bool t=false; try{ LayoutfileWriter w(dir+"nodir/x.layout"); }catch(const std::exception&){ t=true; } if(!t) fail("unwritable:accepted",dir); }
  // base names
  for(int i=0;i<6;i++){ std::string d=r.chance(0.5)?dirname_(r):"",n=r.chance(0.1)?"":name(r); std::string f=d+n; if(GetBaseName(f)!=base_model(f)) fail("GetBaseName","'"+GetBaseName(f)+"' of '"+f+"'"); std::string t=n; size_t a=t.find_first_not_of(' '),b=t.find_last_not_of(' '); t=a==std::string::npos?"":t.substr(a,b-a+1); std::string padded=std::string(r.range(0,3),' ')+n+std::string(r.range(0,3),' '); if(trimStr(padded)!=t) fail("trimStr","'"+trimStr(padded)+"' of '"+padded+"'"); count("names"); }
  if(W*H>1) nontrivial(hh.h); if(want_sample()) sample(fmt("%dx%d layout in '%s': ",W,H,dir.c_str())+show(g));
}
int main(int n,char**v){ return main_loop(n,v,[](Rng&r,uint64_t c){ st().violcount.clear(); mkdir((opts().scratch+"/w").c_str(),0700); if(chdir((opts().scratch+"/w").c_str())) exit(3); run(r,c); }); }
