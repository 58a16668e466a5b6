// Router and rank side of the stand-in MPI. One translation unit only.
// A scheduling decision is made only once every rank is blocked, so a case is reproducible from its seed.
#pragma once
#include "fakempi/mpi.h"
#include "rv.hpp"
#include <sys/socket.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <poll.h>
#include <list>
#include <deque>
#include <chrono>
namespace fm {
enum Kind:int { ISEND=1,SEND,PROBE,RECV,IPROBE,BCAST,BARRIER,FINALIZE,ABORT,WAIT,INIT, /*router->rank*/ REPLY,PULL,PULLED };
struct Msg { int kind,peer,tag,flag; uint64_t size,id,hash; };
inline uint64_t hashb(const char*p,size_t n){ uint64_t h=1469598103934665603ull; for(size_t i=0;i<n;i++){ h^=(unsigned char)p[i]; h*=1099511628211ull; } return h; }
inline bool wr(int fd,const void*p,size_t n){ const char*c=(const char*)p; while(n){ ssize_t k=send(fd,c,n,MSG_NOSIGNAL); if(k<=0){ if(k<0&&errno==EINTR) continue; return false; } c+=k; n-=k; } return true; }
inline bool rd(int fd,void*p,size_t n){ char*c=(char*)p; while(n){ ssize_t k=recv(fd,c,n,0); if(k<=0){ if(k<0&&errno==EINTR) continue; return false; } c+=k; n-=k; } return true; }
// ---------------------------------------------------------------- rank side
struct RankState { int fd=-1,rank=0,size=1; bool init=false,fin=false; uint64_t rng=1; int eager=50; struct P{ const char*p; size_t n; uint64_t id; }; std::list<P> pend; uint64_t nid=1;
  bool coin(int pct){ rng=rng*6364136223846793005ull+1442695040888963407ull; return (int)((rng>>33)%100)<pct; } };
inline RankState &me(){ static RankState s; return s; }
[[noreturn]] inline void lost(){ _exit(111); }
inline Msg wait_reply(void*data,size_t cap){ auto&m=me(); for(;;){ Msg q; if(!rd(m.fd,&q,sizeof q)) lost();
    if(q.kind==PULL){ for(auto it=m.pend.begin();it!=m.pend.end();++it) if(it->id==q.id){ Msg a{PULLED,0,0,0,it->n,q.id,0}; std::vector<char> copy(it->p,it->p+it->n); /* instrumented read of the user's buffer */ a.hash=hashb(copy.data(),copy.size()); if(!wr(m.fd,&a,sizeof a)||!wr(m.fd,copy.data(),copy.size())) lost(); m.pend.erase(it); break; } continue; }
    if(q.size){ if(q.size>cap){ fprintf(stderr,"rv-mpi: message truncated: %llu bytes into %zu\n",(unsigned long long)q.size,cap); _exit(112); } if(!rd(m.fd,data,q.size)) lost(); }
    return q; } }
inline Msg call(Msg q,const void*out=nullptr,void*data=nullptr,size_t cap=0){ auto&m=me(); if(m.fin||!m.init){ fprintf(stderr,"rv-mpi: call outside MPI_Init..MPI_Finalize\n"); _exit(113);} if(!wr(m.fd,&q,sizeof q)||(out&&q.size&&!wr(m.fd,out,q.size))) lost(); return wait_reply(data,cap); }
}
inline int MPI_Init(int*,char***){ fm::me().init=true; return 0; }
inline int MPI_Init_thread(int*,char***,int r,int*p){ fm::me().init=true; if(p)*p=r; return 0; }
inline int MPI_Initialized(int*f){ *f=fm::me().init; return 0; } inline int MPI_Finalized(int*f){ *f=fm::me().fin; return 0; }
inline int MPI_Comm_rank(MPI_Comm,int*r){ *r=fm::me().rank; return 0; } inline int MPI_Comm_size(MPI_Comm,int*s){ *s=fm::me().size; return 0; }
inline int MPI_Finalize(){ fm::call({fm::FINALIZE,0,0,0,0,0,0}); fm::me().fin=true; return 0; }
inline int MPI_Abort(MPI_Comm,int c){ fm::Msg q{fm::ABORT,0,c,0,0,0,0}; fm::wr(fm::me().fd,&q,sizeof q); pause(); _exit(111); }
inline int MPI_Send(const void*p,int n,MPI_Datatype t,int d,int tag,MPI_Comm){ fm::call({fm::SEND,d,tag,0,(uint64_t)n*t,0,fm::hashb((const char*)p,(size_t)n*t)},p); return 0; }
inline int MPI_Ssend(const void*p,int n,MPI_Datatype t,int d,int tag,MPI_Comm c){ return MPI_Send(p,n,t,d,tag,c); }
inline int MPI_Isend(const void*p,int n,MPI_Datatype t,int d,int tag,MPI_Comm,MPI_Request*r){ auto&m=fm::me(); size_t z=(size_t)n*t; bool eager=m.coin(m.eager); fm::Msg q{fm::ISEND,d,tag,eager,z,m.nid,fm::hashb((const char*)p,z)};
  if(!fm::wr(m.fd,&q,sizeof q)||(eager&&z&&!fm::wr(m.fd,p,z))) fm::lost(); if(!eager) m.pend.push_back({(const char*)p,z,m.nid}); *r=(long)m.nid++; return 0; }
inline int MPI_Probe(int s,int tag,MPI_Comm,MPI_Status*st){ auto a=fm::call({fm::PROBE,s,tag,0,0,0,0}); if(st){ st->MPI_SOURCE=a.peer; st->MPI_TAG=a.tag; st->MPI_ERROR=0; st->rv_count=a.id; } return 0; }
inline int MPI_Iprobe(int s,int tag,MPI_Comm,int*f,MPI_Status*st){ auto a=fm::call({fm::IPROBE,s,tag,0,0,0,0}); *f=a.flag; if(st&&a.flag){ st->MPI_SOURCE=a.peer; st->MPI_TAG=a.tag; st->MPI_ERROR=0; st->rv_count=a.id; } return 0; }
inline int MPI_Recv(void*p,int n,MPI_Datatype t,int s,int tag,MPI_Comm,MPI_Status*st){ auto a=fm::call({fm::RECV,s,tag,0,0,(uint64_t)n*t,0},nullptr,p,(size_t)n*t); if(st){ st->MPI_SOURCE=a.peer; st->MPI_TAG=a.tag; st->MPI_ERROR=0; st->rv_count=a.size; } return 0; }
inline int MPI_Get_count(const MPI_Status*s,MPI_Datatype t,int*n){ *n=(int)(s->rv_count/t); return 0; }
inline int MPI_Bcast(void*p,int n,MPI_Datatype t,int root,MPI_Comm){ bool r=root==fm::me().rank; fm::call({fm::BCAST,root,0,r,r?(uint64_t)n*t:0,(uint64_t)n*t,0},r?p:nullptr,p,(size_t)n*t); return 0; }
inline int MPI_Barrier(MPI_Comm){ fm::call({fm::BARRIER,0,0,0,0,0,0}); return 0; }
inline int MPI_Wait(MPI_Request*r,MPI_Status*){ if(*r>0) fm::call({fm::WAIT,0,0,0,0,(uint64_t)*r,0}); *r=MPI_REQUEST_NULL; return 0; }
inline int MPI_Waitall(int n,MPI_Request*r,MPI_Status*){ for(int i=0;i<n;i++) MPI_Wait(r+i,nullptr); return 0; }
inline int MPI_Test(MPI_Request*r,int*f,MPI_Status*s){ MPI_Wait(r,s); *f=1; return 0; }
inline int MPI_Request_free(MPI_Request*r){ *r=MPI_REQUEST_NULL; return 0; }
inline double MPI_Wtime(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
// ---------------------------------------------------------------- router
namespace fm {
struct Outcome { bool ok=false,aborted=false; int abort_code=0; std::vector<int> rc; std::string problem,detail; uint64_t msgs=0,decisions=0; uint64_t trace=1469598103934665603ull; };
struct Pkt { int src,tag; uint64_t size,id,hash; bool have; std::vector<char> data; bool sync; };
// runs body in `size` forked ranks; stderr of the ranks goes to files err.<rank> in the current directory
inline Outcome run(int size,rv::Rng&r,const std::function<int(int)>&body){
  Outcome o; std::vector<int> fd(size,-1); std::vector<pid_t> pid(size,0); std::vector<int> state(size,0); /*0 running 1 blocked 2 finalized(reply sent) 3 gone*/
  std::vector<Msg> req(size); std::vector<std::vector<std::deque<Pkt>>> q(size,std::vector<std::deque<Pkt>>(size)); std::vector<std::vector<char>> bc(64*1); std::vector<size_t> nb(size,0); std::vector<std::vector<char>> bcv; std::vector<char> bch; std::vector<std::set<uint64_t>> undone(size);
  int eager=r.pick(std::vector<int>{0,50,100}); bool rendez=r.chance(0.5); uint64_t rs=r.next(); fflush(nullptr);
  for(int k=0;k<size;k++){ int sv[2]; if(socketpair(AF_UNIX,SOCK_STREAM,0,sv)) { o.problem="harness:socketpair"; return o; }
    pid_t p=fork(); if(p==0){ for(int j=0;j<k;j++) close(fd[j]); close(sv[0]); if(rv::outf()) ::close(fileno(rv::outf())); struct rlimit rl{20,25}; setrlimit(RLIMIT_CPU,&rl); struct itimerval z{}; setitimer(ITIMER_PROF,&z,nullptr); signal(SIGPROF,SIG_DFL); int e=open(rv::fmt("err.%d",k).c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600); dup2(e,2); close(e); e=open("/dev/null",O_WRONLY); dup2(e,1); close(e);
      auto&m=me(); m=RankState(); m.fd=sv[1]; m.rank=k; m.size=size; m.rng=rs+k*77; m.eager=eager; int rc=117; std::cerr.rdbuf(nullptr); try{ rc=body(k); }catch(const std::exception&x){ fprintf(stderr,"rv-mpi: uncaught exception: %s\n",x.what()); _exit(114); } fflush(nullptr); _exit(rc&255); }
    close(sv[1]); fd[k]=sv[0]; pid[k]=p; }
  auto kill_all=[&]{ for(int k=0;k<size;k++) if(pid[k]>0&&state[k]!=3) kill(pid[k],SIGKILL); };
  std::vector<int> wst(size,0); auto reap=[&](int k){ if(pid[k]>0){ waitpid(pid[k],&wst[k],0); pid[k]=-1; } };
  auto reply=[&](int k,Msg a,const std::vector<char>*d){ a.kind=REPLY; state[k]=0; if(!wr(fd[k],&a,sizeof a)) return; if(d&&d->size()) wr(fd[k],d->data(),d->size()); };
  auto mix=[&](uint64_t v){ o.trace^=v; o.trace*=1099511628211ull; };
  auto problem=[&](const std::string&p,const std::string&d=""){ if(o.problem.empty()){ o.problem=p; o.detail=d; } };
  auto pull=[&](int s,Pkt&p)->bool{ if(p.have) return true; Msg m{PULL,0,0,0,0,p.id,0}; Msg a; if(!wr(fd[s],&m,sizeof m)||!rd(fd[s],&a,sizeof a)||a.kind!=PULLED){ return false; } p.data.resize(a.size); if(a.size&&!rd(fd[s],p.data.data(),a.size)) return false; if(a.size!=p.size||a.hash!=p.hash||hashb(p.data.data(),p.data.size())!=p.hash) problem("isend-buffer-changed",rv::fmt("rank %d tag %d",s,p.tag)); p.have=true; undone[s].erase(p.id); return true; };
  bool dead=false;
  while(!dead){
    // read requests until every live rank is blocked or gone
    for(;;){ std::vector<pollfd> pf; std::vector<int> who; for(int k=0;k<size;k++) if(state[k]==0||state[k]==2){ pf.push_back({fd[k],POLLIN,0}); who.push_back(k); } if(pf.empty()) break;
      int n=poll(pf.data(),pf.size(),120000); if(n<0&&errno==EINTR) continue; if(n<=0){ problem("stall","no rank made a call for 120 s"); dead=true; break; }
      for(size_t i=0;i<pf.size();i++) if(pf[i].revents){ int k=who[i]; Msg m; if(!rd(fd[k],&m,sizeof m)){ // gone
            bool fin=state[k]==2; state[k]=3; reap(k); int rc=WIFEXITED(wst[k])?WEXITSTATUS(wst[k]):-WTERMSIG(wst[k]); if(!fin){ problem("rank-ended-early",rv::fmt("rank %d ended with %d before MPI_Finalize",k,rc)); dead=true; } else if(rc<0||rc==98||rc==1||(rc>=111&&rc<=114)) { problem("rank-died-at-exit",rv::fmt("rank %d ended with %d",k,rc)); } continue; }
          mix(k*31+m.kind); 
          if(m.kind==ISEND){ if(m.peer<0||m.peer>=size){ problem("bad-destination"); dead=true; continue; } Pkt p{k,m.tag,m.size,m.id,m.hash,m.flag!=0||m.size==0,{},false}; if(m.flag&&m.size){ p.data.resize(m.size); rd(fd[k],p.data.data(),m.size); } if(!p.have) undone[k].insert(m.id); q[k][m.peer].push_back(std::move(p)); o.msgs++; continue; }
          if(m.kind==SEND){ if(m.peer<0||m.peer>=size){ problem("bad-destination"); dead=true; continue; } Pkt p{k,m.tag,m.size,0,m.hash,true,{},true}; p.data.resize(m.size); if(m.size) rd(fd[k],p.data.data(),m.size); q[k][m.peer].push_back(std::move(p)); o.msgs++; }
          if(m.kind==BCAST&&m.flag){ std::vector<char> d(m.size); if(m.size) rd(fd[k],d.data(),m.size); bcv.push_back(std::move(d)); }
          if(m.kind==ABORT){ o.aborted=true; o.abort_code=m.tag; dead=true; continue; }
          req[k]=m; state[k]=1; }
      if(dead) break; }
    if(dead) break;
    struct Act{ int k,s; size_t i; int what; }; std::vector<Act> acts; bool live=false; int nfin=0,nbar=0,nlive=0;
    for(int k=0;k<size;k++) if(state[k]!=3){ live=true; nlive++; if(req[k].kind==FINALIZE&&state[k]==1) nfin++; if(req[k].kind==BARRIER&&state[k]==1) nbar++; }
    if(!live) { bool all=true; for(int k=0;k<size;k++) if(state[k]!=3) all=false; if(all) break; }
    for(int k=0;k<size;k++) if(state[k]==1){ auto&m=req[k];
      if(m.kind==PROBE||m.kind==RECV||m.kind==IPROBE){ bool any=false; for(int s=0;s<size;s++) if(m.peer==MPI_ANY_SOURCE||m.peer==s) for(size_t i=0;i<q[s][k].size();i++) if(m.tag==MPI_ANY_TAG||m.tag==q[s][k][i].tag){ acts.push_back({k,s,i,0}); any=true; break; } if(m.kind==IPROBE&&(!any||r.chance(0.3))) acts.push_back({k,-1,0,4}); }
      else if(m.kind==SEND){ if(!rendez) acts.push_back({k,0,0,1}); else { bool waiting=false; for(auto&p:q[k][m.peer]) if(p.sync) waiting=true; if(!waiting) acts.push_back({k,0,0,1}); } }
      else if(m.kind==BCAST){ if(m.flag||nb[k]<bcv.size()) acts.push_back({k,0,0,2}); }
      else if(m.kind==WAIT){ if(!undone[k].count(m.id)) acts.push_back({k,0,0,1}); else acts.push_back({k,0,0,5}); }
      else if(m.kind==BARRIER){ if(nbar==nlive) acts.push_back({k,0,0,1}); } }
    if(acts.empty()){
      if(nfin==nlive&&nlive>0){ // everybody is in MPI_Finalize: nothing may be left over
        for(int s=0;s<size;s++)for(int d=0;d<size;d++) if(!q[s][d].empty()) problem("message-never-received",rv::fmt("%zu messages from rank %d to %d were never received",q[s][d].size(),s,d));
        for(int k=0;k<size;k++) if(state[k]==1){ reply(k,Msg{REPLY,0,0,0,0,0,0},nullptr); state[k]=2; } continue; }
      if(nlive==0) break; std::string w; for(int k=0;k<size;k++) if(state[k]==1) w+=rv::fmt(" rank %d in call %d (peer %d tag %d)",k,req[k].kind,req[k].peer,req[k].tag); problem("deadlock",w); break; }
    auto a=acts[r.below(acts.size())]; o.decisions++; mix(a.k*64+a.s*8+a.what); auto&m=req[a.k];
    if(a.what==4){ reply(a.k,Msg{REPLY,0,0,0,0,0,0},nullptr); continue; }
    if(a.what==1){ reply(a.k,Msg{REPLY,0,0,0,0,0,0},nullptr); continue; }
    if(a.what==5){ for(auto&row:q[a.k]) for(auto&p:row) if(p.id==m.id&&!p.have) if(!pull(a.k,p)){ dead=true; } if(!undone[a.k].count(m.id)){} else undone[a.k].erase(m.id); reply(a.k,Msg{REPLY,0,0,0,0,0,0},nullptr); continue; }
    if(a.what==2){ if(m.flag) { nb[a.k]++; reply(a.k,Msg{REPLY,0,0,0,0,0,0},nullptr); } else { auto&d=bcv[nb[a.k]++]; if(d.size()!=m.id) problem("bcast-size-mismatch"); reply(a.k,Msg{REPLY,m.peer,0,0,d.size(),0,0},&d); } continue; }
    auto&p=q[a.s][a.k][a.i];
    if(m.kind==PROBE||m.kind==IPROBE){ reply(a.k,Msg{REPLY,a.s,p.tag,1,0,p.size,0},nullptr); continue; }
    if(!p.have&&!pull(a.s,p)){ problem("rank-ended-early",rv::fmt("rank %d ended while its message was being sent",a.s)); break; }
    if(p.size>m.id) problem("truncated-receive",rv::fmt("rank %d received %llu bytes from rank %d into %llu",a.k,(unsigned long long)p.size,a.s,(unsigned long long)m.id));
    { std::vector<char> d=std::move(p.data); Msg rep{REPLY,a.s,p.tag,0,d.size(),0,0}; bool sync=p.sync; (void)sync; q[a.s][a.k].erase(q[a.s][a.k].begin()+a.i); reply(a.k,rep,&d); }
  }
  kill_all(); for(int k=0;k<size;k++){ reap(k); close(fd[k]); o.rc.push_back(WIFEXITED(wst[k])?WEXITSTATUS(wst[k]):-WTERMSIG(wst[k])); }
  // a sanitizer report or an exception message is the better explanation
  for(int k=0;k<size;k++){ std::string f=rv::fmt("err.%d",k); FILE*h=fopen(f.c_str(),"r"); if(!h) continue; std::string s; char b[65536]; size_t n; while((n=fread(b,1,sizeof b,h))>0&&s.size()<(8u<<20)) s.append(b,n); fclose(h);
    for(const char*pat:{"ERROR: AddressSanitizer: ","runtime error: ","rv-mpi: ","what():"}){ size_t i=s.find(pat); if(i==std::string::npos) continue; std::string key(pat); size_t e=s.find_first_of(" \n",i+strlen(pat)); std::string t=pat[0]=='E'?"asan:"+s.substr(i+strlen(pat),e-i-strlen(pat)):pat[0]=='r'&&pat[1]=='u'?"ubsan":pat[0]=='w'?"exception":"mpi"; if(o.problem.empty()||o.problem.compare(0,4,"rank")==0||o.problem=="deadlock"||o.problem=="truncated-receive"){ o.problem=o.problem.empty()?t:o.problem+":"+t; o.detail+=" | "+s.substr(i,1200); } k=size; break; } }
  if(o.problem.empty()&&!o.aborted) o.ok=true; return o; }
}
