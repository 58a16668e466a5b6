# The Python side of rv.hpp: case loop, status page, reports.
import sys, os, json, mmap, struct, random, signal, traceback, hashlib
class O: seed=1; frm=0; to=0; tier="quick"; out=None; status=None; scratch=None; cpu=40
counters={}; hashes=[]; samples=[]; vc={}; evals=0; _f=sys.stdout; _page=None
def op(s): _page[16:16+256]=s.encode()[:255].ljust(256,b"\0")
def count(k,n=1): counters[k]=counters.get(k,0)+int(n)
def nontrivial(s): hashes.append(int.from_bytes(hashlib.blake2b(s.encode() if isinstance(s,str) else s,digest_size=6).digest(),"little"))
def sample(s):
    if len(samples)<3: samples.append(s[:600])
def fail(key,msg):
    vc[key]=vc.get(key,0)+1
    if vc[key]>3: return
    _f.write(json.dumps(dict(t="viol",key=key,case=struct.unpack("<Q",_page[0:8])[0],msg=msg[:3000]))+"\n"); _f.flush()
def flush():
    global evals
    _f.write(json.dumps(dict(t="sum",evals=evals,hashes=hashes,counters=counters,samples=samples))+"\n"); _f.flush(); evals=0; hashes.clear(); counters.clear()
def main_loop(fn):
    global _f,_page,evals
    a=sys.argv[1:]
    for i in range(0,len(a),2):
        k,v=a[i][2:],a[i+1]
        if k in("seed","cpu"): setattr(O,k,int(v))
        elif k=="from": O.frm=int(v)
        elif k=="to": O.to=int(v)
        else: setattr(O,k,v)
    if O.out: _f=open(O.out,"a")
    if O.status:
        fd=os.open(O.status,os.O_RDWR|os.O_CREAT,0o600); os.ftruncate(fd,272); _page=mmap.mmap(fd,272)
    else: _page=bytearray(272)
    signal.signal(signal.SIGPROF,signal.SIG_DFL)
    for c in range(O.frm,O.to):
        _page[0:8]=struct.pack("<Q",c); op("case"); signal.setitimer(signal.ITIMER_PROF,O.cpu)
        r=random.Random(O.seed*1000003+c*0x9E3779B97F4A7C15); vc.clear()
        try: fn(r,c)
        except Exception as e: fail("exception:"+bytes(_page[16:272]).split(b"\0")[0].decode(),"unexpected exception: "+repr(e)+" "+" | ".join(traceback.format_exc().strip().split("\n")[-7:]))
        evals+=1
        if (c-O.frm)%16==15: flush()
    signal.setitimer(signal.ITIMER_PROF,0); flush(); _page[8:16]=struct.pack("<Q",1); _f.write('{"t":"end"}\n'); _f.flush()
