"""Driver library: builds harnesses from /repo's working tree, runs them in shards,
turns monitor reports / sanitizer reports / crashes / hangs into violations, matches
them against known-findings.txt, writes replay files and evidence."""
import os, sys, json, re, time, hashlib, subprocess, shutil, mmap, struct, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

VERIF=os.path.dirname(os.path.abspath(__file__))
REPO=os.environ.get("RV_REPO","/repo")
BUILD=os.path.join(VERIF,"build")
JOBS=8
T0=time.time()

class CheckError(Exception): pass

def log(*a): print(*a,file=sys.stderr,flush=True)

def files_under(*dirs,exts=(".hpp",".h",".cpp",".py",".txt",".i",".cmake")):
    out=[]
    for d in dirs:
        if os.path.isfile(d): out.append(d); continue
        for r,ds,fs in os.walk(d):
            if "catch" in ds and r.endswith("include"): ds.remove("catch")
            ds[:]=[x for x in ds if x not in ("_build",".git","__pycache__")]
            for f in fs:
                if f.endswith(exts): out.append(os.path.join(r,f))
    return sorted(out)

def digest(paths,extra=""):
    h=hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); 
        with open(p,"rb") as f: h.update(f.read())
    return h.hexdigest()[:20]

_gdal=None
def gdal_flags():
    global _gdal
    if _gdal is None:
        c=subprocess.run(["gdal-config","--cflags"],capture_output=True,text=True).stdout.split()
        l=subprocess.run(["gdal-config","--libs"],capture_output=True,text=True).stdout.split()
        _gdal=(c,l)
    return _gdal

MODES={
 "asan": ["-O1","-g1","-fno-omit-frame-pointer","-fsanitize=address,undefined","-fno-sanitize-recover=all"],
 "plain":["-O2","-g1"],
 "tsan": ["-O1","-g1","-fno-omit-frame-pointer","-fsanitize=thread"],
}
BASE=["-std=c++17","-fopenmp","-DNDEBUG","-DUSEGDAL","-DRICHDEM_NO_PROGRESS","-DRICHDEM_GIT_HASH=\"rv\"","-DRICHDEM_COMPILE_TIME=\"rv\"","-w"]

def run_jobs(cmds):
    def one(c):
        r=subprocess.run(c,capture_output=True,text=True)
        return (c,r)
    with ThreadPoolExecutor(JOBS) as ex: res=list(ex.map(one,cmds))
    for c,r in res:
        if r.returncode!=0:
            raise CheckError("build failed: "+" ".join(c)+"\n"+r.stderr[-6000:])

def lib_sources():
    s=[]
    for r,ds,fs in os.walk(os.path.join(REPO,"src")):
        for f in fs:
            if f.endswith(".cpp"): s.append(os.path.join(r,f))
    return sorted(s)

def build(name,mode="asan",parts=1,extra=(),src=None,libs=(),base_drop=(),with_lib=True,link_extra=(),tag="",shim=False):
    """compile harness/<name>.cpp (parts TUs with -DRV_PART=i) and the library sources; returns binary path"""
    src=src or os.path.join(VERIF,"harness",name+".cpp")
    srcs=[src] if isinstance(src,str) else list(src)
    flags=[f for f in BASE if f not in base_drop]+MODES[mode]+list(extra)
    gc,gl=gdal_flags()
    inc=["-I"+os.path.join(REPO,"include"),"-I"+os.path.join(VERIF,"harness")]+gc
    dep=files_under(os.path.join(REPO,"include"),os.path.join(REPO,"src"),os.path.join(REPO,"programs"),os.path.join(REPO,"apps"))+files_under(os.path.join(VERIF,"harness"),exts=(".hpp",".h"))+srcs+([os.path.join(VERIF,"harness","rvgomp.cpp")] if shim else [])
    key=digest(dep,json.dumps([flags,parts,list(libs),list(link_extra)]))
    mode_=mode+tag
    d=os.path.join(BUILD,f"{name}-{mode_}-{key}")
    exe=os.path.join(d,name)
    if os.path.exists(exe): return exe
    os.makedirs(BUILD,exist_ok=True)
    for o in os.listdir(BUILD):
        if o.startswith(f"{name}-{mode_}-"): shutil.rmtree(os.path.join(BUILD,o),ignore_errors=True)
    tmp=tempfile.mkdtemp(prefix=f"tmp-{name}-",dir=BUILD)
    objs=[];cmds=[]
    for si,s in enumerate(srcs):
        for i in range(parts if si==0 else 1):
            o=os.path.join(tmp,f"h{si}_{i}.o"); objs.append(o)
            cmds.append(["g++"]+flags+[f"-DRV_PART={i}"]+inc+["-c",s,"-o",o])
    if shim: # our own OpenMP runtime, never instrumented
        o=os.path.join(tmp,"rvgomp.o"); objs.append(o)
        cmds.append(["g++","-std=c++17","-O2","-g1","-w","-fPIC","-c",os.path.join(VERIF,"harness","rvgomp.cpp"),"-o",o])
    if with_lib:
        for i,s in enumerate(lib_sources()):
            o=os.path.join(tmp,f"l{i}.o"); objs.append(o)
            cmds.append(["g++"]+flags+inc+["-c",s,"-o",o])
    run_jobs(cmds)
    run_jobs([["g++"]+flags+objs+list(link_extra)+["-o",os.path.join(tmp,name)]+gl+list(libs)+["-lpthread"]])
    for o in objs: os.unlink(o)
    os.rename(tmp,d)
    return exe

def build_apps():
    """every program of apps/CMakeLists.txt, with sanitizers; returns the directory they are in"""
    flags=[f for f in BASE if f!="-DRICHDEM_NO_PROGRESS"]+MODES["asan"]; gc,gl=gdal_flags()
    inc=["-I"+os.path.join(REPO,"include")]+gc
    names=re.findall(r"add_executable\(\s*(\S+)\.exe\s+(\S+\.cpp)\s*\)",open(os.path.join(REPO,"apps","CMakeLists.txt")).read())
    key=digest(files_under(os.path.join(REPO,"include"),os.path.join(REPO,"src"),os.path.join(REPO,"apps")),json.dumps([flags,names]))
    d=os.path.join(BUILD,"apps-"+key)
    if os.path.exists(d): return d
    os.makedirs(BUILD,exist_ok=True)
    for o in os.listdir(BUILD):
        if o.startswith("apps-"): shutil.rmtree(os.path.join(BUILD,o),ignore_errors=True)
    tmp=tempfile.mkdtemp(prefix="tmp-apps-",dir=BUILD); lib=[]; cmds=[]
    for n,f in sorted(names,key=lambda t:-os.path.getsize(os.path.join(REPO,"apps",t[1]))):
        cmds.append(["g++"]+flags+inc+["-c",os.path.join(REPO,"apps",f),"-o",os.path.join(tmp,n+".o")])
    for i,s in enumerate(lib_sources()):
        o=os.path.join(tmp,f"l{i}.o"); lib.append(o); cmds.append(["g++"]+flags+inc+["-c",s,"-o",o])
    run_jobs(cmds)
    run_jobs([["g++"]+flags+[os.path.join(tmp,n+".o")]+lib+["-o",os.path.join(tmp,n+".exe")]+gl+["-lpthread"] for n,_ in names])
    for o in os.listdir(tmp):
        if o.endswith(".o"): os.unlink(os.path.join(tmp,o))
    os.rename(tmp,d)
    return d

def build_py():
    """the Python module and the reference library of C30, with sanitizers; returns the directory they are in"""
    W=os.path.join(REPO,"wrappers","pyrichdem"); PS=os.path.join(W,"src")
    base=["-std=c++17","-fPIC","-DNDEBUG","-DDOCTEST_CONFIG_DISABLE","-D_USE_MATH_DEFINES","-DRICHDEM_GIT_HASH=\"rv\"","-DRICHDEM_COMPILE_TIME=\"rv\"","-fvisibility=hidden","-w"]+MODES["asan"]+["-fno-sanitize=vptr"]
    pyi=subprocess.run(["/usr/bin/python3","-m","pybind11","--includes"],capture_output=True,text=True).stdout.split()
    inc=["-I"+os.path.join(REPO,"include"),"-I"+PS]+pyi
    mod=[os.path.join(PS,f) for f in sorted(os.listdir(PS)) if f.endswith(".cpp")]; ref=os.path.join(VERIF,"harness","c30_ref.cpp")
    key=digest(files_under(os.path.join(REPO,"include"),os.path.join(REPO,"src"),PS)+[ref],json.dumps([base,inc]))
    d=os.path.join(BUILD,"py-"+key)
    if os.path.exists(d): return d
    os.makedirs(BUILD,exist_ok=True)
    for o in os.listdir(BUILD):
        if o.startswith("py-"): shutil.rmtree(os.path.join(BUILD,o),ignore_errors=True)
    tmp=tempfile.mkdtemp(prefix="tmp-py-",dir=BUILD); lib=[]; rest=[]; objs=[]; robjs=[]; first=[]
    T=["float","double","int8_t","int16_t","int32_t","int64_t","uint8_t","uint16_t","uint32_t","uint64_t"]
    # the module is one enormous translation unit: compile the per-type halves of it side by side where its shape allows
    sig="(pybind11::module &, std::string)"; two=["TemplatedFunctionsWrapper","TemplatedArrayWrapper"]
    decl=os.path.join(tmp,"decl.hpp"); open(decl,"w").write('#include "pywrapper.hpp"\n'+"".join(f"extern template void {f}<{t}>{sig};\n" for f in two for t in T))
    split=[]
    for i in range(5):
        f=os.path.join(tmp,f"inst{i}.cpp"); open(f,"w").write('#include "pywrapper.hpp"\n'+"".join(f"template void {g}<{t}>{sig};\n" for g in two for t in T[i::5])); split.append((f,f[:-3]+"o"))
    for i,s in enumerate(lib_sources()):
        o=os.path.join(tmp,f"l{i}.o"); lib.append(o); rest.append(["g++"]+base+inc+["-c",s,"-o",o])
    for i in range(6):
        o=os.path.join(tmp,f"r{i}.o"); robjs.append(o); rest.append(["g++"]+base+inc+[f"-DRV_PART={i}","-c",ref,"-o",o])
    mo=[]
    for i,s in enumerate(mod): mo.append((s,os.path.join(tmp,f"m{i}.o")))
    try:
        run_jobs([["g++"]+base+inc+["-c",f,"-o",o] for f,o in split]+[["g++"]+base+inc+["-include",decl,"-c",s,"-o",o] for s,o in mo]+rest); objs=[o for _,o in split+mo]
    except CheckError:
        run_jobs([["g++"]+base+inc+["-c",s,"-o",o] for s,o in mo]+rest); objs=[o for _,o in mo]
    suf=subprocess.run(["/usr/bin/python3","-c","import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"],capture_output=True,text=True).stdout.strip()
    run_jobs([["g++","-shared"]+MODES["asan"]+objs+lib+["-o",os.path.join(tmp,"_richdem"+suf)],["g++","-shared"]+MODES["asan"]+robjs+lib+["-o",os.path.join(tmp,"libref.so")]])
    for o in os.listdir(tmp):
        if o.endswith((".o",".cpp",".hpp")): os.unlink(os.path.join(tmp,o))
    # the version of the distribution, which richdem looks up
    v=re.search(r"version\s*=\s*'([^']*)'",open(os.path.join(W,"setup.py")).read()); e=os.path.join(tmp,"richdem.egg-info"); os.makedirs(e); open(os.path.join(e,"PKG-INFO"),"w").write(f"Metadata-Version: 2.1\nName: richdem\nVersion: {v.group(1) if v else '0'}\n")
    os.rename(tmp,d)
    return d

# ------------------------------------------------------------------ findings
def load_findings(prop):
    out=[]
    p=os.path.join(VERIF,"known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r"finding: property=(\S+) key=(\S+) :: (.*)",l.strip())
            if m and m.group(1)==prop: out.append((m.group(2),m.group(3)))
    return out

class Result:
    def __init__(self,prop,tier,seed,rule,assumptions=()):
        self.prop,self.tier,self.seed,self.rule=prop,tier,seed,rule
        self.assumptions=list(assumptions)
        self.evals=0; self.hashes=set(); self.counters={}; self.samples=[]; self.viols=[]; self.lock=threading.Lock()
        self.shards_done=0; self.digests={}; self.notes=[]
    def viol(self,key,case,msg,replay=None):
        with self.lock: self.viols.append(dict(key=key.replace(" ","_"),case=case,msg=msg,replay=replay))
    def count(self,k,n=1):
        with self.lock: self.counters[k]=self.counters.get(k,0)+n
    def ev(self,n=1):
        with self.lock: self.evals+=n
    def nontrivial(self,h):
        with self.lock: self.hashes.add(h)
    def sample(self,s):
        with self.lock:
            if len(self.samples)<4: self.samples.append(s)
    def finish(self,min_evals=1,min_distinct=1):
        known=load_findings(self.prop)
        kk={k for k,_ in known}
        unknown=[v for v in self.viols if v["key"] not in kk]
        seen_known={v["key"] for v in self.viols if v["key"] in kk}
        for k,w in known: print(f"KNOWN-FINDING: property={self.prop} {w} [key={k}; observed in this run: {'yes' if k in seen_known else 'no'}]")
        self.counters["known_findings_observed"]=len(seen_known)
        ev=dict(property=self.prop,tier=self.tier,seed=self.seed,level="exploration",
            coverage=dict(evaluations=self.evals,distinct_nontrivial=len(self.hashes),rule=self.rule,samples=self.samples or ["none"],monitors=self.counters),
            assumptions=self.assumptions or ["held on the executions explored; nothing is claimed beyond them"],
            wall_s=round(time.time()-T0,2),violations=len(unknown))
        os.makedirs(os.path.join(VERIF,"evidence"),exist_ok=True)
        p=os.path.join(VERIF,"evidence",self.prop+".json")
        with open(p+".tmp","w") as f: json.dump(ev,f,indent=1)
        os.replace(p+".tmp",p)
        if unknown:
            done=set()
            for v in unknown:
                if v["key"] in done: continue
                done.add(v["key"])
                if len(done)>12: break
                rd=os.path.join(BUILD,"replay"); os.makedirs(rd,exist_ok=True)
                rp=os.path.join(rd,f"{self.prop}-{hashlib.sha1(v['key'].encode()).hexdigest()[:10]}.json")
                with open(rp,"w") as f: json.dump(dict(property=self.prop,seed=self.seed,tier=self.tier,**v),f,indent=1)
                print(f"VIOLATION property={self.prop} replay={rp}")
                print(f"  key={v['key']} case={v['case']}: {v['msg'][:700]}")
            sys.stdout.flush()
            return 1
        if self.evals<min_evals or len(self.hashes)<min_distinct:
            raise CheckError(f"inconclusive: only {self.evals} evaluations, {len(self.hashes)} distinct non-trivial cases observed")
        print(f"OK property={self.prop} evaluations={self.evals} distinct={len(self.hashes)} wall={time.time()-T0:.1f}s counters={json.dumps(self.counters)}")
        return 0

# ------------------------------------------------------------------ shards
def parse_report(err):
    """-> (kind, detail) from sanitizer output or None"""
    m=re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)",err)
    fr=re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (?:\S*/)?((?:include/richdem|src|programs|apps)/\S+?):\d+",err)
    where=""
    if fr:
        fn=re.sub(r"<.*","",fr[0][0]); fn=re.sub(r"\(.*","",fn).split("::")[-1].strip().split(" ")[-1]
        where=fn
    if m: 
        i=err.find("ERROR: "+m.group(1)); return (m.group(1)[0].lower()+"san:"+m.group(2)+(":"+where if where else ""), err[i:i+2500])
    i=err.find("WARNING: ThreadSanitizer: ")
    if i>=0:
        kind=re.match(r"[\w -]+?(?= \()",err[i+26:]); kind=kind.group(0).replace(" ","-") if kind else "report"
        txt=err[i:i+6000]
        fns=re.findall(r"#\d+ (.+?) (?:\S*/)?((?:include/richdem|src|programs|apps)/\S+?):(\d+)",txt)
        w=[]
        for fn,file,_ in fns[:12]:
            fn=re.sub(r"\[clone.*","",fn); fn=re.sub(r"<.*","",fn); fn=re.sub(r"\(.*","",fn).split("::")[-1].strip().split(" ")[-1]
            fn=os.path.basename(file) if not fn else fn
            if fn not in w: w.append(fn)
        return ("tsan:"+kind+":"+"+".join(w[:2]), txt[:2500])
    m=re.search(r"==\d+== (Conditional jump|Use of uninitialised|Invalid read|Invalid write|Syscall param|Invalid free|Mismatched free|Source and destination overlap|Argument '\S+' of function)[\s\S]*",err)
    if m:
        t=re.sub(r"==\d+== ?","",m.group(0))[:2500]
        fn=re.findall(r"(?:at|by) 0x[0-9A-F]+: (.+?) \((\w+\.[hc]pp):\d+\)",t); w=[]
        for a,file in fn:
            a=re.sub(r"\(.*","",re.sub(r"<.*","",a)).split("::")[-1].strip().split(" ")[-1]
            if os.path.exists(os.path.join(VERIF,"harness",file)): break
            if a and a not in w: w.append(a)
        return ("memcheck:"+re.sub(r"[^A-Za-z]+","_",m.group(1))+(":"+w[0] if w else ""),t)
    m=re.search(r"runtime error: (.*)",err)
    if m:
        t=re.sub(r"-?\d+(\.\d+)?(e[+-]?\d+)?","N",m.group(1)); t=re.sub(r"0x[0-9a-fN]+","P",t); t=re.sub(r"[^A-Za-z0-9]+","_",t)[:70]
        i=max(0,err.find("runtime error:")-200); return ("ubsan:"+t+(":"+where if where else ""), err[i:i+1500])
    return None

SAN_ENV={
 "ASAN_OPTIONS":"abort_on_error=0:exitcode=98:detect_leaks=0:allocator_may_return_null=0:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:handle_abort=1",
 "UBSAN_OPTIONS":"print_stacktrace=1:halt_on_error=1",
 "TSAN_OPTIONS":"halt_on_error=1:exitcode=66:report_thread_leaks=0:detect_deadlocks=0:history_size=4:report_bugs=1:second_deadlock_stack=0",
}

def run_sharded(res,exe,ncases,env=None,cpu=40,shards=JOBS,args=(),max_crash=6,first=0,stall=240,tag="",wrap=()):
    scratch=tempfile.mkdtemp(prefix="run-",dir=BUILD)
    e=dict(os.environ); e.update(SAN_ENV); e["OMP_WAIT_POLICY"]="passive"; e["OMP_DYNAMIC"]="false"
    e.setdefault("OMP_NUM_THREADS","2")
    if env: e.update(env)
    chunk=(ncases+shards-1)//shards
    def spawn(k,a,b,cpu_,tag):
        out=os.path.join(scratch,f"o{k}{tag}"); stt=os.path.join(scratch,f"s{k}{tag}"); errp=os.path.join(scratch,f"e{k}{tag}")
        sd=os.path.join(scratch,f"d{k}"); os.makedirs(sd,exist_ok=True)
        with open(stt,"wb") as f: f.write(b"\0"*272)
        with open(errp,"wb") as ef:
            pr=subprocess.Popen(list(wrap)+[exe,"--seed",str(res.seed),"--from",str(a),"--to",str(b),"--tier",res.tier,"--out",out,"--status",stt,"--scratch",sd,"--cpu",str(cpu_)]+list(args),
                stdout=subprocess.DEVNULL,stderr=ef,env=e,cwd=sd)
            last=None; lt=time.time(); stalled=False
            while True:
                try: pr.wait(1.0 if time.time()-lt>2 else 0.05); break
                except subprocess.TimeoutExpired:
                    cur=open(stt,"rb").read(8)
                    if cur!=last: last=cur; lt=time.time()
                    elif time.time()-lt>stall: pr.kill(); pr.wait(); stalled=True; break
        b_=open(stt,"rb").read(272)
        cid,done=struct.unpack("QQ",b_[:16]); op=b_[16:].split(b"\0")[0].decode("latin1")
        with open(errp,"rb") as f:
            f.seek(0,2); n=f.tell(); f.seek(max(0,n-60000)); err=f.read().decode("latin1")
        lines=[]
        if os.path.exists(out):
            for l in open(out,errors="replace"):
                try: lines.append(json.loads(l))
                except ValueError: pass
            os.unlink(out)
        return pr.returncode,stalled,cid,done,op,err,lines
    def absorb(lines):
        with res.lock:
            for l in lines:
                if l["t"]=="viol": res.viols.append(dict(key=tag+l["key"].replace(" ","_"),case=l["case"],msg=l["msg"],replay=None))
                elif l["t"]=="dig": res.digests.setdefault(tag,{})[(l["case"],l["q"],l["op"])]=l["h"]
                elif l["t"]=="sum":
                    res.evals+=l["evals"]; res.hashes.update(l["hashes"])
                    for k,v in l["counters"].items(): res.counters[k]=res.counters.get(k,0)+v
                    for s in l["samples"]:
                        if len(res.samples)<4 and s not in res.samples: res.samples.append(s)
    def shard(k):
        a=first+k*chunk; b=min(first+ncases,a+chunk); crashes=0; tries=0
        while a<b:
            tries+=1
            rc,stalled,cid,done,op,err,lines=spawn(k,a,b,cpu,f"_{tries}")
            absorb(lines)
            if rc==0 and done: return
            rep=parse_report(err)
            if rc in (97,-27) or stalled:
                rc2,st2,cid2,done2,op2,err2,l2=spawn(k,cid,cid+1,cpu*2,f"_{tries}r"); absorb(l2)
                if rc2 in (97,-27) or st2: res.viol(("hang:" if rc2 in (97,-27) else "stall:")+op2,cid,f"case {cid} did not terminate (op {op2}) within {cpu*2}s CPU, twice")
                elif not(rc2==0 and done2): res.viol("crash:"+op2,cid,err2[-1500:])
                crashes+=2
            elif rep: res.viol(rep[0]+"@"+op,cid,rep[1]); crashes+=1
            elif rc is not None and rc==-9:
                rc2,st2,cid2,done2,op2,err2,l2=spawn(k,cid,cid+1,cpu*2,f"_{tries}r"); absorb(l2)
                if not(rc2==0 and done2): res.viol("killed:"+op2,cid,"process was killed (memory) twice: "+err2[-800:])
                crashes+=1
            elif rc==3 or rc==127: raise CheckError("harness failed to start: "+err[-2000:])
            else: res.viol(f"crash:{op}",cid,f"process ended with {rc}: {err[-1500:]}"); crashes+=1
            a=cid+1
            if crashes>=max_crash: 
                res.notes.append("shard stopped after repeated crashes"); return
    try:
        with ThreadPoolExecutor(shards) as ex: list(ex.map(shard,range(shards)))
    finally:
        shutil.rmtree(scratch,ignore_errors=True)
