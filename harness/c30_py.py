# C30: the Python interface against the C++ library (a plain C interface to the same headers), over element types, memory
# layouts, options and object lifetimes. Runs with AddressSanitizer loaded and the interpreter's own allocator off.
import os, sys, gc, ctypes, warnings, io, contextlib
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import rv
from rv import op,count,fail,nontrivial,sample
warnings.simplefilter("ignore")
import numpy as np
with contextlib.redirect_stdout(io.StringIO()): import richdem as rd, richdem.cli
import _richdem
from osgeo import gdal
gdal.UseExceptions(); gdal.SetConfigOption("GDAL_PAM_ENABLED","NO")
ref=ctypes.CDLL(os.path.join(os.environ["RV_PYDIR"],"libref.so"))
TYPES=["float32","float64","int8","int16","int32","int64","uint8","uint16","uint32","uint64"]
PLAIN=["Tarboton","Dinf","Quinn","OCallaghanD8","OCallaghanD4","D8","D4"]; RHO=["FairfieldLeymarieD8","FairfieldLeymarieD4","Rho8","Rho4"]; EXPO=["Freeman","Holmgren"]
ATTR=["slope_riserun","slope_percentage","slope_degrees","slope_radians","aspect","curvature","planform_curvature","profile_curvature"]
P=ctypes.c_void_p
def ptr(a): return a.ctypes.data_as(P)
def quiet(f,*a,**k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a,**k)
def call(o,data,nd,gt,x=0.0,dout=None,fout=None):
    "-> (status, nodata after)"; n=ctypes.c_double(0); msg=ctypes.create_string_buffer(256); q=np.array([nd]).astype(data.dtype); g=np.array(gt,dtype="float64")
    rc=getattr(ref,"ref_"+str(data.dtype))(o.encode(),data.shape[1],data.shape[0],ptr(data),ptr(q),ptr(g),ctypes.c_double(x),ptr(dout) if dout is not None else None,ptr(fout) if fout is not None else None,ctypes.byref(n),msg)
    if rc==2: raise RuntimeError("reference does not know "+o)
    return rc,n.value
def same(a,b): return a.shape==b.shape and a.dtype==b.dtype and np.array_equal(np.ascontiguousarray(a).view(np.uint8),np.ascontiguousarray(b).view(np.uint8))
def feq(a,b):
    if a is None or b is None: return a is b
    return a==b or (a!=a and b!=b) or float(a)==float(b)
def gteq(a,b):
    if a is None or b is None: return a is b
    return [float(x) for x in a]==[float(x) for x in b]
# ------------------------------------------------------------------ inputs
def layout(r,a,kinds=None):
    "the same values in another memory layout; returns (array, name, whole buffer, its index)"
    k=r.choice(kinds or ["C","C","C","F","strided","reversed","window","offset","T"])
    if k=="C": return np.array(a,order="C"),k
    if k=="F": return np.array(a,order="F"),k
    if k=="T": return np.array(a.T,order="C").T,k
    h,w=a.shape[:2]; x=a.shape[2:]
    if k=="strided": b=np.zeros((h*2,w*3)+x,a.dtype); v=b[::2,1::3]
    elif k=="reversed": b=np.zeros((h,w)+x,a.dtype); v=b[::-1,::-1]
    elif k=="window": b=np.full((h+3,w+4)+x,7,a.dtype); v=b[2:2+h,1:1+w]
    else: b=np.zeros(a.size+3,a.dtype); v=b[3:].reshape(a.shape)
    v[...]=a; return v,k
def surface(r,dt,h,w):
    n=np.random.RandomState(r.getrandbits(32)); k=r.randrange(6); yy,xx=np.mgrid[0:h,0:w]
    if k==0: v=n.randint(0,6,(h,w)).astype(float)
    elif k==1: v=n.randint(0,100,(h,w)).astype(float)
    elif k==2: v=np.floor(60+20*np.sin(xx/2.3)+20*np.cos(yy/1.7))
    elif k==3: v=np.full((h,w),float(r.randrange(1,20)))
    elif k==4: v=np.floor(100-np.hypot(xx-w/2,yy-h/2)*3)
    else: v=xx+yy*2.0+n.randint(0,3,(h,w))
    if dt.startswith("float") and r.random()<0.6: v=v+n.random_sample((h,w))
    if dt in("int8","int16","int32","int64","float32","float64") and r.random()<0.3: v=v-50
    v=np.clip(v,-100,120)
    if dt.startswith("uint"): v=np.clip(v,0,None)
    return v.astype(dt)
def geotransform(r,kind=None):
    c=r.choice([1.0,1.0,2.5,30.0]); g=(r.randrange(1000)*1.0,c,0.0,r.randrange(1000)*1.0,0.0,-c)
    return {0:g,1:list(g),2:np.array(g)}[r.randrange(3)]
def nodata(r,dt,v):
    if dt.startswith("float"): c=[-9999,-9999.0,-9999.1,-3.4028234663852886e+38,123456.789,-1e300 if dt=="float64" else -5.5,np.float64(-77.7),np.float32(-9.5)]
    elif dt.startswith("uint"): i=np.iinfo(dt); c=[int(i.max),int(i.max)-1,250,0,255.0 if dt=="uint8" else 251.0,np.int64(249)]
    else: i=np.iinfo(dt); c=[int(i.min),-128,int(i.max),-101,-101.0,np.int16(-102)]
    return r.choice(c)
def make(r,dt=None,h=None,w=None,gt=True,kinds=None):
    dt=dt or r.choice(TYPES); h=h or r.choice([1,2,3,r.randrange(4,12),r.randrange(4,26),r.randrange(12,40)]); w=w or r.choice([1,2,r.randrange(3,12),r.randrange(4,26),r.randrange(12,40)])
    v=surface(r,dt,h,w); nd=nodata(r,dt,v); k=r.randrange(5)
    if k: m=np.random.RandomState(r.getrandbits(32)).random_sample((h,w))<[0,0,0.05,0.2,0.5][k]; v[m]=np.array([nd]).astype(dt)[0]
    a,lay=layout(r,v,kinds); d=rd.rdarray(a,no_data=nd)
    if not np.shares_memory(d,a): fail("rdarray:copied","rdarray() of a "+lay+" array does not use its memory")
    d.geotransform=geotransform(r) if gt else None; d.projection=r.choice(["","LOCAL_CS[\"x\"]"]); d.metadata=r.choice([{},{"A":"b"},{"PROCESSING_HISTORY":"first","Z":"1"}]).copy()
    return d,a,v,f"{dt} {h}x{w} {lay} nodata={nd!r}"
class Snap:
    "what a caller can see of an array"
    def __init__(s,d): s.d=d; s.v=np.array(d,order="C",subok=False); s.a=attrs(d)
    def check(s,nm,ctx):
        count("inputs_compared")
        if not same(np.asarray(s.d),s.v): fail(nm+":input-cells-changed",ctx)
        b=attrs(s.d)
        for k in s.a:
            if not (feq if k=="no_data" else gteq if k=="geotransform" else (lambda x,y:x==y))(s.a[k],b[k]): fail(nm+":input-"+k+"-changed",f"{s.a[k]!r} -> {b[k]!r} "+ctx)
def attrs(d):
    return dict(no_data=getattr(d,"no_data",None),projection=getattr(d,"projection",""),geotransform=None if getattr(d,"geotransform",None) is None else tuple(float(x) for x in d.geotransform),metadata=dict(getattr(d,"metadata",{}) or {}))
def history(nm,before,after,ctx):
    b=before.get("PROCESSING_HISTORY",""); a=after.get("PROCESSING_HISTORY","")
    if not a.startswith(b) or not a[len(b):].startswith("\n") or a[len(b)+1:].count("\n") or len(a[len(b):].split(" | "))!=3 or "RichDEM" not in a[len(b):]: fail(nm+":history",f"{b!r} -> {a!r} "+ctx)
    x={k:v for k,v in before.items() if k!="PROCESSING_HISTORY"}; y={k:v for k,v in after.items() if k!="PROCESSING_HISTORY"}
    if x!=y: fail(nm+":metadata",f"{x} -> {y} "+ctx)
def carried(nm,d0,res,nd,ctx,hist=True,gt=True):
    "the attributes of a result computed from an array with attributes d0"
    a=attrs(res)
    if not feq(a["no_data"],nd): fail(nm+":no_data",f"{a['no_data']!r}, the library says {nd!r} "+ctx)
    if gt and not gteq(a["geotransform"],d0["geotransform"]): fail(nm+":geotransform",f"{a['geotransform']} from {d0['geotransform']} "+ctx)
    if a["projection"]!=d0["projection"]: fail(nm+":projection",ctx)
    if hist: history(nm,d0["metadata"],a["metadata"],ctx)
def churn():
    gc.collect(); x=[np.full(n,0x5A,np.uint8) for n in (64,400,1500,1500,4000,9000)]; return x
STD=(0.0,1.0,0.0,0.0,0.0,-1.0)
def gtof(d): return STD if d.geotransform is None else d.geotransform
def ndof(d): return d.no_data
# ------------------------------------------------------------------ operations
def alter(r):
    "FillDepressions, BreachDepressions, ResolveFlats"
    d,base,v,ctx=make(r,gt=r.random()<0.85); top=r.choice(["D8","D4"]); o=r.choice(["fill","eps","breach","flats"]); inp=r.random()<0.5; nm={"fill":"FillDepressions","eps":"FillDepressions-epsilon","breach":"BreachDepressions","flats":"ResolveFlats"}[o]+("-in-place" if inp else "")
    ctx=f"{top} "+ctx; rc,nd=0,0.0; want=np.array(v,order="C"); rc,nd=call(o+("" if o=="flats" else top[1]),want,ndof(d),gtof(d)); ro=r.random()<0.1; locked=False
    if ro: d.flags.writeable=False; locked=True; ctx+=" read-only"
    s=Snap(d); a0=attrs(d); whole=d.base if d.base is not None else d
    outside=None
    if base.base is not None and base.base.shape!=base.shape and base.base.ndim==2: outside=base.base; mask=np.ones(outside.shape,bool); t=np.arange(outside.size).reshape(outside.shape); inside=np.isin(t,np.array([0])); ob=outside.copy()
    op(nm); f={"fill":lambda:rd.FillDepressions(d,False,inp,top),"eps":lambda:rd.FillDepressions(d,epsilon=True,in_place=inp,topology=top),"breach":lambda:rd.BreachDepressions(d,in_place=inp,topology=top),"flats":lambda:rd.ResolveFlats(d,in_place=inp)}[o]
    try: res=quiet(f); ok=True
    except Exception as e: res=None; ok=False; err=e
    if inp and locked:
        if ok: fail(nm+":read-only-accepted",ctx)
        s.check(nm+":read-only",ctx); count("read_only_refused"); return ctx
    if rc: # the library reports that it cannot
        if ok: fail(nm+":error-swallowed",ctx)
        if not inp: s.check(nm,ctx)
        count("library_errors_passed_on"); return ctx
    if not ok: fail(nm+":refused",repr(err)+" "+ctx); return ctx
    if inp:
        if res is not None: fail(nm+":returned-something",ctx)
        if not same(np.asarray(d),want): fail(nm+":cells",ctx)
        carried(nm,a0,d,nd,ctx)
        if not np.shares_memory(d,base): fail(nm+":moved",ctx)
        if outside is not None: # nothing but the cells of the view may change
            count("views_in_place"); d[...]=v
            if not np.array_equal(outside,ob,equal_nan=True): fail(nm+":outside-the-view-changed",ctx)
    else:
        if type(res) is not rd.rdarray: fail(nm+":type",str(type(res))); return ctx
        s.check(nm,ctx)
        if np.shares_memory(res,whole): fail(nm+":shares-memory",ctx)
        if not same(np.asarray(res),want): fail(nm+":cells",ctx)
        carried(nm,a0,res,nd,ctx)
        del d,base,whole,s,outside; j=churn()
        if not same(np.asarray(res),want): fail(nm+":cells-after-release",ctx)
        del j
    count("cells_compared",want.size); return ctx
def accumulate(r,dt=None):
    d,base,v,ctx=make(r,dt,gt=r.random()<0.9); m=r.choice(PLAIN+PLAIN+EXPO+RHO); x=r.choice([0.5,1.0,1.1,2.0,4.0]); ctx=f"{m} {x} "+ctx; h,w=v.shape; want=np.ones((h,w)); wt=None; inp=False; wl=""
    if r.random()<0.55:
        wv=np.random.RandomState(r.getrandbits(32)).randint(0,5,(h,w)).astype("float64"); want=wv.copy(); wt,wl=layout(r,wv); inp=r.random()<0.5; rdw=r.random()<0.6
        if rdw: wt=rd.rdarray(wt,no_data=r.choice([-1,-5.5])); wt.geotransform=geotransform(r); wt.metadata={"W":"w"}
        if not inp and r.random()<0.15: wt.flags.writeable=False
    if r.random()<0.15: d.flags.writeable=False
    rho=m in RHO; a0=attrs(d); sw=Snap(wt) if wt is not None else None; s=Snap(d); nm="FlowAccumulation"+("-in-place" if inp else ""); ctx+=f" weights {wl}"
    rc,nd=call("FA:"+m,np.array(v,order="C"),ndof(d),gtof(d),x,dout=want); op(nm); kw=dict(method=m,weights=wt,in_place=inp)
    if m in EXPO: kw["exponent"]=x
    try: res=quiet(rd.FlowAccumulation,d,**kw)
    except Exception as e:
        if not rc: fail(nm+":refused",repr(e)+" "+ctx)
        return ctx
    if rc: fail(nm+":error-swallowed",ctx); return ctx
    s.check(nm,ctx)
    if type(res) is not rd.rdarray or res.dtype!=np.float64 or res.shape!=(h,w): fail(nm+":type",ctx); return ctx
    if wt is not None and inp:
        if not np.shares_memory(res,wt): fail(nm+":not-a-view-of-weights",ctx)
        if not same(np.asarray(wt),np.asarray(res)): fail(nm+":weights-not-updated",ctx)
    else:
        if np.shares_memory(res,d) or (wt is not None and np.shares_memory(res,wt)): fail(nm+":shares-memory",ctx)
        if sw: sw.check(nm+":weights",ctx)
        carried(nm,a0,res,nd,ctx)
    if not feq(res.no_data,nd): fail(nm+":no_data",ctx)
    if rho:
        q=np.asarray(v)==np.array([ndof(d)]).astype(v.dtype)[0]
        if not np.all(np.isfinite(np.asarray(res))) or not np.array_equal(np.asarray(res)[q],want[q]): fail(nm+":rho-nodata",ctx)
    elif not same(np.asarray(res),want): fail(nm+":cells",ctx)
    del d,base,s; 
    if not inp: wt=None; sw=None
    keep=np.array(res,subok=False); j=churn()
    if not same(np.asarray(res),keep): fail(nm+":cells-after-release",ctx)
    count("cells_compared",want.size); return ctx
def proportions(r):
    d,base,v,ctx=make(r,gt=r.random()<0.9); m=r.choice(PLAIN+PLAIN+EXPO+RHO); x=r.choice([0.5,1.0,1.1,2.0,4.0]); ctx=f"{m} {x} "+ctx; h,w=v.shape; want=np.zeros((h,w,9),"float32"); nm="FlowProportions"
    if r.random()<0.15: d.flags.writeable=False
    rc,nd=call("FM:"+m,np.array(v,order="C"),ndof(d),gtof(d),x,fout=want); s=Snap(d); a0=attrs(d); op(nm)
    try: res=quiet(rd.FlowProportions,d,m,x) if m in EXPO or r.random()<0.2 else quiet(rd.FlowProportions,d,method=m)
    except Exception as e:
        if not rc: fail(nm+":refused",repr(e)+" "+ctx)
        return ctx
    if rc: fail(nm+":error-swallowed",ctx); return ctx
    s.check(nm,ctx); carried(nm,a0,res,nd,ctx)
    if type(res) is not rd.rd3array or res.dtype!=np.float32 or res.shape!=(h,w,9): fail(nm+":type",ctx); return ctx
    if m in RHO:
        R=np.asarray(res); n=(R[:,:,1:]>0).sum(axis=2); q=R[:,:,0]==0 # HAS_FLOW_GEN
        if np.any(n>1) or (m.endswith("4") and np.any(R[:,:,[2,4,6,8]]>0)): fail(nm+":rho-receivers",ctx)
    elif not same(np.asarray(res),want): fail(nm+":cells",ctx)
    # accumulate over them
    if r.random()<0.7:
        nm="FlowAccumFromProps"; pv=np.array(res,subok=False,order="C"); acc=np.ones((h,w)); wt=None; inp=False; wl=""
        if r.random()<0.5: wv=np.random.RandomState(r.getrandbits(32)).randint(0,5,(h,w)).astype("float64"); acc=wv.copy(); wt,wl=layout(r,wv); inp=r.random()<0.5
        if inp: nm+="-in-place"
        msg=ctypes.create_string_buffer(256); rc=ref.ref_props(w,h,ptr(pv),ctypes.c_float(-2),ptr(acc),msg); pl="as-is"
        if r.random()<0.4:
            q,pl=layout(r,pv); q=rd.rd3array(q,meta_obj=res,no_data=-2)
        else: q=res
        c2=ctx+f" props {pl} weights {wl}"; sp=Snap(q); sw=Snap(wt) if wt is not None else None; p0=attrs(q); op(nm)
        try: out=quiet(rd.FlowAccumFromProps,q,weights=wt,in_place=inp)
        except Exception as e:
            if not rc: fail(nm+":refused",repr(e)+" "+c2)
            return c2
        if rc: fail(nm+":error-swallowed",c2); return c2
        sp.check(nm,c2)
        if wt is not None and inp:
            if not np.shares_memory(out,wt) or not same(np.asarray(wt),np.asarray(out)): fail(nm+":not-a-view-of-weights",c2)
        else:
            if np.shares_memory(out,q) or (wt is not None and np.shares_memory(out,wt)): fail(nm+":shares-memory",c2)
            if sw: sw.check(nm+":weights",c2)
            carried(nm,p0,out,-1,c2)
        if not same(np.asarray(out),acc): fail(nm+":cells",c2)
        count("cells_compared",acc.size); ctx=c2
    del d,base,s; keep=np.array(res,subok=False); j=churn()
    if not same(np.asarray(res),keep): fail("FlowProportions:cells-after-release",ctx)
    count("cells_compared",want.size); return ctx
def attribute(r):
    d,base,v,ctx=make(r,gt=r.random()<0.9); m=r.choice(ATTR); x=r.choice([1.0,1.0,2.0,0.25]); ctx=f"{m} z={x} "+ctx; h,w=v.shape; want=np.zeros((h,w),"float32"); nm="TerrainAttribute"
    if r.random()<0.15: d.flags.writeable=False
    rc,nd=call("TA:"+m,np.array(v,order="C"),ndof(d),gtof(d),x,fout=want); s=Snap(d); a0=attrs(d); op(nm)
    try: res=quiet(rd.TerrainAttribute,d,m) if x==1.0 else quiet(rd.TerrainAttribute,d,attrib=m,zscale=x)
    except Exception as e:
        if not rc: fail(nm+":refused",repr(e)+" "+ctx)
        return ctx
    if rc: fail(nm+":error-swallowed",ctx); return ctx
    s.check(nm,ctx); carried(nm,a0,res,nd,ctx)
    if type(res) is not rd.rdarray or not same(np.asarray(res),want): fail(nm+":cells",ctx)
    if np.shares_memory(res,d): fail(nm+":shares-memory",ctx)
    del d,base,s; j=churn()
    if not same(np.asarray(res),want): fail(nm+":cells-after-release",ctx)
    count("cells_compared",want.size); return ctx
def perlin(r):
    n=r.choice([1,2,5,r.randrange(3,25)]); seed=r.choice([0,1,20,r.getrandbits(31),2**32-1]); ctx=f"perlin {n} {seed}"; want=np.zeros((n,n)); rc=ref.ref_perlin(n,ctypes.c_uint(seed),ptr(want)); op("generate_perlin_terrain")
    try: d=quiet(rd.generate_perlin_terrain,n,seed)
    except Exception as e:
        if not rc: fail("generate_perlin_terrain:refused",repr(e)+" "+ctx)
        return ctx
    if rc: fail("generate_perlin_terrain:error-swallowed",ctx); return ctx
    if type(d) is not rd.rdarray or not same(np.asarray(d),want): fail("generate_perlin_terrain:cells",ctx)
    if d.no_data!=-9999 or not gteq(d.geotransform,STD): fail("generate_perlin_terrain:attributes",ctx)
    history("generate_perlin_terrain",{},d.metadata,ctx)
    if not np.array_equal(rd.STANDARD_GEOTRANSFORM,np.array(STD)): fail("STANDARD_GEOTRANSFORM:changed",ctx)
    if n>2 and r.random()<0.5: # usable with everything else
        for f in (lambda:rd.FlowProportions(d,"D8"),lambda:rd.FillDepressions(d),lambda:rd.TerrainAttribute(d,"aspect"),lambda:rd.FlowAccumFromProps(rd.FlowProportions(d,"Quinn"))):
            op("perlin-then-use"); quiet(f); count("pipelines")
    return ctx
FIELDS=["pit_cell","out_cell","parent","odep","geolink","pit_elev","out_elev","lchild","rchild","ocean_parent","dep_label","cell_count","dep_vol","water_vol","total_elevation"]
def depvec(dh):
    o=np.zeros((len(dh),16))
    for i,d in enumerate(dh):
        for k,f in enumerate(FIELDS): o[i,k]=getattr(d,f)
        s=float(len(d.ocean_linked))
        for k,x in enumerate(d.ocean_linked): s+=float(x)*(k+2)
        o[i,15]=s
    return o
def hierarchy(r):
    h=r.randrange(3,22); w=r.randrange(3,22); d,base,v,ctx=make(r,"float64",h,w); v=np.array(v); v[v==np.float64(ndof(d))]=5; d[...]=v; dep=rd.depression_hierarchy; nm="get_depression_hierarchy"
    op("get_new_depression_hierarchy_labels"); lab=rd.get_new_depression_hierarchy_labels((h,w)); want=np.full((h,w),dep.OCEAN,np.uint32); want[1:-1,1:-1]=dep.NO_DEP
    if type(lab) is not rd.rdarray or not same(np.asarray(lab),want): fail("get_new_depression_hierarchy_labels:cells",ctx); return ctx
    if not gteq(lab.geotransform,STD): fail("get_new_depression_hierarchy_labels:geotransform",ctx)
    if r.random()<0.3: lab[r.randrange(h),r.randrange(w)]=dep.OCEAN; want=np.array(lab,subok=False)
    ll="C"
    if r.random()<0.4: q,ll=layout(r,want); q=rd.rdarray(q,meta_obj=lab,no_data=lab.no_data); lab=q
    ctx+=f" labels {ll}"; wl=want.copy(); wd=np.zeros((h,w),np.int8); deps=np.zeros((h*w*2+2,16)); msg=ctypes.create_string_buffer(256); g=np.array(d.geotransform,dtype="float64"); wtd=np.abs(np.random.RandomState(r.getrandbits(32)).randint(-1,4,(h,w))).astype("float64"); wtd[want==dep.OCEAN]=0 # no water on the ocean
    ww=wtd.copy(); l2=want.copy(); d2=wd.copy(); dd=deps.copy(); n=ref.ref_hier(w,h,ptr(np.array(v,order="C")),ctypes.c_double(ndof(d)),ptr(g),ptr(wl),ptr(wd),ptr(deps),len(deps),None,msg); s=Snap(d); op(nm)
    try: dh,fd=quiet(rd.get_depression_hierarchy,d,lab)
    except Exception as e:
        if n>=0: fail(nm+":refused",repr(e)+" "+ctx)
        return ctx
    if n<0: fail(nm+":error-swallowed",ctx); return ctx
    s.check(nm,ctx); count("cells_compared",2*h*w)
    if not same(np.asarray(lab),wl): fail(nm+":labels",ctx)
    if fd.dtype!=np.int8 or not same(np.asarray(fd),wd): fail(nm+":flowdirs",ctx)
    if not gteq(fd.geotransform,d.geotransform): fail(nm+":flowdirs-geotransform",ctx)
    if fd.projection!=d.projection: fail(nm+":flowdirs-projection",ctx)
    if len(dh)!=n or not np.array_equal(depvec(dh),deps[:n],equal_nan=True): fail(nm+":hierarchy",ctx); return ctx
    # water
    nm="fill_spill_merge"; n=ref.ref_hier(w,h,ptr(np.array(v,order="C")),ctypes.c_double(ndof(d)),ptr(g),ptr(l2),ptr(d2),ptr(dd),len(dd),ptr(ww),msg); t,tl=layout(r,wtd); t=rd.rdarray(t,no_data=-9999); t.geotransform=d.geotransform; sl=Snap(lab); sf=Snap(fd); op(nm); ctx+=f" wtd {tl}"
    old=list(dh)
    try: quiet(rd.fill_spill_merge,d,lab,fd,dh,t)
    except Exception as e:
        if n>=0: fail(nm+":refused",repr(e)+" "+ctx)
        return ctx
    if n<0: fail(nm+":error-swallowed",ctx); return ctx
    s.check(nm,ctx); sl.check(nm+":labels",ctx); sf.check(nm+":flowdirs",ctx)
    if not same(np.asarray(t),ww): fail(nm+":cells",ctx)
    if len(dh)!=n or not np.array_equal(depvec(dh),dd[:n],equal_nan=True): fail(nm+":hierarchy-not-updated",ctx)
    count("hierarchies"); count("water_volumes",int((dd[:n,13]>0).sum())); return ctx
def arrays(r):
    "construction, views, copies, wrapping"
    d,base,v,ctx=make(r); a0=attrs(d); op("rdarray"); e=rd.rdarray(np.zeros((3,4),r.choice(TYPES)),meta_obj=d,no_data=5)
    if e.no_data!=5 or not gteq(e.geotransform,a0["geotransform"]) or e.projection!=a0["projection"] or e.metadata!=a0["metadata"]: fail("rdarray:meta_obj",ctx)
    e.metadata["new"]="x"
    if "new" in d.metadata: fail("rdarray:metadata-shared",ctx)
    try: e=rd.rdarray(np.zeros((3,4)),meta_obj=d); 
    except Exception as x: fail("rdarray:no_data-of-meta_obj-ignored",repr(x)+" "+ctx)
    else:
        if not feq(e.no_data,d.no_data): fail("rdarray:no_data-of-meta_obj",ctx)
    try: rd.rdarray(np.zeros((3,4))); fail("rdarray:no-no_data-accepted",ctx)
    except Exception: count("refusals")
    g=rd.rdarray([[1,2],[3,4]],no_data=0,dtype="int16",geotransform=STD)
    if g.dtype!=np.int16 or not gteq(g.geotransform,STD): fail("rdarray:list",ctx)
    # whether or not a copy was asked for
    c=rd.rdarray(base,no_data=1,copy=True)
    if np.shares_memory(c,base): fail("rdarray:copy-ignored",ctx)
    for nm,x in (("copy",lambda:d.copy()),("slice",lambda:d[0:1,:]),("arithmetic",lambda:d+np.zeros((),d.dtype)),("transpose",lambda:d.T)):
        op("rdarray-"+nm); y=x(); b=attrs(y)
        if type(y) is not rd.rdarray or not feq(b["no_data"],a0["no_data"]) or not gteq(b["geotransform"],a0["geotransform"]) or b["metadata"]!=a0["metadata"] or b["projection"]!=a0["projection"]: fail("rdarray:"+nm+":attributes",ctx)
        y.metadata["q"]="1"
        if "q" in d.metadata: fail("rdarray:"+nm+":metadata-shared",ctx)
        if nm=="copy" and np.shares_memory(y,d): fail("rdarray:copy:shares",ctx)
    # the wrapped array keeps what it needs
    d,base,v,ctx=make(r); want=np.array(v,order="C"); rc,nd=call("fill8",want,ndof(d),gtof(d)); op("wrap"); W=quiet(d.wrap)
    if W.width()!=v.shape[1] or W.height()!=v.shape[0]: fail("wrap:size",ctx)
    q=np.array([ndof(d)]).astype(v.dtype)[0]
    if W.noData()!=q: fail("wrap:no_data",f"{W.noData()!r} for {ndof(d)!r} "+ctx)
    if not gteq(list(W.geotransform),gtof(d)): fail("wrap:geotransform",ctx)
    y,x=r.randrange(v.shape[0]),r.randrange(v.shape[1])
    if W(x,y)!=v[y,x]: fail("wrap:cell",ctx)
    keep=r.random()<0.5; alias=np.asarray(d) if keep else None; dt=v.dtype; del d,base; j=churn(); op("wrap-after-release"); got=np.array([[W(i,k) for i in range(v.shape[1])] for k in range(v.shape[0])],dtype=dt)
    if not np.array_equal(got,v): fail("wrap:cells-after-release",ctx)
    if not rc: _richdem.rdFillDepressionsD8(W); got=np.array([[W(i,k) for i in range(v.shape[1])] for k in range(v.shape[0])],dtype=dt); 
    if not rc and not np.array_equal(got,want): fail("wrap:use-after-release",ctx)
    count("cells_compared",v.size); return ctx
def wrong(r):
    "arguments which no function can work with"
    d,base,v,ctx=make(r); h,w=v.shape; fs=dict(fill=lambda x:rd.FillDepressions(x),fill_in=lambda x:rd.FillDepressions(x,in_place=True),eps=lambda x:rd.FillDepressions(x,epsilon=True),breach=lambda x:rd.BreachDepressions(x),flats=lambda x:rd.ResolveFlats(x),accum=lambda x:rd.FlowAccumulation(x,"D8"),props=lambda x:rd.FlowProportions(x,"Quinn"),attr=lambda x:rd.TerrainAttribute(x,"aspect"))
    def bad(nm,f,c=""):
        op("wrong:"+nm); count("refusals")
        try: quiet(f)
        except Exception: return
        fail("wrong:"+nm+":accepted",c+" "+ctx)
    k=r.choice(list(fs)); f=fs[k]; g=geotransform(r)
    def arr(x,nd=0): q=rd.rdarray(x,no_data=nd); q.geotransform=g; return q
    c=r.randrange(11)
    if c==0: bad("one-dimensional",lambda:f(arr(np.arange(30.0))),k)
    elif c==1: bad("three-dimensional",lambda:f(arr(np.zeros((4,5,6)))),k)
    elif c==2: bad("type",lambda:f(arr(np.zeros((6,7),r.choice([bool,"complex64","float16","S3"])),nd=0)),k)
    elif c==3: bad("other-object",lambda:f(r.choice([None,"x",[[1,2],[3,4]],5])),k)
    elif c==4: # values in the other byte order are either refused or worked on correctly
        b=v.astype(v.dtype.newbyteorder()); x=arr(b,ndof(d)); op("swapped")
        try: y=quiet(rd.FillDepressions,x)
        except Exception: count("refusals"); return ctx
        want=np.array(v,order="C"); call("fill8",want,ndof(d),g)
        if v.dtype.itemsize>1 and not np.array_equal(np.asarray(y).astype(v.dtype),want): fail("swapped:cells",ctx)
    elif c==5: s=r.choice([(h+1,w),(h,w+2),(w+1,h+3),(1,1)]); bad("weights-size",lambda:rd.FlowAccumulation(d,"D8",weights=np.ones(s),in_place=r.random()<0.5),str(s)) if s!=(h,w) else None
    elif c==6: bad("weights-type",lambda:rd.FlowAccumulation(d,"D8",weights=np.ones((h,w),"float32")))
    elif c==7: n=r.choice([1,3,8,10,12]); bad("layers",lambda:rd.FlowAccumFromProps(rd.rd3array(np.zeros((h,w,n),"float32"),no_data=-2)),str(n))
    elif c==8: bad("method",lambda:r.choice([lambda:rd.FlowAccumulation(d,"Nope"),lambda:rd.FlowAccumulation(d),lambda:rd.FlowAccumulation(d,"Freeman"),lambda:rd.FlowProportions(d,"Holmgren"),lambda:rd.FlowProportions(d,"x"),lambda:rd.TerrainAttribute(d,"height"),lambda:rd.FillDepressions(d,topology="D6"),lambda:rd.BreachDepressions(d,topology="")])())
    elif c==9: # sizes which do not fit one another
        dep=rd.depression_hierarchy; x=arr(np.random.RandomState(1).random_sample((8,9)),-9999); bad("labels-size",lambda:rd.get_depression_hierarchy(x,rd.get_new_depression_hierarchy_labels((r.randrange(3,7),9))))
        bad("labels-type",lambda:rd.get_depression_hierarchy(x,arr(np.zeros((8,9),r.choice(["int64","float32","uint8"])))))
        lab=rd.get_new_depression_hierarchy_labels((8,9)); dh,fd=quiet(rd.get_depression_hierarchy,x,lab); bad("water-size",lambda:rd.fill_spill_merge(x,lab,fd,dh,arr(np.zeros((5,9)),-9999)))
    else: # rasters without cells
        s=r.choice([(0,0),(0,5),(5,0)]); op("empty:"+k)
        try: y=quiet(f,arr(np.zeros(s,r.choice(TYPES))))
        except Exception: count("refusals"); return ctx
        if y is not None and y.size: fail("empty:"+k+":cells",ctx)
    if r.random()<0.3: # a failed call leaves its arguments alone
        s=Snap(d); bad("method-in-place",lambda:rd.FlowAccumulation(d,"Nope",weights=np.ones((h,w)),in_place=True)); s.check("wrong:method",ctx)
    return f"{k} {c} "+ctx
def wkt():
    from osgeo import osr
    if not WKT:
        WKT.append("")
        for e in (4326,32615):
            s=osr.SpatialReference(); s.ImportFromEPSG(e); x=gdal.GetDriverByName("GTiff").Create("/vsimem/p.tif",2,2); x.SetProjection(s.ExportToWkt()); x.SetGeoTransform((1,2,0,3,0,-2)); x=None; x=gdal.Open("/vsimem/p.tif"); WKT.append(x.GetProjection())
    return WKT
WKT=[]
def files(r):
    d,base,v,ctx=make(r); d.projection=r.choice(wkt()); big=r.random()<0.5
    if big: # values which need every bit of their type
        n=np.random.RandomState(r.getrandbits(32))
        if v.dtype.kind=="f": v=(n.random_sample(v.shape)*r.choice([1,1e9,1e-9])).astype(v.dtype)
        else: i=np.iinfo(v.dtype); v=n.randint(i.min,i.max,v.shape,dtype=v.dtype,endpoint=True) if hasattr(n,"integers") else np.frombuffer(n.bytes(v.nbytes),v.dtype).reshape(v.shape)
        q,l=layout(r,v); e=rd.rdarray(q,meta_obj=d,no_data=d.no_data); d=e
    if big and v.dtype.itemsize==8 and v.dtype.kind!="f": d.no_data=int(d.no_data)
    nm="SaveGDAL"; s=Snap(d); a0=attrs(d); op(nm); f="p.tif"
    try: quiet(rd.SaveGDAL,f,d)
    except Exception as e: fail(nm+":refused",repr(e)+" "+ctx); return ctx
    s.check(nm,ctx); x=gdal.Open(f); b=x.GetRasterBand(1); got=b.ReadAsArray(); nd=b.GetNoDataValue()
    if got.shape!=v.shape or not np.array_equal(got.astype(v.dtype) if got.dtype!=v.dtype else got,v,equal_nan=v.dtype.kind=="f") or not np.array_equal(got.astype("float64"),v.astype("float64"),equal_nan=True): fail(nm+":cells",f"stored as {got.dtype} "+ctx)
    if v.dtype.kind=="f" and got.dtype!=v.dtype or (v.dtype.kind!="f" and got.dtype.kind=="f" and str(v.dtype) in("uint8","uint16","int16","int32","uint32")): fail(nm+":type",f"stored as {got.dtype} "+ctx)
    if nd is None or float(nd)!=float(np.array([d.no_data]).astype(v.dtype)[0]) and float(nd)!=float(d.no_data): fail(nm+":no_data",f"{nd!r} for {d.no_data!r} "+ctx)
    if not np.allclose(x.GetGeoTransform(),a0["geotransform"],rtol=1e-12): fail(nm+":geotransform",ctx)
    if x.GetProjection()!=a0["projection"]: fail(nm+":projection",ctx)
    md=x.GetMetadata()
    for k,t in a0["metadata"].items():
        if md.get(k)!=t: fail(nm+":metadata",f"{k} is {md.get(k)!r} not {t!r} "+ctx)
    x=None; nm="LoadGDAL"; op(nm); over=r.random()<0.2
    try: y=quiet(rd.LoadGDAL,f,no_data=77) if over else quiet(rd.LoadGDAL,f)
    except Exception as e: fail(nm+":refused",repr(e)+" "+ctx); return ctx
    if type(y) is not rd.rdarray or not np.array_equal(np.asarray(y).astype("float64"),got.astype("float64"),equal_nan=True) or y.dtype!=got.dtype: fail(nm+":cells",ctx)
    if y.no_data!=(77 if over else nd): fail(nm+":no_data",ctx)
    if not np.allclose(y.geotransform,a0["geotransform"],rtol=1e-12) or y.projection!=a0["projection"]: fail(nm+":georeferencing",ctx)
    h0=md.get("PROCESSING_HISTORY",""); z=dict(y.metadata); history(nm,md,z,ctx)
    count("files"); os.unlink(f)
    if r.random()<0.3: # the library reads what Python wrote, and Python what has no NoData
        t=gdal.GetDriverByName("GTiff").Create("q.tif",3,2,1,r.choice([gdal.GDT_Byte,gdal.GDT_Float32])); t=None; op("LoadGDAL-no-nodata")
        try: quiet(rd.LoadGDAL,"q.tif"); fail("LoadGDAL:missing-no_data-accepted",ctx)
        except Exception: count("refusals")
        y=quiet(rd.LoadGDAL,"q.tif",no_data=3)
        if y.no_data!=3: fail("LoadGDAL:no_data-argument",ctx)
        t=gdal.GetDriverByName("GTiff").Create("q.tif",3,2,1,gdal.GDT_CFloat32); t.GetRasterBand(1).SetNoDataValue(1); t=None
        for nm2,f2 in (("complex",lambda:rd.LoadGDAL("q.tif")),("missing",lambda:rd.LoadGDAL("none.tif")),("save-nowhere",lambda:rd.SaveGDAL("no-dir/x.tif",d))):
            op("LoadGDAL-"+nm2); count("refusals")
            try: quiet(f2); fail("files:"+nm2+":accepted",ctx)
            except Exception: pass
        os.unlink("q.tif")
    return ctx
def tools(r):
    "the command-line programs of the Python package"
    dt=r.choice(["float32","float64","int16","int32","uint8","uint16","uint32"]); d,base,v,ctx=make(r,dt,kinds=["C"]); d.projection=""; nd=np.array([ndof(d)]).astype(dt)[0]; d.no_data=nd.item(); quiet(rd.SaveGDAL,"i.tif",d); k=r.choice(["fill","fill-g","breach","accum","attr","compare","info"]); nm="cli-"+k; ctx=k+" "+ctx; op(nm); want=np.array(v,order="C"); m=r.choice(PLAIN+EXPO); x=r.choice([1.5,2.0]); at=r.choice(ATTR); rc=0
    if os.path.exists("o.tif"): os.unlink("o.tif")
    def cli(f,*a):
        o=sys.argv; sys.argv=["prog"]+list(a); out=io.StringIO()
        try:
            with contextlib.redirect_stdout(out): f()
        finally: sys.argv=o
        return out.getvalue()
    c=richdem_cli; err=None; out=""; g=d.geotransform
    if k in("fill","fill-g"): rc,_=call("eps8" if k=="fill-g" else "fill8",want,nd,g); f=lambda:cli(c.DepressionFilling,"i.tif","o.tif",*(["-g"] if k=="fill-g" else []))
    elif k=="breach": rc,_=call("breach8",want,nd,g); f=lambda:cli(c.BreachDepressions,"i.tif","o.tif")
    elif k=="accum": w2=np.ones(v.shape); rc,_=call("FA:"+m,want,nd,g,x,dout=w2); want=w2; f=lambda:cli(c.FlowAccumulation,"i.tif","o.tif","-m",m,*(["-e",str(x)] if m in EXPO else []))
    elif k=="attr": w2=np.zeros(v.shape,"float32"); rc,_=call("TA:"+at,want,nd,g,x,fout=w2); want=w2; f=lambda:cli(c.TerrainAttribute,"i.tif","o.tif","-a",at,"-z",str(x))
    elif k=="compare": b=np.array(v); b[r.randrange(v.shape[0]),r.randrange(v.shape[1])]=np.array([r.randrange(0,100)]).astype(dt)[0]; e=rd.rdarray(b,meta_obj=d,no_data=d.no_data); quiet(rd.SaveGDAL,"j.tif",e); f=lambda:cli(c.RdCompare,"i.tif","j.tif")
    else: f=lambda:cli(c.RdInfo,"i.tif")
    try: out=f()
    except (Exception,SystemExit) as e: err=e
    count("commands")
    if rc:
        if err is None: fail(nm+":error-swallowed",ctx)
        return ctx
    if err is not None: fail(nm+":refused",repr(err)+" "+ctx); return ctx
    if k=="compare":
        with np.errstate(all="ignore"): diff=np.abs(v.astype("float64")-b.astype("float64"))
        for t,q in (("Absolute Max difference:",np.nanmax(diff)),("Absolute Min difference:",np.nanmin(diff)),("Absolute Avg difference:",np.mean(diff)),("RMS difference:",np.sqrt(np.mean(np.square(diff))))):
            l=[x for x in out.split("\n") if x.startswith(t)]
            if len(l)!=1 or not (abs(float(l[0].split(":")[1])-q)<=1e-4*abs(q)+1e-30 or not np.isfinite(q)): fail(nm+":difference",f"{l} should be {q} "+ctx)
    elif k=="info":
        if f"Width     = {v.shape[1]}" not in out or f"Height    = {v.shape[0]}" not in out or f"Data type = {dt}" not in out: fail(nm+":text",out[:300]+ctx)
    else:
        y=gdal.Open("o.tif"); got=y.GetRasterBand(1).ReadAsArray()
        if got.dtype!=want.dtype or not np.array_equal(got,want,equal_nan=want.dtype.kind=="f"): fail(nm+":cells",f"stored as {got.dtype} "+ctx)
        if not np.allclose(y.GetGeoTransform(),g): fail(nm+":geotransform",ctx)
        y=None; count("cells_compared",want.size)
    for f in ("i.tif","o.tif","j.tif"):
        if os.path.exists(f): os.unlink(f)
    return ctx
import richdem.cli as richdem_cli
def case(r,c):
    f=r.choice([alter,alter,alter,accumulate,accumulate,accumulate,proportions,proportions,attribute,perlin,hierarchy,hierarchy,arrays,arrays,wrong,wrong,files,tools,tools])
    ctx=f(r); count(f.__name__); nontrivial(f"{c} {f.__name__} {ctx}"); sample(f.__name__+" "+str(ctx))
rv.main_loop(case)
