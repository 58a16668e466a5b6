"""Registry: property id -> how its check runs."""
import rvdrv
from rvdrv import build, run_sharded
from concurrent.futures import ThreadPoolExecutor

PROPS={}
def cpp(pid,harness,quick,thorough,rule,mode="asan",parts=1,technique="",level_note="",min_distinct=20,env=None,cpu=40,assume=(),**kw):
    def run(res,p,cases,first):
        exe=build(harness,mode,parts,**kw)
        n=cases or (quick if res.tier=="quick" else thorough)
        run_sharded(res,exe,n,env=env,cpu=cpu,first=first,shards=1 if n<8 else rvdrv.JOBS)
    PROPS[pid]=dict(run=run,rule=rule,technique=technique,level_note=level_note,min_distinct=min_distinct,assume=assume)

cpp("C01","c01_fill",24000,400000,
    "random DEMs (16 terrain families, 10 element types, edge-reaching NoData, 1xN to 70x70); non-trivial = at least one data cell lies in a depression; each is filled by 8 entry points and compared cell by cell with a label-correcting minimax relaxation",
    parts=5,technique="monitor: independent minimax oracle over recorded before/after surfaces, under ASan+UBSan",
    level_note="randomised executions of the real fill routines, every output cell checked")
cpp("C02","c02_eps",40000,500000,"random floating-point DEMs (f32/f64) with edge-reaching NoData; non-trivial = epsilon filling raised some cell; strict descent, bounds and NoData checked at every cell for 4 entry points",
    technique="monitor: per-cell descent/bound oracle on recorded surfaces, under ASan+UBSan",level_note="randomised executions, every output cell checked")
cpp("C03","c03_maxdep",30000,400000,"random DEMs of 5 types, D8 and D4, limits chosen around actual depression sizes; non-trivial = (DEM, limit) for which some depression was filled and some left",
    technique="monitor: component oracle on recorded surfaces, under ASan+UBSan",level_note="randomised executions, every output cell checked")
cpp("C04","c04_detect",24000,300000,"random DEMs of 5 types with and without depressions; non-trivial = DEM with a depression; flag, mask, labels and directions checked at every cell against the minimax surface",
    technique="monitor: minimax/partition/path oracles on recorded outputs, under ASan+UBSan",level_note="randomised executions, every output cell checked")
cpp("C05","c05_breach",24000,300000,"random DEMs of 5 types, D8/D4 complete breaching, and selective/constrained modes with random limits; plus single-pit DEMs whose only channel is known, judged at limits just below and above its length and depth; non-trivial = DEM with a depression",
    technique="monitor: drainage/level/limit oracles on recorded before/after surfaces, under ASan+UBSan",level_note="randomised executions, every output cell checked")
cpp("C06","c06_flats",24000,300000,"random DEMs of 5 types, three quarters of them depressionless, with edge-reaching NoData; non-trivial = DEM with a drainable flat; flat marks, labels, mask, altered elevations and directions checked at every cell, every direction path walked",
    parts=2,technique="monitor: component/gradient/path oracles on recorded masks, labels, elevations and directions, under ASan+UBSan",level_note="randomised executions, every output cell checked")
cpp("C07","c07_props",16000,200000,"random DEMs of 5 types, scattered, edge-reaching and high-valued NoData, all shapes; non-trivial = DEM with a descending interior cell; proportions of 13 entry points checked at every cell, starting from clean and dirty arrays",
    technique="monitor: per-cell validity oracle on recorded proportion arrays, under ASan+UBSan",level_note="randomised executions, every output cell checked")
cpp("C08","c08_metrics",12000,200000,"random DEMs as for C07; non-trivial = DEM with a descending interior cell (or one drop pair for the choice-frequency tests); every cell's proportions compared with a transcription of the metric's definition; choice frequencies of stochastic metrics tested over 3600 independent cells each (6 sigma)",
    technique="monitor: transcribed-definition oracle and frequency test on recorded proportion arrays, under ASan+UBSan",level_note="randomised executions, every output cell checked")
cpp("C09","c09_accum",24000,300000,"accumulation over proportions of all metrics on random DEMs and over synthetic acyclic proportion fields (random orders, serpentine chains), unit and random weights; non-trivial = field with some flow; the balance equation is checked at every cell and the total over the grid",
    technique="monitor: conservation (balance-equation) checker on recorded accumulation arrays, under ASan+UBSan",level_note="randomised executions, every output cell checked")
cpp("C10","c10_dirs",20000,300000,"random DEMs of 5 types with edge-reaching and scattered low NoData, and synthetic acyclic D8 and D-infinity direction rasters, at 1-8 threads; non-trivial = raster with some flow; directions compared with transcribed rules, and the area balance equation checked, at every cell",
    technique="monitor: transcribed-rule and balance-equation oracles on recorded direction and area rasters at varying thread counts, under ASan+UBSan",level_note="randomised executions, every output cell checked")
cpp("C11","c11_dephier",30000,250000,"random DEMs of 6 types, D8 and D4, ocean on the border, in NoData, in a single cell or scattered, 1-8 threads; non-trivial = DEM with at least one depression; every node, label and direction is checked",
    technique="monitor: merge-tree oracle (independent Kruskal saddles, terrain volumes, link structure) over the returned hierarchy, under ASan+UBSan",level_note="randomised executions, every node and cell checked")
cpp("C12","c12_fsm",60000,300000,"random DEMs of 4 types with random oceans and water supplies (uniform, point, exact capacities, oversupply, groundwater deficits), 1-8 threads; non-trivial = supply making some depression overflow",
    technique="monitor: conservation checker, local level-surface oracle and independent overflow routing over recorded water depths, under ASan+UBSan",level_note="randomised executions, every cell and pond checked")
cpp("C13","c13_attrib",8000,120000,"random DEMs of 6 types with edge-reaching and scattered NoData, square and oblong cells, several vertical factors, 1-8 threads; non-trivial = DEM with a sloping cell; every cell of 8 attributes compared with the transcribed formula in extended precision",
    technique="monitor: transcribed-formula oracle (extended precision), unit, shift and thread-count comparisons on recorded rasters, under ASan+UBSan",level_note="randomised executions, every cell checked")
cpp("C14","c14_model",40000,200000,"random histories of 24-60 operations over a pool of 2D or 3D rasters of 6 element types (dimensions 0 to 24); non-trivial = distinct history; after every operation every public read of the raster is compared with a table model, and all rasters of the pool are checked for independence",
    technique="monitor: lock-step reference model over random operation histories, under ASan+UBSan",level_note="randomised histories, complete state compared after each step")
cpp("C15","c15_owner",60000,600000,"random histories of 24-60 ownership operations over a pool of four owned, wrapping and empty buffers/rasters and two caller buffers, with constructor faults injected; non-trivial = distinct history; after every operation contents through every alias, ownership and the number of live elements are compared with a model",
    technique="monitor: lock-step ownership model, live-instance counting element type and fault injection, under ASan+UBSan",level_note="randomised histories, complete state compared after each step")
cpp("C16","c16_gdal",2400,80000,"random rasters of 7 element types (special values, NaN/extreme NoData, rotated and absent geotransforms, projections, metadata, history), chains of 1-3 save/load generations through both save and both load routines, 4 windows each (with padding, clipping, lazy loading), loads as other types, out-of-range windows, write faults injected by a file-size limit; non-trivial = distinct raster and chain",
    technique="monitor: round-trip comparison with the raster in memory plus an independent GDAL reader of every file, with write faults injected, under ASan+UBSan",level_note="randomised executions, every cell and header field compared")
def _c17(res,p,cases,first):
    n=cases or (6000 if res.tier=="quick" else 150000)
    with ThreadPoolExecutor(2) as ex:
        a=ex.submit(build,"c17_native"); b=ex.submit(build,"c17_native","asan",1,["-DWITH_COMPRESSION"],None,["-lboost_iostreams","-lz"],tag="z")
        exes=[a.result(),b.result()]
    for i,e in enumerate(exes): run_sharded(res,e,n,first=first,tag="" if i==0 else "z:")
PROPS["C17"]=dict(run=_c17,rule="random histories of 18-40 save, evict, reload, edit, reopen operations over one raster and three native files, for 9 element types, plain and zlib-compressed builds; every file is also truncated, extended, read as another type and replaced by foreign bytes, and writes are cut off by a file-size limit; non-trivial = distinct history",
    technique="monitor: lock-step reference model over eviction histories with injected truncations and write faults, under ASan+UBSan",level_note="randomised histories, every field compared after each step",min_distinct=20)
cpp("C29","c29_files",4000,120000,"random files of seven formats and five element types (compressed, tiled, big-endian, multi-band, complex, sparse) cut, flipped, zeroed, extended, replaced or with hostile header numbers in either of their parts, virtual rasters of up to 2^31 cells a side without bands or sources, missing files and directories, each opened in nine ways; files damaged and restored between opening and reading; tiled rasters with damaged, absent or bandless tiles; non-trivial = distinct file",
    technique="monitor: outcome and cells of every way of opening compared with GDAL's own account of the file; open datasets, descriptors and largest allocation watched around every call, under ASan+UBSan",level_note="randomised executions with injected damage, every opened cell compared")
cpp("C18","c18_layout",60000,400000,"random grids of tile names (1x1 to 7x6, missing tiles anywhere incl. whole last rows/columns, odd characters, names without extension) in nine kinds of directory, written with LayoutfileWriter and read back, copied through reader and writer, written by hand with spaces and optional trailing commas, ragged, empty, missing and unwritable; non-trivial = distinct grid of more than one tile",
    technique="monitor: the sequence of positions and names read is compared with the grid written, under ASan+UBSan",level_note="randomised executions, every accessor compared at every entry")
cpp("C19","c19_tiled",2400,60000,"random layouts of 1x1 to 4x4 tiles (1-6 cells wide, missing tiles, mixed orientations, with and without geotransform, flips asked for), read-only, template-copied and prefix-named rasters with caches of 1 to all tiles used interleaved for 40-220 operations (reads and writes by cell and by tile, NoData changes, fills, queries, saves, merges); non-trivial = distinct history with at least one eviction",
    technique="monitor: lock-step single-matrix model plus an independent GDAL reader of every saved tile, under ASan+UBSan",level_note="randomised histories, every read compared, full sweeps after each save")
cpp("C20","c20_queues",12000,200000,"random push/pop histories (20-400 steps, keys of ten types incl. extremes, infinities, signed zeros, denormals) over the plain and the pair radix heap (with swap, clear, copies, extraction of all smallest) and the three cell queues, plus random pairs for every cell comparison with NaN; non-trivial = distinct history",
    technique="monitor: every pop, peek and size compared with a model multiset, under ASan+UBSan",level_note="randomised histories, complete drain at the end of each")
cpp("C21","c21_sets",24000,400000,"random histories of 10-150 unions, directed merges of representatives, growth, finds and copies over up to 300 numbers, chains of up to 800000 directed merges, and 10-200 insertions, evictions, capacity changes and prunings over recency caches of three item types; non-trivial = distinct history",
    technique="monitor: lock-step label-vector and list models, complete state compared after each step, under ASan+UBSan",level_note="randomised histories")
cpp("C22","c22_par",10000,40000,"random DEMs of 3 types, ocean masks and water; each case runs three to five of some fifty parallel operations once with one thread and then at 2-13 threads under our own OpenMP runtime, with threads free-running with random delays or one at a time in random order; non-trivial = distinct DEM with interior cells; outputs compared byte by byte",
    parts=6,shim=True,technique="monitor: byte comparison of results across thread counts and perturbed schedules under a replacement OpenMP runtime, under ASan+UBSan",level_note="randomised inputs and schedules, every output byte compared")
cpp("C23","c22_par",6000,40000,"as C22 plus the stochastic operations and random generators, with progress reporting on; ThreadSanitizer observes every access, with only the synchronisation OpenMP promises visible; non-trivial = distinct DEM with interior cells",
    mode="tsan",parts=6,shim=True,base_drop=("-DRICHDEM_NO_PROGRESS",),extra=("-DRV_RACES",),tag="r",technique="ThreadSanitizer over a replacement OpenMP runtime with controlled schedules; reductions compared with one thread",level_note="randomised inputs and schedules, every access observed")
cpp("C24","c24_random",8000,40000,"random seeds (small, equal in one half, all bit flips of each other), 1 to 40 threads, scripts of 3-30 mixed draws replayed after re-seeding, distracting draws and state restoration, range and frequency tests with limits eight standard deviations wide, terrains of 1x1 to 24x24; non-trivial = distinct seed and thread count",
    technique="monitor: recorded draw sequences compared across replays, threads and seeds; frequency tests; transcription of the terrain noise, under ASan+UBSan",level_note="randomised histories; statistical limits far outside chance")

def _c30(res,p,cases,first):
    import os, subprocess
    d=rvdrv.build_py(); n=cases or (16000 if res.tier=="quick" else 400000)
    asan=subprocess.run(["g++","-print-file-name=libasan.so"],capture_output=True,text=True).stdout.strip(); stdcpp=subprocess.run(["g++","-print-file-name=libstdc++.so"],capture_output=True,text=True).stdout.strip()
    env=dict(LD_PRELOAD=os.path.realpath(asan)+" "+os.path.realpath(stdcpp),PYTHONMALLOC="malloc",PYTHONDONTWRITEBYTECODE="1",RV_PYDIR=d,PYTHONPATH=d+":"+os.path.join(rvdrv.REPO,"wrappers","pyrichdem"),OPENBLAS_NUM_THREADS="1")
    run_sharded(res,os.path.join(rvdrv.VERIF,"harness","c30_py.py"),n,first=first,env=env,wrap=["/usr/bin/python3"])
PROPS["C30"]=dict(run=_c30,rule="random calls of every function and command of the Python package over ten element types, nine memory layouts (column-major, strided, reversed, windows, read-only), NoData values of several kinds and precisions, options, in place or not, weights, wrong types, sizes and shapes, and inputs released before results are read; non-trivial = distinct call",
    technique="monitor: results compared byte by byte with the C++ library called through a plain C interface, arguments compared before and after, under AddressSanitizer with the interpreter's allocator off",level_note="randomised calls, every returned cell and attribute compared",min_distinct=20)

def _c32(res,p,cases,first):
    n=cases or (6000 if res.tier=="quick" else 120000); m=cases or (600 if res.tier=="quick" else 12000)
    kw=dict(parts=6,shim=True)
    with ThreadPoolExecutor(4) as ex:
        a=ex.submit(build,"c32_progress",base_drop=("-DRICHDEM_NO_PROGRESS",))
        v=[("silent:",ex.submit(build,"c22_par","plain",extra=("-DRV_DIGEST",),tag="ds",**kw)),
           ("progress:",ex.submit(build,"c22_par","plain",extra=("-DRV_DIGEST",),base_drop=("-DRICHDEM_NO_PROGRESS",),tag="dp",**kw)),
           ("logging:",ex.submit(build,"c22_par","plain",extra=("-DRV_DIGEST","-DRICHDEM_LOGGING"),base_drop=("-DRICHDEM_NO_PROGRESS",),tag="dl",**kw))]
        a=a.result(); v=[(t,e.result()) for t,e in v]
    run_sharded(res,a,n,first=first,shards=1 if n<8 else rvdrv.JOBS)
    for t,e in v: run_sharded(res,e,m,first=first,shards=1 if m<8 else rvdrv.JOBS,tag=t)
    base=res.digests.get("silent:",{})
    for t,_ in v[1:]:
        for k,h in res.digests.get(t,{}).items():
            if k in base and base[k]!=h: res.viol(t+"result-changed:"+k[2],k[0],f"{k[2]} gives another result when built with {t[:-1]} output (case {k[0]})")
            elif k in base: res.count("digests_compared")
PROPS["C32"]=dict(run=_c32,rule="progress bars over totals from 0 to 2^56 with ascending, unit, random and overrunning updates inside and outside parallel regions (everything printed is captured and parsed); timers under random start/stop/lap/accumulated/reset histories with waits; all operations in three builds (silent, with progress, with logging); non-trivial = distinct history or DEM",
    technique="monitor: parsed progress output, lock-step timer model with independent clock readings, result digests compared across builds, under ASan+UBSan",level_note="randomised histories, every line printed judged",min_distinct=20)

cpp("C31","c31_measures",24000,300000,"random DEMs of 5 types (steep ones up to 1e12, cells from 0.0003 to 3e6, square and oblong, any NoData) measured at 1-8 threads; bucket fills in both connectivities over 5 type pairs from random and repeated seeds or the edges, with cells already set, NaN values and both rasters being one; random direction codes; non-trivial = DEM with more than one data cell, or fill of more than one cell",
    technique="monitor: direct recomputation (extended precision cross products, cell loops, reachability) against returned values and rasters, under ASan+UBSan",level_note="randomised executions, every cell compared")
def _c27(res,p,cases,first):
    n=cases or (6000 if res.tier=="quick" else 150000); m=min(cases,40) if cases else (240 if res.tier=="quick" else 6000)
    with ThreadPoolExecutor(2) as ex:
        a=ex.submit(build,"c27_degen",parts=9,shim=True,extra=("-D_GLIBCXX_ASSERTIONS","-fsanitize=float-cast-overflow"))
        v=ex.submit(build,"c27_degen","plain",parts=9,shim=True,extra=("-gdwarf-4",),tag="v"); a,v=a.result(),v.result()
    run_sharded(res,a,n,first=first,shards=1 if n<8 else rvdrv.JOBS)
    run_sharded(res,v,m,first=first if cases else n,cpu=400,env={"RV_FEW":"1"},shards=1 if m<8 else rvdrv.JOBS,tag="v:",
        wrap=["valgrind","-q","--error-exitcode=99","--exit-on-first-error=yes","--leak-check=no","--track-origins=no"])
PROPS["C27"]=dict(run=_c27,rule="rasters from 0x0 to 140x60, most of them of one cell, one row, two wide or three by three, of 4 types, filled with type extremes, infinities, NaN, denormals, random bit patterns, constants or alternating extremes, any NoData value including NaN and one equal to the data, all or no cells NoData; odd parameters; each case applies 14 (thorough 30) of some 58 operations, among them accumulations of arbitrary direction codes, angles and proportions (out of range, off the grid, in circles); non-trivial = distinct raster",
    technique="AddressSanitizer, UndefinedBehaviorSanitizer (with float-to-integer conversions), library container assertions and CPU time limits over every operation; valgrind memcheck over a plain build for use of uninitialised values; monitor that inputs passed as const are unchanged",level_note="randomised executions of every operation, every memory access observed",min_distinct=50)
def _c28(res,p,cases,first):
    n=cases or (1800 if res.tier=="quick" else 60000)
    apps=rvdrv.build_apps(); exe=build("c28_apps",parts=8)
    run_sharded(res,exe,n,first=first,shards=1 if n<8 else rvdrv.JOBS,env={"RV_APPS":apps},cpu=120)
PROPS["C28"]=dict(run=_c28,rule="random rasters of 7 types (1x1 to 60x60, with or without georeference, projection and history) given as files to one of 22 programs built from apps/ with sanitizers, with random options; a quarter of the runs with missing input, too few or too many arguments, an output which cannot be created, complex cells or a full disk, 6% with options to refuse; non-trivial = distinct program and raster",
    technique="monitor: every cell, georeference, NoData and history of output files read with the plain GDAL C interface and compared with the library operation on the same data in memory; printed values parsed; exit status against injected faults; AddressSanitizer and UndefinedBehaviorSanitizer in the programs",level_note="randomised executions of the real programs, every output cell compared",min_distinct=50)
def _mpi(res,cases,first,prog,extra,quick):
    qa,qp=quick; n=cases or (qa if res.tier=="quick" else qa*25); m=cases or (qp if res.tier=="quick" else qp*25)
    fl=["-I"+rvdrv.VERIF+"/harness/fakempi","-I"+rvdrv.REPO+"/programs","-I"+rvdrv.REPO+"/programs/"+prog]+extra
    with ThreadPoolExecutor(2) as ex:
        a=ex.submit(build,"c25_mpi","asan",1,fl,tag=prog); b=ex.submit(build,"c25_mpi","plain",1,fl+["-fsanitize=undefined","-fno-sanitize-recover=all"],tag=prog); a,b=a.result(),b.result()
    run_sharded(res,a,n,first=first,cpu=120,shards=1 if n<8 else rvdrv.JOBS)
    run_sharded(res,b,m,first=first if cases else n,cpu=120,shards=1 if m<8 else rvdrv.JOBS,tag="u:")
_MPIRULE="random rasters cut into random tilings (one file with block sizes, or layouts of 1x1 to 5x5 files with missing tiles and four orientations from georeference and flags), three retention strategies, 2 to 6 processes under our own MPI in which every delivery, and whether sends are buffered, is chosen at random; non-trivial = distinct input and message order with more than one tile; every cell, size, georeference, NoData value and name of every output file compared"
PROPS["C25"]=dict(run=lambda res,p,cases,first:_mpi(res,cases,first,"parallel_d8_accum",[],(560,2000)),rule=_MPIRULE,
    technique="monitor: output files compared with a direct accumulation over the assembled raster; message monitor (deadlock, unmatched, truncated, changed buffers) in a replacement MPI with random schedules, under ASan+UBSan",level_note="randomised inputs and message orders, every output cell compared",min_distinct=20)
PROPS["C26"]=dict(run=lambda res,p,cases,first:_mpi(res,cases,first,"parallel_priority_flood",["-DRV_PF"],(400,1600)),rule=_MPIRULE,
    technique="monitor: output files compared with a label-correcting fill of the assembled raster; message monitor (deadlock, unmatched, truncated, changed buffers) in a replacement MPI with random schedules, under ASan+UBSan",level_note="randomised inputs and message orders, every output cell compared",min_distinct=20)
