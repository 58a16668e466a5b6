#!/usr/bin/env python3
# Source of /verif/properties.jsonl (regenerate with: python3 tools/mkprops.py)
import json,os
P=[]
I="include/richdem/"
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:   a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Depression filling produces the lowest fully draining surface",
 "Completely filling a DEM raises every cell to exactly the lowest level from which a never-rising path of neighbouring cells leads off the grid edge (the minimum over such paths of the highest original elevation met), lowers no cell and changes nothing that already drains. This holds for every fill algorithm offered, for eight- and four-neighbour connectivity where offered and for every supported elevation type, so all of them agree, and filling a filled DEM changes nothing. Cells without data in regions reaching the grid edge (NoData lower than all data) stay NoData, act as outlets and are never altered.",
 ["inputs"],"all DEM shapes (including one row or column), elevation types, NoData regions that reach the edge with a NoData value below all data, topologies, and fill algorithms",
 "Tests compare a handful of synthetic DEMs between two algorithms at a time or with one stored output; the guarantee is over every surface and tie pattern, and no test holds an independent oracle for the result.",
 [I+"depressions/Barnes2014.hpp",I+"depressions/Wei2018.hpp",I+"depressions/Zhou2016.hpp",I+"depressions/depressions.hpp"],
 [("Priority-Flood (original and improved)",I+"depressions/Barnes2014.hpp"),("Wei 2018",I+"depressions/Wei2018.hpp"),("Zhou 2016",I+"depressions/Zhou2016.hpp"),("FillDepressions front end",I+"depressions/depressions.hpp")],
 ["the array after the call, compared cell by cell with an independent minimax relaxation"])

p("C02","Epsilon filling leaves a strictly descending path from every cell",
 "After epsilon depression filling of a floating-point DEM every data cell not on the grid edge and not next to NoData has at least one neighbour that is strictly lower, so a strictly descending path leads off the data. No cell is lowered, no cell ends below the level plain filling gives it, and a cell is raised above that level only by the few representable increments needed to keep the path descending. NoData cells are left unchanged.",
 ["inputs"],"all floating-point DEM shapes, NoData regions reaching the edge, both topologies",
 "No test checks the epsilon surface at all beyond not crashing on seven DEMs; descent at every cell must hold on every surface, however large the flats.",
 [I+"depressions/Barnes2014.hpp"],[("epsilon Priority-Flood",I+"depressions/Barnes2014.hpp")],
 ["the array after the call: strict descent at each cell, bounds against the plain fill"])

p("C03","Size-limited filling fills exactly the depressions within the limit",
 "Filling only depressions of at most N cells raises every depression with N or fewer cells below its spill level exactly to that level, as full filling would, and leaves every cell of larger depressions and all other cells at their original elevation. A limit at least the size of the grid is the same as full filling, and a limit of zero changes nothing. Depressions that spill over the same cell may be counted as one.",
 ["inputs"],"all DEM shapes, numeric types and size limits",
 "One test compares three limits on two small DEMs; where a depression lies in the processing order (last, nested, sharing a spill) decides whether it is handled.",
 [I+"depressions/Barnes2014.hpp"],[("PriorityFlood_Barnes2014_max_dep",I+"depressions/Barnes2014.hpp")],
 ["the array after the call against components of cells below spill level"])

p("C04","Depression detection, masks and watersheds agree with the filled surface",
 "A DEM is reported to contain depressions exactly when filling it would change some cell, and the pit mask marks exactly the data cells filling would raise. Priority-flood watershed labelling gives every data cell of a DEM a label, each label's region drains as one connected piece to the edge and, when asked to alter elevations, produces the same surface as filling. Flood-derived flow directions lead every data cell, without cycles, along neighbouring cells that never rise on the filled surface, to a cell that points off the grid or off the data; NoData cells get no direction.",
 ["inputs"],"all DEM shapes, elevation types, plateau and tie patterns, and NoData regions reaching the edge",
 "Tests never call these operations with an oracle: the smoke runs only detect crashes.",
 [I+"depressions/Barnes2014.hpp",I+"depressions/depressions.hpp"],[("HasDepressions, pit_mask",I+"depressions/Barnes2014.hpp"),("PriorityFloodFlowdirs, PriorityFloodWatersheds",I+"depressions/Barnes2014.hpp")],
 ["returned flag, mask, label and direction rasters"])

p("C05","Breaching removes depressions only by lowering, within its limits",
 "Complete breaching leaves a never-rising path off the data from every data cell. It only lowers cells, except that a single cell lower than all its neighbours may first be raised to at most the lowest of them, and it cuts only ground above the level of the pit being drained. Selective breaching digs the same channels but only for pits whose channel fits both the length and the depth limit, and otherwise leaves cells as they were; constrained breaching digs no further along and no deeper than the limits for each pit. When filling is requested too, no depression remains in any mode. NoData cells are unchanged.",
 ["inputs","configurations"],"all DEM shapes, elevation types, breaching modes and length/depth limits",
 "One test runs one mode on one DEM; limits, ties and nested pits change which channels are dug.",
 [I+"depressions/Lindsay2016.hpp",I+"depressions/depressions.hpp"],[("Lindsay 2016 breaching",I+"depressions/Lindsay2016.hpp")],
 ["the array after the call"])

p("C06","Flat resolution gives every drainable flat cell a path out and nothing else",
 "Resolving flats on a depressionless DEM gives every cell of every flat that has an outlet a way to drain: following the resulting directions (or strictly lower neighbours on the altered elevations) always leaves the flat, without cycles. Cells that already had a flow direction keep it, cells outside drainable flats keep their elevations, and no flat cell is lowered, or raised to a neighbour outside the flat that was higher before as long as the elevation type can represent the increments between them; elevations of integer types, which have no room for increments, are left as they are. The increments of a flat cell are twice its step distance from the flat's outlets plus, where the flat borders higher ground, the flat's height less its step distance from that ground. Flats are labelled so that two flat cells share a label exactly when they are connected at the same elevation.",
 ["inputs"],"all depressionless DEM shapes and elevation types, flats of any outline, size or number, and NoData borders",
 "Tests do not check the resolved surface; drainage must hold on flats of every shape.",
 [I+"flats/flat_resolution.hpp",I+"flats/Barnes2014.hpp",I+"flats/flats.hpp",I+"flats/find_flats.hpp"],[("flat mask, gradients",I+"flats/Barnes2014.hpp"),("barnes_flat_resolution_d8 and ResolveFlatsEpsilon",I+"flats/flats.hpp")],
 ["flow directions / elevations / labels after the call"])

p("C07","Flow proportions are a valid partition that runs downhill",
 "For every flow metric each data cell either has no flow or distributes proportions that are non-negative and sum to one among its neighbours; NoData cells are marked as NoData. Flow is only ever assigned to existing, data-holding neighbours inside the grid that are strictly lower than the cell, so directed flow has no cycles. Cells on the grid edge give no flow.",
 ["inputs"],"all DEM shapes and elevation types, NoData placement, metrics and exponents",
 "Existing tests sum accumulation on one tilted surface; validity must hold for each cell of every terrain and metric.",
 [I+"flowmet/"+f for f in ["dinf_flowdirs.hpp","d8_flowdirs.hpp","Fairfield1991.hpp","Freeman1991.hpp","Holmgren1994.hpp","OCallaghan1984.hpp","Quinn1991.hpp","Tarboton1997.hpp"]],
 [("FM_* metrics",I+"flowmet/")],["the proportions array returned"])

p("C08","Each flow metric reproduces its published definition",
 "Steepest-descent metrics (D8, D4) send all flow to a neighbour of maximal downhill gradient, the first one considered among equal neighbours. Multiple-flow metrics split it among all lower neighbours in proportion to a power of the gradient (Freeman), or of the gradient times contour length (Holmgren; Quinn with power one). D-infinity sends it down the steepest triangular facet, shared between the two neighbours bounding the facet in proportion to how close the descent angle is to each. The stochastic metrics (Rho8, Rho4) pick exactly one lower neighbour, with the probabilities their random scaling of diagonal (Rho8) or north-south (Rho4) drops implies. A cell with a strictly lower neighbour that holds data has flow under these metrics (under D-infinity, if a facet with data slopes down).",
 ["inputs"],"all DEM shapes and elevation types, exponents, NoData placement",
 "No test computes a metric independently: a wrong weight or a swapped neighbour still conserves water and passes.",
 [I+"flowmet/"+f for f in ["Fairfield1991.hpp","Freeman1991.hpp","Holmgren1994.hpp","OCallaghan1984.hpp","Quinn1991.hpp","Tarboton1997.hpp"]],
 [("FM_* metrics",I+"flowmet/")],["the proportions array returned against a direct transcription of the definition"])

p("C09","Flow accumulation conserves and routes every unit of flow exactly once",
 "Given flow proportions, each data cell's accumulation equals its own generated flow (one, or the supplied weight) plus each upstream neighbour's accumulation times the proportion sent to it. Hence the accumulation gathered at cells without onward flow equals the total generated, and no flow is lost, duplicated or moved to cells the proportions do not name. NoData cells are marked as NoData.",
 ["inputs"],"all acyclic proportion fields (from every metric, four- and eight-neighbour, and synthetic ones), weights and grid shapes",
 "Tests check one tilted plane; conservation must hold along every flow network.",
 [I+"methods/flow_accumulation.hpp",I+"methods/flow_accumulation_generic.hpp"],[("FlowAccumulation",I+"methods/flow_accumulation_generic.hpp"),("FA_* front ends",I+"methods/flow_accumulation.hpp")],
 ["the accumulation array against a topological replay of the proportions"])

p("C10","D8 and D-infinity direction rasters and their upslope areas are consistent",
 "The D8 direction raster points each interior data cell to its lowest neighbour below it, a non-diagonal one among equally low ones (off the grid at the edge), and marks cells with no lower neighbour as no-flow and NoData cells as NoData; the D-infinity raster gives the angle of steepest facet descent (due east a full turn, zero meaning no flow). Upslope area of a cell, with or without flow, is one plus the area passed on by every cell whose direction leads into it, for the same raster, and flow is conserved. Results do not depend on the number of threads used.",
 ["inputs","schedules"],"all DEM shapes, elevation types, arbitrary acyclic direction rasters and thread counts",
 "Tests check one small accumulation raster per file in a directory; random rasters, NoData borders and threads are not explored.",
 [I+"flowmet/d8_flowdirs.hpp",I+"flowmet/dinf_flowdirs.hpp",I+"methods/d8_methods.hpp",I+"methods/dinf_methods.hpp"],
 [("d8_flow_directions, d8_flow_accum",I+"methods/d8_methods.hpp"),("dinf_flow_directions, dinf_upslope_area",I+"methods/dinf_methods.hpp")],["direction and area rasters"])

p("C11","The depression hierarchy describes the terrain's true nesting of depressions",
 "The hierarchy built from a DEM has one leaf for every local pit (a flat without lower neighbours), whose pit cell lies in it, each internal node has exactly two children and its children's parent link names it, and all links lead to the ocean without cycles. Every depression's spill level is the lowest saddle over which its pit can leave it, its cell count and water volume equal those of the cells below that level computed directly from the terrain, and every cell's label is the leaf or ocean to which its flow direction leads. Every flow direction goes to a neighbour that is not higher.",
 ["inputs"],"all DEM shapes and elevation types, with an ocean present, including ties, plateaus and deep nesting",
 "Tests check two or three hand-made hierarchies; nesting is combinatorial.",
 [I+"depressions/depression_hierarchy.hpp"],[("GetDepressionHierarchy",I+"depressions/depression_hierarchy.hpp")],["the returned hierarchy, labels and flow directions"])

p("C12","Fill-Spill-Merge conserves water and leaves level ponds",
 "For any initial water, the water standing after Fill-Spill-Merge plus the water that reached the ocean equals the water supplied, no depth is negative, and ocean cells hold none. Standing water forms ponds with a level surface whose height does not exceed the lowest point where it could escape, and water stands in a depression only if it was supplied there or could flow or overflow into it. If the supply exceeds every capacity, the result is the completely filled surface, and running again on the result with no new water changes nothing.",
 ["inputs"],"all terrains with an ocean and all water distributions",
 "Tests are a few small DEMs plus a randomized test of total filling only on one generator.",
 [I+"depressions/fill_spill_merge.hpp",I+"depressions/depression_hierarchy.hpp"],[("FillSpillMerge",I+"depressions/fill_spill_merge.hpp")],["water table and hierarchy water volumes after the call"])

p("C13","Terrain attributes equal their defining window formulas",
 "Slope (each unit), aspect, planform, profile and total curvature of every data cell equal the published three-by-three window formulas evaluated on its elevation neighbourhood, with missing and outside neighbours replaced by the cell's own elevation, and scaled by cell size and vertical factor. The stream power and wetness indices are the logarithms of flow accumulation per cell area times, and divided by, slope plus 0.001. Slopes are never negative, aspects are compass bearings of the downhill direction (0 for due north) or -1 where the surface is flat, the units convert to one another exactly, and shifting all elevations by a constant or using more threads changes nothing. NoData cells stay NoData.",
 ["inputs","configurations"],"all DEM shapes, elevation types, cell sizes, vertical factors and NoData placement",
 "Tests only detect crashes in these functions.",
 [I+"methods/terrain_attributes.hpp"],[("TA_* functions",I+"methods/terrain_attributes.hpp")],["attribute rasters against an independent evaluation"])

p("C14","Raster operations behave as a plain rectangular table of values",
 "After any sequence of create, resize, fill, set, replace, scale, copy, move, expand, count, compare, flip, transpose, row and column get/set and edge queries on a raster, its size, contents, NoData and equality are exactly those of a plain table put through the same operations. Index and coordinate conversions are inverse, neighbour offsets name the true neighbours, and copies are independent of their source. Whatever the current size, two- and three-dimensional rasters agree with this model, and neighbour lookups outside the grid report that there is no neighbour. After single cells were written, the data-cell count is brought up to date by an explicit recount.",
 ["histories"],"all finite operation histories over rasters of all shapes and element types",
 "Tests run single operations once each from fresh arrays; stale caches and offsets need sequences.",
 [I+"common/Array2D.hpp",I+"common/Array3D.hpp"],[("Array2D",I+"common/Array2D.hpp"),("Array3D",I+"common/Array3D.hpp")],["every public read after each step"])

p("C15","Memory a raster wraps is shared, never freed, and owned memory is freed once",
 "A buffer or raster wrapping caller-supplied memory reads and writes that memory directly and never releases it; whatever sequence of copy, move, assignment, swap, resize or destruction follows, owned memory is released exactly once and the caller's never. Copying duplicates contents, moving leaves the source empty and reusable, and resizing memory that is not owned to another size is refused.",
 ["histories"],"all finite histories of ownership operations over owned, wrapped and empty buffers",
 "The test does each transfer once; double release and release of caller memory arise from combinations.",
 [I+"common/ManagedVector.hpp",I+"common/Array2D.hpp"],[("ManagedVector",I+"common/ManagedVector.hpp")],["reads through every alias, allocation events, sanitizer reports"])

p("C16","Saving a raster to GeoTIFF and loading it back loses nothing",
 "A raster saved to GeoTIFF and loaded again has the same size, values, NoData value, geotransform, projection and metadata, and the processing history with the new entry appended after the earlier ones. Loading a window of a file yields exactly that window's cells together with its offset in the full raster, whose geotransform it keeps; saving with that offset georeferences the window where it lies. Saving changes nothing of the raster in memory but its metadata and history entries.",
 ["inputs","histories"],"all shapes, element types, metadata, window positions and repeated save/load chains",
 "Tests load one small file; metadata, windows and chains are not checked.",
 [I+"common/Array2D.hpp",I+"common/gdal.hpp",I+"common/Array3D.hpp"],[("saveGDAL, loadGDAL",I+"common/Array2D.hpp")],["the reloaded raster; the file read by an independent GDAL client"])

p("C17","The native raster format and memory eviction preserve the raster",
 "Writing a raster to the native format or evicting it to its cache file and reading it back restores size, values, NoData, geotransform, projection, window offset and NoData counts exactly, for every element type and any number of evictions (an absent geotransform reads back as zeros). Loading without data yields the same size and georeference with no values. A missing, truncated or foreign file is reported as an error.",
 ["histories","inputs","fault_sequences"],"all rasters, all eviction and reload sequences, and file truncations at any byte",
 "No test covers the native format.",
 [I+"common/Array2D.hpp"],[("saveToCache, loadNative, dumpData, loadData",I+"common/Array2D.hpp")],["the raster after each step"])

p("C18","Layout files name each tile's file at its row and column",
 "Writing a layout row by row and reading it back yields the same grid of names, empty where a tile is missing, resolved relative to the layout file's directory. Grid position, size and base name reported while iterating are those of the file. A layout whose rows differ in length is reported as an error.",
 ["inputs","histories"],"all grids of names, including missing tiles, odd path characters and any directory",
 "No test covers layout files.",
 [I+"common/Layoutfile.hpp"],[("LayoutfileReader, LayoutfileWriter",I+"common/Layoutfile.hpp")],["the sequence of positions and names read"])

p("C19","A tiled raster behaves as one big raster whatever the cache size",
 "Reading and writing cells of a raster that is split into tiles and kept partly on disk gives the values a single in-memory raster would give, in every access order and for every number of tiles kept in memory. This covers missing tiles (which read as NoData and ignore writes), flips, filling all cells, edge and NoData queries, evictions, saving the tiles and merging them into one file: after saving, the files on disk hold the final values and the raster goes on as before. Layouts whose tiles differ in size are refused. No more tiles are held in memory than asked for, and none is evicted while all fit.",
 ["histories","configurations"],"all access histories, tile layouts and cache sizes",
 "No test covers tiled rasters; errors show only after particular eviction orders.",
 [I+"tiled/A2Array2D.hpp",I+"tiled/lru.hpp"],[("A2Array2D",I+"tiled/A2Array2D.hpp")],["every read; saved tiles"])

p("C20","Priority queues pop in order and lose nothing",
 "Every priority queue in the library returns exactly the items pushed, each once, in non-decreasing order of key for any interleaving of pushes and pops it permits; the stable one returns equal keys in order of insertion, and grid cell orderings are consistent strict orders. This includes negative, fractional and infinite keys and any queue length (up to 2^31-1 insertions for the stable queue).",
 ["histories"],"all push/pop histories over all key types",
 "A single fixed sequence is tested for one queue.",
 [I+"common/radix_heap.hpp",I+"common/grid_cell.hpp"],[("radix_heap",I+"common/radix_heap.hpp"),("GridCellZ_pq, GridCellZk_pq",I+"common/grid_cell.hpp")],["every pop against a model multiset"])

p("C21","Disjoint sets and the recency cache follow their abstract models",
 "After any sequence of unions, find reports two numbers in the same set exactly when a chain of unions joined them, directed merges of representatives make the named element the representative, and the structure grows as needed. The recency cache always holds the most recently used distinct items up to its capacity, evicting the least recently used first, and reports size, contents, and eviction candidates accordingly.",
 ["histories"],"all operation histories",
 "No test exercises either on its own.",
 [I+"common/disjoint_dense_int_set.hpp",I+"tiled/lru.hpp"],[("DisjointDenseIntSet",I+"common/disjoint_dense_int_set.hpp"),("LRU",I+"tiled/lru.hpp")],["every query against a partition/list model"])

p("C22","Results do not depend on the number of threads or the schedule",
 "Every parallel operation (flow metrics and directions other than the stochastic ones, terrain attributes, flat finding and resolution, upslope areas, depression hierarchy and fill-spill-merge) gives bit-identical results for one thread and for any number of threads, on every run.",
 ["schedules","configurations"],"all thread counts, loop schedules and thread interleavings, on all inputs",
 "Tests run one thread configuration once and never compare.",
 [I+"methods/",I+"flowmet/",I+"flats/",I+"depressions/depression_hierarchy.hpp",I+"depressions/fill_spill_merge.hpp"],[("OpenMP loops",I)],["outputs hashed per run across thread counts and perturbed schedules"])

p("C23","Parallel operations are free of data races",
 "No parallel operation of the library lets two threads access the same memory without synchronisation when at least one writes, under any thread count or schedule. Counts and reductions computed in parallel equal the sequential ones.",
 ["schedules"],"all interleavings of the parallel loops, all inputs",
 "A race may leave the result of every test run correct; only observing the accesses shows it.",
 [I+"methods/",I+"flowmet/",I+"flats/",I+"misc/misc_methods.hpp",I+"depressions/depression_hierarchy.hpp",I+"depressions/fill_spill_merge.hpp","src/random.cpp"],[("OpenMP loops",I)],["ThreadSanitizer over an instrumented OpenMP runtime"])

p("C24","Random streams are reproducible from a seed and within their ranges",
 "Seeding with a number and the same thread count makes every later sequence of uniform and normal draws identical, different seeds give different sequences on every thread, and saving and restoring the generator state resumes the sequence exactly. Uniform integers cover exactly the closed range asked for and reals the half-open range, without bias, and generated terrain is the same for the same seed.",
 ["histories","schedules"],"all seeds, thread counts, ranges and draw sequences",
 "No test compares sequences.",
 [I+"common/random.hpp","src/random.cpp",I+"terrain_generation.hpp","src/terrain_generation/terrain_generation.cpp","src/terrain_generation/PerlinNoise.cpp"],[("seed_rand, uniform_rand_*",  "src/random.cpp"),("perlin","src/terrain_generation/")],["draw sequences"])

p("C25","Distributed flow accumulation equals the single-machine result",
 "The tiled, multi-process D8 accumulation program writes, for every tile, the accumulation a single in-memory computation gives for the assembled direction raster, whatever the tiling, the number of processes and the memory-retention strategy. Missing tiles and NoData cells act as the edge of the data, and tile output keeps size, georeference and orientation.",
 ["schedules","configurations","inputs"],"all direction rasters, tilings (with missing tiles), process counts and strategies",
 "Tests do not run this program; cross-tile paths that leave and re-enter tiles are not sampled.",
 ["programs/parallel_d8_accum/main.cpp",I+"common/communication.hpp"],[("consumer/producer, tile perimeter graph","programs/parallel_d8_accum/main.cpp")],["output tiles"])

p("C26","Distributed depression filling equals the single-machine result",
 "The tiled, multi-process depression filling program writes, for every tile, the elevations that filling the assembled DEM in memory gives, whatever the tiling, number of processes and retention strategy, with missing tiles acting as outside the data. Output keeps size, georeference and orientation.",
 ["schedules","configurations","inputs"],"all DEMs, tilings (with missing tiles), process counts and strategies",
 "Tests do not run this program.",
 ["programs/parallel_priority_flood/main.cpp","programs/parallel_priority_flood/Zhou2016pf.hpp","programs/parallel_priority_flood/Barnes2014pf.hpp",I+"common/communication.hpp"],[("spillover graph, HandleEdge/HandleCorner","programs/parallel_priority_flood/main.cpp")],["output tiles"])

p("C27","No input makes the library touch memory it does not own",
 "For every raster shape, including single cells, single rows or columns, all-NoData and constant rasters, and extreme values, the library's operations neither access memory outside their objects, use freed or uninitialised memory, nor execute undefined arithmetic, and they terminate. Accumulations do the same for direction codes, angles and proportions no flow metric would produce. An operation that cannot work on an input throws an error, and inputs passed as constant stay unchanged.",
 ["inputs"],"all shapes and values including degenerate ones, over all library operations",
 "Tests run without sanitizers on ordinary DEMs.",
 [I],[("all algorithms",I)],["AddressSanitizer and UndefinedBehaviorSanitizer reports, CPU-time bound"])

p("C28","Command-line tools give the library's result and report failure",
 "Each command-line tool writes, for the options it is given, the raster the corresponding library operation computes on its input file, or prints what the file holds (values, counts, georeference, NoData, history, differences between two files). Output rasters keep the input's geotransform and projection, and its NoData value where the operation does not define its own; tools that change a raster keep its processing history, and all but the depression hierarchy and fill-spill-merge tools and the layout merger append their command to it. A tool exits with zero status exactly when its result was written: not for wrong numbers of arguments, options or algorithms it does not have, missing or unsupported input, or an output which cannot be written in full; and what it refuses leaves no output file.",
 ["configurations","inputs"],"all tools built by CMake, options, and input rasters of all seven cell types",
 "Smoke tests only check the exit code on fixed DEMs.",
 ["apps/",I+"common/Array2D.hpp"],[("rd_* programs","apps/")],["output files, exit status"])

p("C29","Damaged or foreign input files are reported, not trusted",
 "Opening a missing, truncated, corrupted or wrong-type input (raster, native cache, layout, hierarchy of tiles) ends in a reported error or a correct load of what is there: never a crash, hang, unbounded allocation or a raster with uninitialised cells.",
 ["fault_sequences","inputs"],"all corruptions of input files: truncation at each position, flipped bytes, hostile header values",
 "No test opens a bad file.",
 [I+"common/Array2D.hpp",I+"common/Layoutfile.hpp",I+"common/gdal.hpp"],[("loaders",I+"common/Array2D.hpp")],["outcome class and sanitizer reports per corrupted file"])

p("C30","The Python interface returns what the C++ library computes, without surprises",
 "Every Python function returns the value the C++ library computes for the same data, for all supported numeric types, with and without in-place operation. With in-place off the caller's arrays are never modified and with it on they hold the result; NoData, geotransform and metadata carry over to results, and returned arrays stay valid after their inputs are released.",
 ["inputs","configurations"],"all array types, memory layouts, options, and object lifetimes",
 "Two Python tests check one default and one hierarchy; layout, dtype and aliasing are not covered.",
 ["wrappers/pyrichdem/richdem/__init__.py","wrappers/pyrichdem/src/pywrapper.cpp","wrappers/pyrichdem/src/pywrapper.hpp"],[("rdarray, FillDepressions, FlowAccumulation, ...","wrappers/pyrichdem/richdem/__init__.py")],["returned arrays and caller arrays"])

p("C31","Measures over rasters equal direct computation on the cells",
 "The surface area of a DEM is the sum over its data cells of the eight half-size triangles joining each cell with its neighbours (missing ones taken at its own height), accurate for any steepness or cell size and never less than the planar area; its perimeter is the number of data cells with a missing neighbour, or the total length of data cell sides facing a missing one. Bucket fills set exactly the cells of the sought value connected to a seed, or to the raster's edge, through such cells not already set, under the chosen connectivity, and always end. ArcGIS direction codes convert to the direction they point in and unknown codes are refused, and cell iteration visits each cell once. Inputs stay unchanged and thread counts do not matter beyond rounding.",
 ["inputs"],"all rasters, NoData placement and seeds",
 "Only one bucket fill on one raster is tested.",
 [I+"misc/misc_methods.hpp",I+"misc/conversion.hpp",I+"common/iterators.hpp"],[("BucketFill, Perimeter, surface area",I+"misc/misc_methods.hpp")],["returned values and rasters"])

p("C32","Progress reporting and timing never disturb or misstate the work",
 "Progress reporting accepts any amount of work including none or more than 32 bits, prints percentages that never decrease and never exceed one hundred, and ends in bounded time; timers accumulate exactly the running intervals and refuse stop without start and start while running. Enabling or disabling logging and progress changes no result.",
 ["histories","configurations"],"all work totals, update sequences and thread counts",
 "No test drives the reporters.",
 [I+"common/ProgressBar.hpp",I+"common/timer.hpp"],[("ProgressBar, Timer",I+"common/ProgressBar.hpp")],["bytes printed, timer reads"])
with open(os.path.join(os.path.dirname(__file__),"../properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
