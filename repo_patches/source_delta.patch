From e978bbd37714bdbcaef43ebb5c57222587a176d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 001/117] fix: initialise Array2D::from_cache in every
 constructor

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 46fd58e..6374f4f 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -126,7 +126,7 @@ class Array2D {
 
   ///If TRUE, loadData() loads data from the cache assuming  the Native format.
   ///Otherwise, it assumes it is loading from a GDAL file.
-  bool from_cache;
+  bool from_cache = false;
 
   #ifdef USEGDAL
   ///TODO
-- 
2.43.0


From e05c1c7918ffcbda05bfc1c2c6c5892d13e54d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 002/117] fix: flipHorz swapped each row with the first cell of
 the next row

---
 include/richdem/common/Array2D.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 6374f4f..b4e294b 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -723,8 +723,8 @@ class Array2D {
   */
   void flipHorz(){
     for(xy_t y=0;y<view_height;y++){
-      T* start = &_data[xyToI(0,y)];
-      T* end   = &_data[xyToI(view_width,y)];
+      T* start = _data.data()+(size_t)y*view_width;
+      T* end   = start+view_width-1;
       while(start<end){
         std::swap(*start,*end);
         start++;
-- 
2.43.0


From 1b2e8b6c188c35e312e906e7a75ce736ac20e856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 003/117] fix: transpose scrambled cells and kept stale
 neighbour offsets

---
 include/richdem/common/Array2D.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index b4e294b..3c4f473 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -741,8 +741,10 @@ class Array2D {
     std::vector<T> new_data(view_width*view_height);
     for(xy_t y=0;y<view_height;y++)
     for(xy_t x=0;x<view_width;x++)
-      std::swap(_data[(i_t)x*(i_t)view_height+(i_t)y], _data[xyToI(x,y)]);
+      new_data[(i_t)x*(i_t)view_height+(i_t)y] = _data[xyToI(x,y)];
+    std::copy(new_data.begin(),new_data.end(),_data.data());
     std::swap(view_width,view_height);
+    _nshift = {{0,-1,-view_width-1,-view_width,-view_width+1,1,view_width+1,view_width,view_width-1}};
     //TODO: Offsets?
   }
 
-- 
2.43.0


From 0a6c1c7408cb7583aec2edecbafd5924817f6d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 004/117] fix: assigning to a ManagedVector freed external
 memory it wrapped

---
 include/richdem/common/ManagedVector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/richdem/common/ManagedVector.hpp b/include/richdem/common/ManagedVector.hpp
index 69b9d7c..78da01d 100644
--- a/include/richdem/common/ManagedVector.hpp
+++ b/include/richdem/common/ManagedVector.hpp
@@ -111,6 +111,10 @@ class ManagedVector {
   template<class U>
   ManagedVector<T>& operator=(ManagedVector<U>&& other) noexcept {
     //std::cerr<<"ManagedVector move assignment of "<<((void*)other._data.get())<<std::endl;
+    if(static_cast<const void*>(this)==static_cast<const void*>(&other))
+      return *this;
+    if(!_owned)
+      _data.release(); //Do not free memory we do not own
     _size        = other.size();
     _data        = std::move(other._data);
     _owned       = other._owned;
-- 
2.43.0


From f3d2101f6f1f1a16b01154ecd7360a0dc680ede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 005/117] fix: metadata of GDAL files was never read

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 3c4f473..fa655f2 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -45,7 +45,7 @@ inline std::map<std::string, std::string> ProcessMetadata(char **metadata){
   if(metadata==NULL)
     return ret;
 
-  for(int metstri=0;metadata[metstri]==NULL;metstri++){
+  for(int metstri=0;metadata[metstri]!=NULL;metstri++){
     std::string metstr = metadata[metstri];
     const auto equals  = metstr.find("=");
     if(equals==std::string::npos){
-- 
2.43.0


From 202d95b266a38992d8c3cd535da48bda8a425379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 006/117] fix: saveGDAL wrote stale date/software tags and
 never labelled unspecified operations

---
 include/richdem/common/Array2D.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index fa655f2..319128a 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -1133,6 +1133,9 @@ class Array2D {
 
     //TIFFTAG_SOFTWARE
     //TIFFTAG_ARTIST
+    for(const auto &kv: metadata)
+      fout->SetMetadataItem(kv.first.c_str(), kv.second.c_str());
+
     {
       std::time_t the_time = std::time(nullptr);
       char time_str[64];
@@ -1142,15 +1145,13 @@ class Array2D {
 
       //TODO: `metadata_str` may need removing
       metadata["PROCESSING_HISTORY"] += "\n" + std::string(time_str) + " | " + program_identifier + " | ";
-      if(!metadata.empty())
+      if(!metadata_str.empty())
         metadata["PROCESSING_HISTORY"] += metadata_str;
       else
         metadata["PROCESSING_HISTORY"] += "Unspecified Operation";
+      fout->SetMetadataItem("PROCESSING_HISTORY", metadata["PROCESSING_HISTORY"].c_str());
     }
 
-    for(const auto &kv: metadata)
-      fout->SetMetadataItem(kv.first.c_str(), kv.second.c_str());
-
     //The geotransform maps each grid cell to a point in an affine-transformed
     //projection of the actual terrain. The geostransform is specified as follows:
     //    Xgeo = GT(0) + Xpixel*GT(1) + Yline*GT(2)
-- 
2.43.0


From 044cbf801b89bfecc30380c420e54e423dd9e3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 007/117] fix: Array2D::size() overflowed int for rasters above
 2^31 cells

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 319128a..3a02d79 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -490,7 +490,7 @@ class Array2D {
   const T* data() const { return _data.data(); }
 
   ///@brief Number of cells in the DEM
-  i_t size() const { return view_width*view_height; }
+  i_t size() const { return (i_t)view_width*(i_t)view_height; }
 
   ///Width of the raster
   xy_t width() const { return view_width; }
-- 
2.43.0


From cf8f5ab4a28b289f5095d436b26159ffc4901b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 008/117] fix: saveToCache read past the end of an empty
 geotransform

---
 include/richdem/common/Array2D.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 3a02d79..bb96ef8 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -232,7 +232,9 @@ class Array2D {
     out.write(reinterpret_cast<const char*>(&num_data_cells), sizeof(i_t));
     out.write(reinterpret_cast<const char*>(&no_data),        sizeof(T  ));
 
-    out.write(reinterpret_cast<const char*>(geotransform.data()), 6*sizeof(double));
+    auto out_geotransform = geotransform;
+    out_geotransform.resize(6); //A raster may have no geotransform
+    out.write(reinterpret_cast<const char*>(out_geotransform.data()), 6*sizeof(double));
     std::string::size_type projection_size = projection.size();
     out.write(reinterpret_cast<const char*>(&projection_size), sizeof(std::string::size_type));
     out.write(reinterpret_cast<const char*>(projection.data()), projection.size()*sizeof(const char));
-- 
2.43.0


From 50d86bb02fa394ad48d0780466542c78de54f2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 009/117] fix: Array3D NoData was uninitialised and ignored by
 comparison

---
 include/richdem/common/Array3D.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/Array3D.hpp b/include/richdem/common/Array3D.hpp
index e1d3b47..308c618 100644
--- a/include/richdem/common/Array3D.hpp
+++ b/include/richdem/common/Array3D.hpp
@@ -77,7 +77,7 @@ class Array3D {
   ManagedVector<T> data;            ///< Holds the raster data in a 1D array
                                     ///< this improves caching versus a 2D array
 
-  T   no_data;                       ///< NoData value of the raster
+  T   no_data = -1;                  ///< NoData value of the raster
   mutable i_t num_data_cells = NO_I; ///< Number of cells which are not NoData
 
   xy_t view_width  = 0;              ///< Height of raster in cells
@@ -212,6 +212,8 @@ class Array3D {
   bool operator==(const Array3D<T> &o) const {
     if(width()!=o.width() || height()!=o.height())
       return false;
+    if(noData()!=o.noData())
+      return false;
     for(unsigned int i=0;i<o.data.size();i++)
       if(data[i]!=o.data[i])
         return false;
-- 
2.43.0


From b44cf05ee61618224b32000d10cd4d58b35b1711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 010/117] fix: Array3D counted neighbour slots instead of cells
 as data cells

---
 include/richdem/common/Array3D.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/Array3D.hpp b/include/richdem/common/Array3D.hpp
index 308c618..4252da5 100644
--- a/include/richdem/common/Array3D.hpp
+++ b/include/richdem/common/Array3D.hpp
@@ -324,8 +324,8 @@ class Array3D {
   */
   void countDataCells() const {
     num_data_cells = 0;
-    for(unsigned int i=0;i<size();i++)
-      if(data[i]!=no_data)
+    for(i_t i=0;i<size();i++)
+      if(!isNoData(i))
         num_data_cells++;
   }
 
-- 
2.43.0


From a16d097c0afd3a2ff7762db88ddc8a7b846512cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 011/117] fix: Array3D sizes overflowed int for large rasters

---
 include/richdem/common/Array3D.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/Array3D.hpp b/include/richdem/common/Array3D.hpp
index 4252da5..636030b 100644
--- a/include/richdem/common/Array3D.hpp
+++ b/include/richdem/common/Array3D.hpp
@@ -116,7 +116,7 @@ class Array3D {
     @param[in] height  Height of the data
   */
   Array3D(T *data0, const xy_t width, const xy_t height) : Array3D() {
-    data        = ManagedVector<T>(data0, 9*width*height);
+    data        = ManagedVector<T>(data0, (i_t)9*(i_t)width*(i_t)height);
     view_width  = width;
     view_height = height;
   }
@@ -165,7 +165,7 @@ class Array3D {
   T* getData() { return data.data(); }
 
   ///@brief Number of cells in the DEM
-  i_t size() const { return view_width*view_height; }
+  i_t size() const { return (i_t)view_width*(i_t)view_height; }
 
   ///Width of the raster
   xy_t width() const { return view_width; }
-- 
2.43.0


From 159907007cfe70a6e544f1c4e25c408357500fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 012/117] fix: data cell counts went stale after bulk changes
 to a raster

---
 include/richdem/common/Array2D.hpp | 9 ++++++++-
 include/richdem/common/Array3D.hpp | 4 +++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index bb96ef8..552353d 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -544,6 +544,7 @@ class Array2D {
     @param[in] newval   Value to replace 'oldval' with
   */
   void replace(const T oldval, const T newval){
+    num_data_cells = NO_I;
     for(unsigned int i=0;i<size();i++)
       if(_data[i]==oldval)
         _data[i] = newval;
@@ -832,7 +833,8 @@ class Array2D {
     @param[in]   ndval    Value to change NoData to
   */
   void setNoData(const T &ndval){
-    no_data = ndval;
+    no_data        = ndval;
+    num_data_cells = NO_I;
   }
 
   /**
@@ -841,6 +843,7 @@ class Array2D {
     @param[in]   val      Value to change the cells to
   */
   void setAll(const T val){
+    num_data_cells = NO_I;
     for(i_t i=0;i<size();i++)
       _data[i] = val;
   }
@@ -915,6 +918,7 @@ class Array2D {
     for(xy_t y=0;y<old_height;y++)
     for(xy_t x=0;x<old_width;x++)
       _data[y*new_width+x] = old_data[y*old_width+x];
+    num_data_cells = NO_I;
   }
 
   /**
@@ -1041,6 +1045,7 @@ class Array2D {
     @param[in] val    The value to set the row to
   */
   void setRow(xy_t y, const T &val){
+    num_data_cells = NO_I;
     for(xy_t x=0;x<view_width;x++)
       _data[xyToI(x,y)] = val;
   }
@@ -1052,6 +1057,7 @@ class Array2D {
     @param[in] val    The value to set the column to
   */
   void setCol(xy_t x, const T &val){
+    num_data_cells = NO_I;
     for(xy_t y=0;y<view_height;y++)
       _data[xyToI(x,y)] = val;
   }
@@ -1409,6 +1415,7 @@ class Array2D {
     @param[in]     x     Value to multiply array by
   */
   void scale(const double x) {
+    num_data_cells = NO_I;
     for(i_t i=0;i<size();i++)
       if(_data[i]!=no_data)
         _data[i] *= x;
diff --git a/include/richdem/common/Array3D.hpp b/include/richdem/common/Array3D.hpp
index 636030b..fc0717d 100644
--- a/include/richdem/common/Array3D.hpp
+++ b/include/richdem/common/Array3D.hpp
@@ -277,7 +277,8 @@ class Array3D {
     @param[in]   ndval    Value to change NoData to
   */
   void setNoData(const T &ndval){
-    no_data = ndval;
+    no_data        = ndval;
+    num_data_cells = NO_I;
   }
 
   /**
@@ -286,6 +287,7 @@ class Array3D {
     @param[in]   val      Value to change the cells to
   */
   void setAll(const T val){
+    num_data_cells = NO_I;
     for(i_t i=0;i<data.size();i++)
       data[i] = val;
   }
-- 
2.43.0


From 54743320eebb235399d77b0c5454c7db8e4c586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 013/117] fix: flood-derived flow directions gave directions to
 NoData cells on the grid edge

---
 include/richdem/depressions/Barnes2014.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/richdem/depressions/Barnes2014.hpp b/include/richdem/depressions/Barnes2014.hpp
index db97e2d..d3e1e5f 100644
--- a/include/richdem/depressions/Barnes2014.hpp
+++ b/include/richdem/depressions/Barnes2014.hpp
@@ -522,6 +522,11 @@ void PriorityFloodFlowdirs_Barnes2014(const Array2D<elev_t> &elevations, Array2D
   flowdirs(0,flowdirs.height()-1)=8;
   flowdirs(flowdirs.width()-1,flowdirs.height()-1)=6;
 
+  //Cells which are not part of the DEM have no flow direction
+  for(auto i=elevations.i0();i<elevations.size();i++)
+    if(elevations.isNoData(i))
+      flowdirs(i) = flowdirs.noData();
+
   const int d8_order[9]={0,1,3,5,7,2,4,6,8};
   RDLOG_PROGRESS<<"Performing Priority-Flood+Flow Directions...";
   progress.start( elevations.size() );
-- 
2.43.0


From e9fb36d2fee0659cc80b8b9a7a1511fe47641bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 014/117] fix: breaching with filling left cells unvisited and
 so created depressions

---
 include/richdem/depressions/Lindsay2016.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/richdem/depressions/Lindsay2016.hpp b/include/richdem/depressions/Lindsay2016.hpp
index d16c015..e3bec2b 100644
--- a/include/richdem/depressions/Lindsay2016.hpp
+++ b/include/richdem/depressions/Lindsay2016.hpp
@@ -375,7 +375,8 @@ void Lindsay2016(
       }
 
       --total_pits;
-      if(total_pits==0)
+      //Flooding depressions requires that the traversal visit every cell
+      if(total_pits==0 && (mode==COMPLETE_BREACHING || !fill_depressions))
         break;
     }
 
-- 
2.43.0


From 744736679fd17488653516f56ea2337f47929866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 015/117] fix: constrained breaching ignored its length limit
 and dug deeper than allowed

---
 include/richdem/depressions/Lindsay2016.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/richdem/depressions/Lindsay2016.hpp b/include/richdem/depressions/Lindsay2016.hpp
index e3bec2b..8e84951 100644
--- a/include/richdem/depressions/Lindsay2016.hpp
+++ b/include/richdem/depressions/Lindsay2016.hpp
@@ -361,15 +361,14 @@ void Lindsay2016(
               target_height = std::nextafter(target_height,std::numeric_limits<elev_t>::lowest()); //Decrease target depth slightly for each cell on path to ensure drainage
           }
         } else if(mode==CONSTRAINED_BREACHING){ //TODO: Refine this with regards to the paper
-          elev_t current_height = dem(cc);
-          while(cc!=NO_BACK_LINK && dem(cc)>=target_height){
-            if(pathdepth<=maxdepth)
-              dem(cc) = current_height;
+          for(uint32_t len=0;len<maxpathlen && cc!=NO_BACK_LINK && dem(cc)>=target_height;len++){
+            if(dem(cc)-target_height<=maxdepth)
+              dem(cc) = target_height;
             else
-              dem(cc) -= pathdepth;
+              dem(cc) -= maxdepth;
             if(eps_gradients)
-              current_height = std::nextafter(current_height,std::numeric_limits<elev_t>::lowest());
-            cc             = backlinks(cc);
+              target_height = std::nextafter(target_height,std::numeric_limits<elev_t>::lowest());
+            cc              = backlinks(cc);
           }
         }
       }
-- 
2.43.0


From a0fd0e1abee1764efb384f4ea8fe32c02fa171e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 016/117] fix: altering flats of a double DEM rounded
 elevations to float

---
 include/richdem/flats/flat_resolution.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/richdem/flats/flat_resolution.hpp b/include/richdem/flats/flat_resolution.hpp
index 6edc9c4..35dba49 100644
--- a/include/richdem/flats/flat_resolution.hpp
+++ b/include/richdem/flats/flat_resolution.hpp
@@ -562,10 +562,8 @@ void d8_flats_alter_dem(
       bool higher[9];
       for(int n=1;n<=8;++n)
         higher[n]=elevations(x,y)>elevations(x+d8x[n],y+d8y[n]);
-      //TODO: nextafterf is the floating point version; should use an
-      //overloaded version instead to be able to handle both double and float
       for(int i=0;i<flat_mask(x,y);++i)
-        elevations(x,y)=nextafterf(elevations(x,y),std::numeric_limits<U>::infinity());
+        elevations(x,y)=std::nextafter(elevations(x,y),std::numeric_limits<U>::infinity());
       for(int n=1;n<=8;++n){
         int nx=x+d8x[n];
         int ny=y+d8y[n];
-- 
2.43.0


From 991eac1e164f303cce14bb1c23079bca8f94dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 017/117] fix: flat resolution lowered or raised flats of
 integer DEMs by whole units

---
 include/richdem/flats/Barnes2014.hpp      | 5 +++++
 include/richdem/flats/flat_resolution.hpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/richdem/flats/Barnes2014.hpp b/include/richdem/flats/Barnes2014.hpp
index 78ffb73..319ed0e 100644
--- a/include/richdem/flats/Barnes2014.hpp
+++ b/include/richdem/flats/Barnes2014.hpp
@@ -21,6 +21,8 @@
 #include <queue>
 #include <cmath>
 #include <limits>
+#include <stdexcept>
+#include <type_traits>
 
 namespace richdem {
 
@@ -499,6 +501,9 @@ void ResolveFlatsEpsilon_Barnes2014(
   const Array2D<int32_t> &labels,
   Array2D<U>             &elevations
 ){
+  if(!std::is_floating_point<U>::value)
+    throw std::runtime_error("Altering elevations to resolve flats is only available for floating-point data types!");
+
   ProgressBar progress;
 
   RDLOG_ALG_NAME<<"Barnes (2014) Flat Resolution (DEM modification)...";
diff --git a/include/richdem/flats/flat_resolution.hpp b/include/richdem/flats/flat_resolution.hpp
index 35dba49..c331ae2 100644
--- a/include/richdem/flats/flat_resolution.hpp
+++ b/include/richdem/flats/flat_resolution.hpp
@@ -18,6 +18,8 @@
 #include <queue>
 #include <cmath>
 #include <limits>
+#include <stdexcept>
+#include <type_traits>
 
 namespace richdem {
 
@@ -548,6 +550,9 @@ void d8_flats_alter_dem(
   const Array2D<int32_t> &labels,
   Array2D<U> &elevations
 ){
+  if(!std::is_floating_point<U>::value)
+    throw std::runtime_error("Altering elevations to resolve flats is only available for floating-point data types!");
+
   ProgressBar progress;
 
   RDLOG_ALG_NAME<<"Calculating D8 flow directions using flat mask...";
-- 
2.43.0


From 70d905e94486719d7eb94c37221c673a768c2435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 018/117] fix: D-infinity gave the larger share of flow to the
 farther facet direction

---
 include/richdem/flowmet/Tarboton1997.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/flowmet/Tarboton1997.hpp b/include/richdem/flowmet/Tarboton1997.hpp
index 54bf8dd..72d156f 100644
--- a/include/richdem/flowmet/Tarboton1997.hpp
+++ b/include/richdem/flowmet/Tarboton1997.hpp
@@ -136,8 +136,8 @@ void FM_Tarboton(
     } else if(rmax==dang){
       props(x,y,nwrap(nmax+1)) = 1;
     } else {
-      props(x,y,nmax)          = rmax/(M_PI/4.);
-      props(x,y,nwrap(nmax+1)) = 1-rmax/(M_PI/4.);      
+      props(x,y,nmax)          = 1-rmax/(M_PI/4.);
+      props(x,y,nwrap(nmax+1)) = rmax/(M_PI/4.);
     }
   }
   progress.stop();
-- 
2.43.0


From 219e351a7f40f811b099d23044fe3d5908e52a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 019/117] fix: D4 and Rho4 flow was accumulated into the wrong
 neighbours

---
 include/richdem/common/constants.hpp       | 3 +++
 include/richdem/flowmet/Fairfield1991.hpp  | 3 ++-
 include/richdem/flowmet/OCallaghan1984.hpp | 3 ++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/constants.hpp b/include/richdem/common/constants.hpp
index 2abd314..cdae6e3 100644
--- a/include/richdem/common/constants.hpp
+++ b/include/richdem/common/constants.hpp
@@ -66,6 +66,9 @@ constexpr std::array<int, 9> d8_inverse = {0,5,6,7,8,1,2,3,4};
 
 constexpr std::array<int, 5> d4_inverse = {0, 3, 4, 1, 2};
 
+///Converts a D4 neighbour index to the D8 index of the same neighbour
+constexpr std::array<int, 5> d4_to_d8 = {0, D8_WEST, D8_NORTH, D8_EAST, D8_SOUTH};
+
 ///Distances from a central cell to each of its 8 neighbours
 constexpr std::array<double, 9> dr = {0,1,SQRT2,1,SQRT2,1,SQRT2,1,SQRT2}; //TODO: Check these for new D8 directions
 
diff --git a/include/richdem/flowmet/Fairfield1991.hpp b/include/richdem/flowmet/Fairfield1991.hpp
index 3452927..ccbaa1b 100644
--- a/include/richdem/flowmet/Fairfield1991.hpp
+++ b/include/richdem/flowmet/Fairfield1991.hpp
@@ -71,8 +71,9 @@ void FM_FairfieldLeymarie(const Array2D<elev_t> &elevations, Array3D<float> &pro
     if(greatest_n==0)
       continue;
 
+    //Flow proportions are always indexed by D8 neighbour
     props(x,y,0)          = HAS_FLOW_GEN;
-    props(x,y,greatest_n) = 1;
+    props(x,y,topo==Topology::D4 ? d4_to_d8[greatest_n] : greatest_n) = 1;
 
     assert(elevations(x,y)>=elevations(x+dx[greatest_n],y+dy[greatest_n])); //Ensure flow goes downhill
   }
diff --git a/include/richdem/flowmet/OCallaghan1984.hpp b/include/richdem/flowmet/OCallaghan1984.hpp
index 148e5d9..0e49781 100644
--- a/include/richdem/flowmet/OCallaghan1984.hpp
+++ b/include/richdem/flowmet/OCallaghan1984.hpp
@@ -71,7 +71,8 @@ void FM_OCallaghan(
 
     assert(elevations(ci)>=elevations(ci+elevations.nshift(lowest_n))); //Ensure flow goes downhill
 
-    props(x,y,lowest_n) = 1;
+    //Flow proportions are always indexed by D8 neighbour
+    props(x,y,topo==Topology::D4 ? d4_to_d8[lowest_n] : lowest_n) = 1;
   }
   progress.stop();
 }
-- 
2.43.0


From 851ebe94b835d563bae568e2cbf9cacdb04b515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 020/117] fix: Freeman and Holmgren flow vanished when powers
 of gradients under- or overflowed

---
 include/richdem/flowmet/Freeman1991.hpp  | 35 ++++++++++++++----------
 include/richdem/flowmet/Holmgren1994.hpp | 34 ++++++++++++++---------
 2 files changed, 42 insertions(+), 27 deletions(-)

diff --git a/include/richdem/flowmet/Freeman1991.hpp b/include/richdem/flowmet/Freeman1991.hpp
index f6b9013..5d77e08 100644
--- a/include/richdem/flowmet/Freeman1991.hpp
+++ b/include/richdem/flowmet/Freeman1991.hpp
@@ -7,6 +7,10 @@
 #include <richdem/common/Array3D.hpp>
 #include <richdem/common/ProgressBar.hpp>
 
+#include <algorithm>
+#include <array>
+#include <cmath>
+
 namespace richdem {
 
 template<class E>
@@ -40,7 +44,10 @@ void FM_Freeman(
 
     const E e    = elevations(x,y);
 
-    double C = 0;
+    //Gradients are scaled by the greatest of them, so that raising them to a power
+    //can neither overflow nor lose all of them to underflow
+    std::array<double, 9> grads = {};
+    double max_grad = 0;
     for(int n=1;n<=8;n++){
       const int nx = x+d8x[n];
       const int ny = y+d8y[n];
@@ -56,25 +63,25 @@ void FM_Freeman(
         const double rise = e-ne;
         const double run  = dr[n];
         const double grad = rise/run;
-        const auto cval   = std::pow(grad,xparam);
-        props(x,y,n)      = cval;
-        C                += cval;
+        grads[n]          = grad;
+        max_grad          = std::max(max_grad,grads[n]);
       }
     }
 
-    if(C>0){
-      props(x,y,0) = HAS_FLOW_GEN;
-
-      C = 1/C; //TODO
+    if(max_grad==0)
+      continue;
 
-      for(int n=1;n<=8;n++){
-        auto &this_por = props(x,y,n);
-        if(this_por>0)
-          this_por *= C;
-        else
-          this_por = 0;
+    double C = 0;
+    for(int n=1;n<=8;n++){
+      if(grads[n]>0){
+        grads[n] = std::pow(grads[n]/max_grad,xparam);
+        C       += grads[n];
       }
     }
+
+    props(x,y,0) = HAS_FLOW_GEN;
+    for(int n=1;n<=8;n++)
+      props(x,y,n) = grads[n]/C;
   }
   progress.stop();
 }
diff --git a/include/richdem/flowmet/Holmgren1994.hpp b/include/richdem/flowmet/Holmgren1994.hpp
index bc8e84b..78c269e 100644
--- a/include/richdem/flowmet/Holmgren1994.hpp
+++ b/include/richdem/flowmet/Holmgren1994.hpp
@@ -7,6 +7,10 @@
 #include <richdem/common/Array3D.hpp>
 #include <richdem/common/ProgressBar.hpp>
 
+#include <algorithm>
+#include <array>
+#include <cmath>
+
 namespace richdem {
 
 template<class E>
@@ -44,8 +48,10 @@ void FM_Holmgren(
 
     const E e = elevations(x,y);
 
-    double C = 0;
-
+    //Gradients are scaled by the greatest of them, so that raising them to a power
+    //can neither overflow nor lose all of them to underflow
+    std::array<double, 9> grads = {};
+    double max_grad = 0;
     for(int n=1;n<=8;n++){
       const int nx = x+d8x[n];
       const int ny = y+d8y[n];
@@ -61,23 +67,25 @@ void FM_Holmgren(
         const double rise = e-ne;
         const double run  = dr[n];
         const double grad = rise/run;
-        props(x,y,n)      = std::pow(grad * L[n],xparam);
-        C                += props(x,y,n);
+        grads[n]          = grad * L[n];
+        max_grad          = std::max(max_grad,grads[n]);
       }
     }
 
-    if(C>0){
-      props(x,y,0) = HAS_FLOW_GEN;
-
-      C = 1/C;
+    if(max_grad==0)
+      continue;
 
-      for(int n=1;n<=8;n++){
-        if(props(x,y,n)>0)
-          props(x,y,n) *= C;
-        else
-          props(x,y,n) = 0;
+    double C = 0;
+    for(int n=1;n<=8;n++){
+      if(grads[n]>0){
+        grads[n] = std::pow(grads[n]/max_grad,xparam);
+        C       += grads[n];
       }
     }
+
+    props(x,y,0) = HAS_FLOW_GEN;
+    for(int n=1;n<=8;n++)
+      props(x,y,n) = grads[n]/C;
   }
   progress.stop();
 }
-- 
2.43.0


From cc1dde614e4c2ee7d982a862aaafebd580379ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 021/117] fix: D-infinity upslope area passed the larger share
 to the farther neighbour

---
 include/richdem/methods/dinf_methods.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/methods/dinf_methods.hpp b/include/richdem/methods/dinf_methods.hpp
index 6535315..10c79ae 100644
--- a/include/richdem/methods/dinf_methods.hpp
+++ b/include/richdem/methods/dinf_methods.hpp
@@ -81,8 +81,8 @@ static void area_proportion(float flowdir, int nhigh, int nlow, float &phigh, fl
     phigh = 1;
     plow  = 0;
   } else {
-    phigh = (nhigh*(M_PI/4.0)-flowdir)/(M_PI/4.0);
-    plow  = 1-phigh;
+    plow  = (nhigh*(M_PI/4.0)-flowdir)/(M_PI/4.0);
+    phigh = 1-plow;
   }
 
   assert(phigh+plow==1);  //TODO: This isn't necessarily so in floating-point... or is it?
-- 
2.43.0


From 94e5414d6e028a1adb7c47d11931ade9a634b7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 022/117] fix: D-infinity flow due east was indistinguishable
 from no flow

---
 include/richdem/flowmet/dinf_flowdirs.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/richdem/flowmet/dinf_flowdirs.hpp b/include/richdem/flowmet/dinf_flowdirs.hpp
index dfc2a97..91cf92b 100644
--- a/include/richdem/flowmet/dinf_flowdirs.hpp
+++ b/include/richdem/flowmet/dinf_flowdirs.hpp
@@ -57,7 +57,7 @@ static float dinf_FlowDir(const Array2D<T> &elevations, const int x, const int y
     else if(x==0)
       return 4*M_PI/4;  //D8: 1
     else if(x==elevations.width()-1)
-      return 0*M_PI/4;  //D8: 5
+      return 8*M_PI/4;  //D8: 5. (Zero would mean there is no flow.)
     else if(y==0)
       return 2*M_PI/4;  //D8: 3
     else if(y==elevations.height()-1)
@@ -108,8 +108,11 @@ static float dinf_FlowDir(const Array2D<T> &elevations, const int x, const int y
   }
 
   double rg = NO_FLOW;
-  if(nmax!=-1)
+  if(nmax!=-1){
     rg = (af[nmax]*rmax+ac[nmax]*M_PI/2);
+    if(rg==NO_FLOW) //Due east. An angle of zero would mean there is no flow.
+      rg = 2*M_PI;
+  }
 
   return rg;
 }
-- 
2.43.0


From 4276dde6056cd82f92ee5de71e1189c9bd6e0cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 023/117] fix: D-infinity upslope area was zero for cells
 without flow or inflow

---
 include/richdem/methods/dinf_methods.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/richdem/methods/dinf_methods.hpp b/include/richdem/methods/dinf_methods.hpp
index 10c79ae..c26ad9d 100644
--- a/include/richdem/methods/dinf_methods.hpp
+++ b/include/richdem/methods/dinf_methods.hpp
@@ -191,8 +191,6 @@ void dinf_upslope_area(
     for(int x=0;x<flowdirs.width();x++)
       if(flowdirs(x,y)==flowdirs.noData())
         continue;
-      else if(flowdirs(x,y)==NO_FLOW)
-        continue;
       else if(dependency(x,y)==0)
         sources.emplace(x,y);
   }
-- 
2.43.0


From 657c4edc7034c60ee54df8177e3b7d54d79df583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 024/117] fix: upslope areas raced on the dependency counts of
 cells

---
 include/richdem/methods/d8_methods.hpp   | 1 +
 include/richdem/methods/dinf_methods.hpp | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/richdem/methods/d8_methods.hpp b/include/richdem/methods/d8_methods.hpp
index f2010c6..5925b0e 100644
--- a/include/richdem/methods/d8_methods.hpp
+++ b/include/richdem/methods/d8_methods.hpp
@@ -87,6 +87,7 @@ void d8_flow_accum(const Array2D<T> &flowdirs, Array2D<U> &area){
 
       //Neighbour is valid and is part of the grid. The neighbour depends on this
       //cell, so increment its dependency count.
+      #pragma omp atomic
       ++dependency(nx,ny);
     }
   }
diff --git a/include/richdem/methods/dinf_methods.hpp b/include/richdem/methods/dinf_methods.hpp
index c26ad9d..c2c265c 100644
--- a/include/richdem/methods/dinf_methods.hpp
+++ b/include/richdem/methods/dinf_methods.hpp
@@ -169,10 +169,14 @@ void dinf_upslope_area(
         nlx = x+dinf_dx[n_low];
         nly = y+dinf_dy[n_low];
       }
-      if( n_low!=-1 && flowdirs.inGrid(nlx,nly) && flowdirs(nlx,nly)!=flowdirs.noData() )
+      if( n_low!=-1 && flowdirs.inGrid(nlx,nly) && flowdirs(nlx,nly)!=flowdirs.noData() ){
+        #pragma omp atomic
         dependency(nlx,nly)++;
-      if( flowdirs.inGrid(nhx,nhy) && flowdirs(nhx,nhy)!=flowdirs.noData() )
+      }
+      if( flowdirs.inGrid(nhx,nhy) && flowdirs(nhx,nhy)!=flowdirs.noData() ){
+        #pragma omp atomic
         dependency(nhx,nhy)++;
+      }
     }
   }
   RDLOG_TIME_USE<<"Succeeded in = "<<progress.stop()<<" s";
-- 
2.43.0


From 4f09111e88be86314d2c2edaf79370b09df0c855 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 025/117] fix: radix heap shifted by -1 when flagging its first
 bucket

---
 include/richdem/common/radix_heap.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/radix_heap.hpp b/include/richdem/common/radix_heap.hpp
index 774f41f..2bcfa4a 100644
--- a/include/richdem/common/radix_heap.hpp
+++ b/include/richdem/common/radix_heap.hpp
@@ -121,13 +121,15 @@ class bucket_flags {
   void set_empty(size_t bucket) {
     assert(bucket <= num_buckets);
 
-    flags_ &= ~((unsigned_key_type(1) << (bucket - 1)) * !!bucket);
+    if(bucket > 0)
+      flags_ &= ~(unsigned_key_type(1) << (bucket - 1));
   }
 
   void set_non_empty(unsigned int bucket) {
     assert(bucket <= num_buckets);
 
-    flags_ |= (unsigned_key_type(1) << (bucket - 1)) * !!bucket;
+    if(bucket > 0)
+      flags_ |= unsigned_key_type(1) << (bucket - 1);
   }
 
   void clear() {
-- 
2.43.0


From 41589abfafe1448c670635e02bda9a27d9e054f1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 026/117] fix: radix_heap::min returned a key that had already
 been popped

---
 include/richdem/common/radix_heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/richdem/common/radix_heap.hpp b/include/richdem/common/radix_heap.hpp
index 2bcfa4a..71d94a1 100644
--- a/include/richdem/common/radix_heap.hpp
+++ b/include/richdem/common/radix_heap.hpp
@@ -231,6 +231,7 @@ class radix_heap {
   void pull() {
     assert(size_ > 0);
     if (!buckets_[0].empty()) return;
+    buckets_min_[0] = std::numeric_limits<unsigned_key_type>::max();
 
     const size_t i = bucket_flags_.find_first_non_empty();
     last_ = buckets_min_[i];
-- 
2.43.0


From 2b9de5c3dda475d0987a58978ed02ac0dd12dd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 027/117] fix: bad labels given to GetDepressionHierarchy
 terminated the program

---
 include/richdem/depressions/depression_hierarchy.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/richdem/depressions/depression_hierarchy.hpp b/include/richdem/depressions/depression_hierarchy.hpp
index 101fc9d..7b1a52a 100644
--- a/include/richdem/depressions/depression_hierarchy.hpp
+++ b/include/richdem/depressions/depression_hierarchy.hpp
@@ -283,14 +283,14 @@ GetDepressionHierarchy(const Array2D<elev_t>& dem, Array2D<dh_label_t>& label, A
   // begin looking for depressions. We add all of these ocean cells to the
   // priority queue now.
   uint64_t ocean_cells = 0;
-#pragma omp parallel for collapse(2) reduction(+ : ocean_cells) reduction(merge : ocean_seeds)
+  bool bad_label = false;  // An exception may not leave a parallel region
+#pragma omp parallel for collapse(2) reduction(+ : ocean_cells) reduction(|| : bad_label) reduction(merge : ocean_seeds)
   for (int y = 0; y < dem.height(); y++)
     for (int x = 0; x < dem.width(); x++) {
       // Ensure the input only has OCEAN and NO_DEP labels.
       if (label(x, y) != OCEAN) {
         if (label(x, y) != NO_DEP) {
-          throw std::runtime_error(
-              "Label array given to GetDepressionHierarchy must contain only NO_DEP and OCEAN labels!");
+          bad_label = true;
         }
         continue;
       }
@@ -309,6 +309,11 @@ GetDepressionHierarchy(const Array2D<elev_t>& dem, Array2D<dh_label_t>& label, A
       }
     }
 
+  if (bad_label) {
+    throw std::runtime_error(
+        "Label array given to GetDepressionHierarchy must contain only NO_DEP and OCEAN labels!");
+  }
+
   if (ocean_cells == 0) {
     throw std::runtime_error("No OCEAN cells found, could not make a DepressionHierarchy!");
   }
-- 
2.43.0


From f6b211c9f0865462005b6538a8534a3bfda35998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 028/117] fix: Fill-Spill-Merge lost track of water flowing
 into the first cell

---
 include/richdem/depressions/fill_spill_merge.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/richdem/depressions/fill_spill_merge.hpp b/include/richdem/depressions/fill_spill_merge.hpp
index 1e33158..9465787 100644
--- a/include/richdem/depressions/fill_spill_merge.hpp
+++ b/include/richdem/depressions/fill_spill_merge.hpp
@@ -279,17 +279,17 @@ static void MoveWaterIntoPits(
 
     //Coordinates of downstream neighbour, if any
     const auto ndir = flowdirs(c); //Neighbour direction
-    int n = NO_FLOW;               //Neighbour address
+    flat_c_idx n = NO_VALUE;       //Neighbour address (NO_FLOW is the address of a cell)
     if(ndir!=NO_FLOW){
       int x,y;
       topo.iToxy(c,x,y);
       const int nx = x+d8x[ndir];
       const int ny = y+d8y[ndir];
       n            = topo.xyToI(nx,ny);
-      assert(n>=0);
+      assert(n<topo.size());
     }
 
-    if(n == NO_FLOW){    //If this is a pit cell, move the water to the appropriate depression's water_vol.
+    if(n == NO_VALUE){    //If this is a pit cell, move the water to the appropriate depression's water_vol.
       //Note that OCEAN cells have NO_FLOW so this will route water to the OCEAN
       //depression. This can be used to find out how much total run-off made it
       //into the ocean.
-- 
2.43.0


From 83fbdc231bb2f52f71126367295e84c9a8093537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 029/117] fix: flat cells were given a westward aspect instead
 of -1

---
 include/richdem/methods/terrain_attributes.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/richdem/methods/terrain_attributes.hpp b/include/richdem/methods/terrain_attributes.hpp
index 97635a6..e3e2c46 100644
--- a/include/richdem/methods/terrain_attributes.hpp
+++ b/include/richdem/methods/terrain_attributes.hpp
@@ -233,6 +233,8 @@ static inline double Terrain_Aspect(const Array2D<T> &elevations, const int x, c
   //See p. 18 of Horn (1981)
   double dzdx       = ( (tsv.c+2*tsv.f+tsv.i) - (tsv.a+2*tsv.d+tsv.g) ) / 8 / elevations.getCellLengthX();
   double dzdy       = ( (tsv.g+2*tsv.h+tsv.i) - (tsv.a+2*tsv.b+tsv.c) ) / 8 / elevations.getCellLengthY();
+  if(dzdx==0 && dzdy==0)
+    return -1;  //Flat
   double the_aspect = 180.0/M_PI*atan2(dzdy,-dzdx);
   if(the_aspect<0)
     return 90-the_aspect;
-- 
2.43.0


From 400d1e9141d082144459170fe0c3477e1b3e0a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 030/117] fix: cell sizes of a raster without geotransform were
 read out of bounds

---
 include/richdem/common/Array2D.hpp             | 9 ++++++---
 include/richdem/methods/terrain_attributes.hpp | 8 ++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 552353d..e231e1f 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -1387,7 +1387,8 @@ class Array2D {
     @return The area of the cell in square projection units
   */
   double getCellArea() const {
-    assert(geotransform.size()>0);
+    if(geotransform.size()!=6)
+      throw std::runtime_error("The raster has no geotransform, so its cells have no size!");
     return std::abs(geotransform[1]*geotransform[5]);
   }
 
@@ -1396,7 +1397,8 @@ class Array2D {
     @return The length of the cell along the raster's horizontal axis
   */
   double getCellLengthX() const {
-    assert(geotransform.size()>0);
+    if(geotransform.size()!=6)
+      throw std::runtime_error("The raster has no geotransform, so its cells have no size!");
     return std::abs(geotransform[1]);
   }
 
@@ -1405,7 +1407,8 @@ class Array2D {
     @return The length of the cell along the raster's horizontal axis
   */
   double getCellLengthY() const {
-    assert(geotransform.size()>0);
+    if(geotransform.size()!=6)
+      throw std::runtime_error("The raster has no geotransform, so its cells have no size!");
     return std::abs(geotransform[5]);
   }
 
diff --git a/include/richdem/methods/terrain_attributes.hpp b/include/richdem/methods/terrain_attributes.hpp
index e3e2c46..695b94e 100644
--- a/include/richdem/methods/terrain_attributes.hpp
+++ b/include/richdem/methods/terrain_attributes.hpp
@@ -44,6 +44,8 @@ void TA_SPI(
   result.resize(flow_accumulation);
   result.setNoData(-1);  //Log(x) can't take this value of real inputs, so we're good
 
+  const double cell_area = flow_accumulation.getCellArea();
+
   RDLOG_PROGRESS<<"Calculating SPI...";
   timer.start();
   #pragma omp parallel for collapse(2)
@@ -52,7 +54,7 @@ void TA_SPI(
       if(flow_accumulation(x,y)==flow_accumulation.noData() || riserun_slope(x,y)==riserun_slope.noData())
         result(x,y)=result.noData();
       else
-        result(x,y)=log( (flow_accumulation(x,y)/flow_accumulation.getCellArea()) * (riserun_slope(x,y)+0.001) );
+        result(x,y)=log( (flow_accumulation(x,y)/cell_area) * (riserun_slope(x,y)+0.001) );
   RDLOG_TIME_USE<<"succeeded in "<<timer.stop()<<"s.";
 }
 
@@ -96,6 +98,8 @@ void TA_CTI(
   result.setNoData(-1);  //Log(x) can't take this value of real inputs, so we're good
   RDLOG_PROGRESS<<"succeeded.";
 
+  const double cell_area = flow_accumulation.getCellArea();
+
   RDLOG_PROGRESS<<"Calculating CTI..."<<std::flush;
   timer.start();
   #pragma omp parallel for collapse(2)
@@ -104,7 +108,7 @@ void TA_CTI(
       if(flow_accumulation(x,y)==flow_accumulation.noData() || riserun_slope(x,y)==riserun_slope.noData())
         result(x,y)=result.noData();
       else
-        result(x,y)=log( (flow_accumulation(x,y)/flow_accumulation.getCellArea()) / (riserun_slope(x,y)+0.001) );
+        result(x,y)=log( (flow_accumulation(x,y)/cell_area) / (riserun_slope(x,y)+0.001) );
   RDLOG_TIME_USE<<"succeeded in "<<timer.stop()<<"s.";
 }
 
-- 
2.43.0


From 6425ffc0e1b098c7a9afcab2023e37ad8cba120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 031/117] fix: flipping a raster without cells did arithmetic
 on a null pointer

---
 include/richdem/common/Array2D.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index e231e1f..462b944 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -725,6 +725,8 @@ class Array2D {
     @brief Flips the raster from side-to-side
   */
   void flipHorz(){
+    if(empty())
+      return;
     for(xy_t y=0;y<view_height;y++){
       T* start = _data.data()+(size_t)y*view_width;
       T* end   = start+view_width-1;
-- 
2.43.0


From 52dec1358939031680c68cffc1f5df4d5fb8d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 032/117] fix: a failed ManagedVector::resize left a size
 without memory behind it

---
 include/richdem/common/ManagedVector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/richdem/common/ManagedVector.hpp b/include/richdem/common/ManagedVector.hpp
index 78da01d..bd2477b 100644
--- a/include/richdem/common/ManagedVector.hpp
+++ b/include/richdem/common/ManagedVector.hpp
@@ -2,6 +2,7 @@
 #define _richdem_managed_vector_hpp_
 
 #include <memory>
+#include <stdexcept>
 //#include <iostream>
 
 namespace richdem {
@@ -168,6 +169,7 @@ class ManagedVector {
     //auto oldmem = _data.get();
 
     _data.reset(); //Clear old memory before allocating new memory
+    _size = 0;     //The allocation below may fail
     _data.reset(new T[new_size]);
 
     //std::cerr<<"Resizing ManagedVector from "<<((void*)oldmem)<<" to "<<((void*)_data.get())<<std::endl;
-- 
2.43.0


From b9f64d7218e13714afb3dc59468725bb3528ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 033/117] fix: NoData values outside the range of the cell type
 were converted with undefined results

---
 include/richdem/common/Array2D.hpp |  2 +-
 include/richdem/common/gdal.hpp    | 26 +++++++++++++++++++++++++-
 include/richdem/common/loaders.hpp |  2 +-
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 462b944..f1a6fdb 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -158,7 +158,7 @@ class Array2D {
 
     xy_t total_width  = band->GetXSize();         //Returns an int
     xy_t total_height = band->GetYSize();         //Returns an int
-    no_data           = band->GetNoDataValue();
+    no_data           = NoDataFromGDAL<T>(band->GetNoDataValue());
 
     if(exact && (total_width-xOffset!=part_width || total_height-yOffset!=part_height))
       throw std::runtime_error("Tile dimensions did not match expectations!");
diff --git a/include/richdem/common/gdal.hpp b/include/richdem/common/gdal.hpp
index 879f9a2..183cc00 100644
--- a/include/richdem/common/gdal.hpp
+++ b/include/richdem/common/gdal.hpp
@@ -3,7 +3,9 @@
 #ifdef USEGDAL
 
 #include "gdal_priv.h"
+#include <cmath>
 #include <iostream>
+#include <limits>
 #include <typeinfo>
 
 namespace richdem {
@@ -18,6 +20,28 @@ GDALDataType peekGDALType(const std::string &filename);
 
 
 
+/**
+  @brief  Convert a GDAL file's NoData value to the type its cells are read as.
+          Like GDAL does with the cells themselves, values beyond the range of
+          an integer type or between its values become the nearest value.
+
+  @param[in]  no_data   NoData value as reported by GDAL
+*/
+template<class T>
+T NoDataFromGDAL(const double no_data){
+  if(std::numeric_limits<T>::is_integer){
+    if(std::isnan(no_data))
+      return 0;
+    if(no_data<=static_cast<double>(std::numeric_limits<T>::lowest()))
+      return std::numeric_limits<T>::lowest();
+    if(no_data>=static_cast<double>(std::numeric_limits<T>::max()))
+      return std::numeric_limits<T>::max();
+  }
+  return static_cast<T>(std::numeric_limits<T>::is_integer ? std::round(no_data) : no_data);
+}
+
+
+
 /**
   @brief  Retrieve height, width, NoData, and geotransform from a GDAL file
   @author Richard Barnes (rbarnes@umn.edu)
@@ -44,7 +68,7 @@ void getGDALHeader(
   GDALRasterBand *band   = fin->GetRasterBand(1);
 
   height  = band->GetYSize();
-  no_data = band->GetNoDataValue();
+  no_data = NoDataFromGDAL<T>(band->GetNoDataValue());
   width   = band->GetXSize();
 
   fin->GetGeoTransform(geotransform);
diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index 0eec83f..d686207 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -39,7 +39,7 @@ void LoadGDAL(
 
   uint64_t total_width  = band->GetXSize();         //Returns an int
   uint64_t total_height = band->GetYSize();         //Returns an int
-  arr.setNoData((T)band->GetNoDataValue());
+  arr.setNoData(NoDataFromGDAL<T>(band->GetNoDataValue()));
 
   //Ensure that the block we're grabbing doesn't extend outside the data
   if(xOffset+part_width>=total_width)
-- 
2.43.0


From 0f4fa2f3c7161bbfb7280edd3402b47785c8c59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 034/117] fix: windows of rotated rasters were saved with the
 wrong origin

---
 include/richdem/common/Array2D.hpp | 4 ++--
 include/richdem/common/loaders.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index f1a6fdb..dc26f54 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -1178,11 +1178,11 @@ class Array2D {
 
       //We shift the top-left pixel of hte image eastward to the appropriate
       //coordinate
-      out_geotransform[0] += xoffset*geotransform[1];
+      out_geotransform[0] += xoffset*geotransform[1]+yoffset*geotransform[2];
 
       //We shift the top-left pixel of the image southward to the appropriate
       //coordinate
-      out_geotransform[3] += yoffset*geotransform[5];
+      out_geotransform[3] += xoffset*geotransform[4]+yoffset*geotransform[5];
 
       fout->SetGeoTransform(out_geotransform.data());
     }
diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index d686207..3e64446 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -162,11 +162,11 @@ void SaveGDAL(const Array2D<T> &arr, const std::string &filename, const std::str
 
     //We shift the top-left pixel of hte image eastward to the appropriate
     //coordinate
-    out_geotransform[0] += xoffset*arr.geotransform[1];
+    out_geotransform[0] += xoffset*arr.geotransform[1]+yoffset*arr.geotransform[2];
 
     //We shift the top-left pixel of the image southward to the appropriate
     //coordinate
-    out_geotransform[3] += yoffset*arr.geotransform[5];
+    out_geotransform[3] += xoffset*arr.geotransform[4]+yoffset*arr.geotransform[5];
 
     fout->SetGeoTransform(out_geotransform.data());
   }
-- 
2.43.0


From c9ce2475469194205980d3eb141cd2a9e106f6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 035/117] fix: windows with an offset but no size could not be
 loaded, and windows outside the raster were not refused

---
 include/richdem/common/Array2D.hpp | 22 ++++++++++++----------
 include/richdem/common/loaders.hpp | 22 +++++++++++-----------
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index dc26f54..bc7933c 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -160,22 +160,24 @@ class Array2D {
     xy_t total_height = band->GetYSize();         //Returns an int
     no_data           = NoDataFromGDAL<T>(band->GetNoDataValue());
 
-    if(exact && (total_width-xOffset!=part_width || total_height-yOffset!=part_height))
+    if(exact && (total_width-xOffset!=part_width || total_height-yOffset!=part_height)){
+      GDALClose(fin);
       throw std::runtime_error("Tile dimensions did not match expectations!");
+    }
 
-    //TODO: What's going on here?
+    if(xOffset<0 || yOffset<0 || part_width<0 || part_height<0 || xOffset>=total_width || yOffset>=total_height){
+      GDALClose(fin);
+      throw std::runtime_error("The part of '"+filename+"' to be read lies outside of it!");
+    }
 
-    if(xOffset+part_width>=total_width)
+    //A size of zero means everything from the offset on. Parts are clipped at
+    //the raster's right and bottom edges.
+    if(part_width==0 || part_width>=total_width-xOffset)
       part_width  = total_width-xOffset;
-    if(yOffset+part_height>=total_height)
+    if(part_height==0 || part_height>=total_height-yOffset)
       part_height = total_height-yOffset;
 
-    if(part_width==0)
-      part_width = total_width;
-    view_width = part_width;
-
-    if(part_height==0)
-      part_height = total_height;
+    view_width  = part_width;
     view_height = part_height;
 
     view_xoff = xOffset;
diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index 3e64446..62131eb 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -41,20 +41,20 @@ void LoadGDAL(
   uint64_t total_height = band->GetYSize();         //Returns an int
   arr.setNoData(NoDataFromGDAL<T>(band->GetNoDataValue()));
 
-  //Ensure that the block we're grabbing doesn't extend outside the data
-  if(xOffset+part_width>=total_width)
+  if(xOffset>=total_width || yOffset>=total_height){
+    GDALClose(fin);
+    throw std::runtime_error("The part of '"+filename+"' to be read lies outside of it!");
+  }
+
+  //Ensure that the block we're grabbing doesn't extend outside the data. A size
+  //of zero means everything from the offset on.
+  if(part_width==0 || part_width>=total_width-xOffset)
     part_width  = total_width-xOffset;
-  if(yOffset+part_height>=total_height)
+  if(part_height==0 || part_height>=total_height-yOffset)
     part_height = total_height-yOffset;
 
-  uint64_t view_width, view_height;
-  if(part_width==0)
-    part_width = total_width;
-  view_width = part_width;
-
-  if(part_height==0)
-    part_height = total_height;
-  view_height = part_height;
+  const uint64_t view_width  = part_width;
+  const uint64_t view_height = part_height;
 
   T *buf;
   std::vector<T> tempbuf;
-- 
2.43.0


From 683c35f7169953a7cea07be2f8ec7f4f2b2feb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 036/117] fix: SaveGDAL wrote a raster without its padding into
 a file sized for the padded raster

---
 include/richdem/common/loaders.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index 62131eb..00e7465 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -106,7 +106,7 @@ void SaveGDAL(const Array2D<T> &arr, const std::string &filename, const std::str
   GDALDriver *poDriver = GetGDALDriverManager()->GetDriverByName("GTiff");
   if(poDriver==NULL)
     throw std::runtime_error("Could not open GDAL driver!");
-  GDALDataset *fout    = poDriver->Create(filename.c_str(), arr.width(), arr.height(), 1, NativeTypeToGDAL<T>(), papszOptions);
+  GDALDataset *fout    = poDriver->Create(filename.c_str(), arr.width()-2*padx, arr.height()-2*pady, 1, NativeTypeToGDAL<T>(), papszOptions);
   if(fout==NULL)
     throw std::runtime_error("Could not open file '"+filename+"' for GDAL save!");
 
-- 
2.43.0


From d463a57e1345a69d308c8bf94fad9fcd767505aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 037/117] fix: errors while a GeoTIFF is flushed to disk went
 unnoticed

---
 include/richdem/common/Array2D.hpp | 4 ++++
 include/richdem/common/loaders.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index bc7933c..9196b2c 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -1200,7 +1200,11 @@ class Array2D {
     if(temp!=CE_None)
       throw std::runtime_error("Error writing file with saveGDAL()!");
 
+    //Much of the file is only written now
+    CPLErrorReset();
     GDALClose(fout);
+    if(CPLGetLastErrorType()>=CE_Failure)
+      throw std::runtime_error("Error writing file with saveGDAL()!");
   }
   #endif
 
diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index 00e7465..eb47b6c 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -198,7 +198,11 @@ void SaveGDAL(const Array2D<T> &arr, const std::string &filename, const std::str
   if(temp!=CE_None)
     throw std::runtime_error("Error writing file with saveGDAL()!");
 
+  //Much of the file is only written now
+  CPLErrorReset();
   GDALClose(fout);
+  if(CPLGetLastErrorType()>=CE_Failure)
+    throw std::runtime_error("Error writing file with saveGDAL()!");
 }
 
 #endif
-- 
2.43.0


From 90598cdbbca4f679b53675fffce44d61648eaec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 038/117] fix: errors while writing a raster to its cache file
 went unnoticed, losing the evicted data

---
 include/richdem/common/Array2D.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 9196b2c..ae78eeb 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -209,14 +209,14 @@ class Array2D {
   //TODO: Should save metadata
  public:
   void saveToCache(const std::string &cache_filename){
-    std::fstream fout;
+    if(empty() && size()>0)
+      throw std::runtime_error("The raster's data is not loaded, so it cannot be saved!");
 
-    from_cache     = true;
-    this->filename = cache_filename;
+    std::fstream fout;
 
-    fout.open(filename, std::ios_base::binary | std::ios_base::out | std::ios::trunc);
+    fout.open(cache_filename, std::ios_base::binary | std::ios_base::out | std::ios::trunc);
     if(!fout.good()){
-      throw std::logic_error("Failed to open cache file '"+filename+"'.");
+      throw std::logic_error("Failed to open cache file '"+cache_filename+"'.");
     }
 
     #ifdef WITH_COMPRESSION
@@ -242,6 +242,18 @@ class Array2D {
     out.write(reinterpret_cast<const char*>(projection.data()), projection.size()*sizeof(const char));
 
     out.write(reinterpret_cast<const char*>(_data.data()), size()*sizeof(T));
+
+    bool written = out.good();
+    #ifdef WITH_COMPRESSION
+      out.reset(); //Writes what the compressor still holds
+    #endif
+    fout.close();
+    written &= fout.good();
+    if(!written)
+      throw std::runtime_error("Failed to write cache file '"+cache_filename+"'.");
+
+    from_cache     = true;
+    this->filename = cache_filename;
   }
 
  private:
-- 
2.43.0


From 9ec72addad69e7ba854c00a7a995a230862d5caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 039/117] fix: truncated or foreign native files were loaded as
 if they were complete

---
 include/richdem/common/Array2D.hpp | 39 ++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index ae78eeb..6cdbd0f 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -265,8 +265,13 @@ class Array2D {
     if(!fin.good())
       throw std::runtime_error("Failed to load native file '" + input_filename +"!");
 
-    this->filename = input_filename;
-    from_cache    = true;
+    //Reports files which end early
+    const auto check = [&](const bool good){
+      if(good)
+        return;
+      clear();
+      throw std::runtime_error("Native file '"+input_filename+"' is truncated or damaged!");
+    };
 
     #ifdef WITH_COMPRESSION
       boost::iostreams::filtering_istream in;
@@ -274,6 +279,9 @@ class Array2D {
       in.push(fin);
     #else
       auto &in = fin;
+      fin.seekg(0, std::ios::end);
+      const uint64_t file_size = fin.tellg();
+      fin.seekg(0);
     #endif
 
     in.read(reinterpret_cast<char*>(&view_height),    sizeof(xy_t));
@@ -287,13 +295,34 @@ class Array2D {
 
     std::string::size_type projection_size;
     in.read(reinterpret_cast<char*>(&projection_size), sizeof(std::string::size_type));
-    projection.resize(projection_size,' ');
-    in.read(reinterpret_cast<char*>(&projection[0]), projection.size()*sizeof(char));
+    check(in.good() && view_height>=0 && view_width>=0);
+
+    const uint64_t data_size = (uint64_t)view_width*(uint64_t)view_height*sizeof(T);
+
+    #ifndef WITH_COMPRESSION
+      const uint64_t header_size = fin.tellg();
+      check(projection_size<=file_size-header_size && data_size==file_size-header_size-projection_size);
+    #else
+      check(projection_size<=projection.max_size()/2);
+    #endif
+
+    projection.clear();
+    for(std::string::size_type i=0;i<projection_size;i++){
+      char c;
+      in.read(&c, 1);
+      check(in.good());
+      projection.push_back(c);
+    }
 
     if(load_data){
       resize(view_width,view_height);
-      in.read(reinterpret_cast<char*>(_data.data()), size()*sizeof(T));
+      in.read(reinterpret_cast<char*>(_data.data()), data_size);
+      check(in.good());
+      check(in.peek()==std::char_traits<char>::eof()); //The file must end here
     }
+
+    this->filename = input_filename;
+    from_cache     = true;
   }
 
  public:
-- 
2.43.0


From 8c0f34950d4bad2593eb54e5e24dd533665e9ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 040/117] fix: countval crashed on rasters whose data is not
 loaded, for which it is documented to return zero

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 6cdbd0f..7671e92 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -604,7 +604,7 @@ class Array2D {
   */
   i_t countval(const T val) const {
     i_t count=0;
-    for(unsigned int i=0;i<size();i++)
+    for(unsigned int i=0;i<_data.size();i++)
       if(_data[i]==val)
         count++;
     return count;
-- 
2.43.0


From 114cb35d3850d231fada3aec5c2e0a7ab18b6474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 041/117] fix: a period in a directory's name was taken for the
 start of a file's extension

---
 include/richdem/common/Layoutfile.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/Layoutfile.hpp b/include/richdem/common/Layoutfile.hpp
index 7fe032c..7b60db4 100644
--- a/include/richdem/common/Layoutfile.hpp
+++ b/include/richdem/common/Layoutfile.hpp
@@ -55,7 +55,7 @@ static std::string trimStr(std::string const& str){
 static std::string GetBaseName(std::string filename){
   auto last_slash  = filename.find_last_of(RICHDEM_SLASH_CHAR);
   auto last_period = filename.find_last_of(".");
-  if(last_period!=std::string::npos)
+  if(last_period!=std::string::npos && (last_slash==std::string::npos || last_period>last_slash))
     filename.replace(last_period, std::string::npos, "");
   if(last_slash!=std::string::npos)
     filename.replace(0,last_slash+1,"");
@@ -238,7 +238,7 @@ class LayoutfileWriter {
     std::size_t last_period = layout_filename.find_last_of(".");
     if(last_slash!=std::string::npos)
       path = layout_filename.substr(0,last_slash+1);
-    if(last_period!=std::string::npos)
+    if(last_period!=std::string::npos && (last_slash==std::string::npos || last_period>last_slash))
       layout_filename.replace(last_period+1, std::string::npos, "layout");
 
     flout.open(layout_filename);
-- 
2.43.0


From 91e604a076b653a664f3d714043c648f6b95d8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 042/117] fix: empty layout files, and reading past the end of
 a layout, accessed rows that do not exist

---
 include/richdem/common/Layoutfile.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/richdem/common/Layoutfile.hpp b/include/richdem/common/Layoutfile.hpp
index 7b60db4..7af9663 100644
--- a/include/richdem/common/Layoutfile.hpp
+++ b/include/richdem/common/Layoutfile.hpp
@@ -131,11 +131,17 @@ class LayoutfileReader {
     if(!fin_layout.eof())
       throw std::runtime_error("Failed to read the entire layout file!");
 
+    if(fgrid.empty())
+      throw std::runtime_error("The layout file '"+layout_filename+"' is empty!");
+
     //Let's find the longest row
     auto max_row_length = fgrid.front().size();
     for(const auto &row: fgrid)
       max_row_length = std::max(max_row_length,row.size());
 
+    if(max_row_length==0)
+      throw std::runtime_error("The layout file '"+layout_filename+"' names no files!");
+
     for(auto &row: fgrid)
       if(row.size()==max_row_length-1)   //If the line was one short of max, assume it ends blank
         row.emplace_back();
@@ -146,6 +152,9 @@ class LayoutfileReader {
   ///@brief Advance the reader to the next layoutfile entry.
   ///@return True if reader advanced successfully; false if not.
   bool next(){
+    if(gridy==(int)fgrid.size())
+      return false;
+
     new_row = false;
     gridx++;
 
-- 
2.43.0


From cdb2579497585d3954d959ebabf26deb6019c103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 043/117] fix: missing tiles at the ends of all rows of a
 layout were lost, and unwritable layouts went unnoticed

---
 include/richdem/common/Layoutfile.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/richdem/common/Layoutfile.hpp b/include/richdem/common/Layoutfile.hpp
index 7af9663..df347fd 100644
--- a/include/richdem/common/Layoutfile.hpp
+++ b/include/richdem/common/Layoutfile.hpp
@@ -232,6 +232,7 @@ class LayoutfileWriter {
  private:
   int gridx;           ///Current column being written to
   int gridy;           ///Current row being written to
+  bool blank_end=true; ///Does the current row end with a null tile?
   std::string path;    ///Path of layoutfile
   std::ofstream flout; ///File output stream for the layout file
  public:
@@ -251,9 +252,12 @@ class LayoutfileWriter {
       layout_filename.replace(last_period+1, std::string::npos, "layout");
 
     flout.open(layout_filename);
+    if(!flout.good())
+      throw std::runtime_error("Problem opening layout file '"+layout_filename+"' for writing");
   }
 
   ~LayoutfileWriter(){
+    endRow();
     flout<<std::endl;
   }
 
@@ -261,9 +265,11 @@ class LayoutfileWriter {
   void addRow(){
     if(gridx==0 && gridy==0)
       return;
+    endRow();
     flout<<std::endl;
     gridy++;
     gridx = 0;
+    blank_end = true;
   }
 
   ///@brief Add a new entry to the layout file.
@@ -278,6 +284,14 @@ class LayoutfileWriter {
       flout<<",";
     flout<<filename;
     gridx++;
+    blank_end = filename.empty();
+  }
+
+ private:
+  ///A null tile at the end of a row is only read back if a comma follows it
+  void endRow(){
+    if(gridx>0 && blank_end)
+      flout<<",";
   }
 };
 
-- 
2.43.0


From 5e918cff1dcf2d7818e62c16316874f4747d81ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 044/117] fix: A2Array2D::saveGDAL constructed a string from a
 null pointer and so always failed

---
 include/richdem/tiled/A2Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 4b4654d..d9a5de5 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -517,7 +517,7 @@ class A2Array2D {
         temp.replace(temp.find("%f"),2,tile.basename);
         lfout.addEntry(temp);
 
-        tile.saveGDAL(temp, 0, 0);
+        tile.saveGDAL(temp, "", 0, 0);
       }
     }
 
-- 
2.43.0


From f6c10ac507d3e82ca2a23964cb0418a1f882cc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 045/117] fix: saving a tiled raster left its flipped tiles
 reversed in memory

---
 include/richdem/tiled/A2Array2D.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index d9a5de5..dc74792 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -504,9 +504,12 @@ class A2Array2D {
 
         tile.printStamp(5,"Saving, before reorientation");
 
-        if((tile.geotransform[1]<0) ^ flipH)
+        const bool reverseH = tile.geotransform.size()==6 && ((tile.geotransform[1]<0) ^ flipH);
+        const bool reverseV = tile.geotransform.size()==6 && ((tile.geotransform[5]>0) ^ flipV);
+
+        if(reverseH)
           tile.flipHorz();
-        if((tile.geotransform[5]>0) ^ flipV)
+        if(reverseV)
           tile.flipVert();
 
         tile.printStamp(5,"Saving, after reorientation");
@@ -518,6 +521,12 @@ class A2Array2D {
         lfout.addEntry(temp);
 
         tile.saveGDAL(temp, "", 0, 0);
+
+        //Tiles stay in memory in the orientation they are used in
+        if(reverseH)
+          tile.flipHorz();
+        if(reverseV)
+          tile.flipVert();
       }
     }
 
-- 
2.43.0


From 226ec9974983fc29ee000c57d47893d6c840389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 046/117] fix: NoData values set on evicted tiles were lost
 when the tiles were reloaded

---
 include/richdem/tiled/A2Array2D.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index dc74792..1a3c2b3 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -128,7 +128,9 @@ class A2Array2D {
     }
 
     if(tile.created){
+      const auto no_data = tile.noData(); //May have been set since the tile was evicted
       tile.loadData();
+      tile.setNoData(no_data);
       tile.printStamp(5,"Tile load, before reorientating"); //Print stamp before reorientating since this must match parallel_pf.exe
       if(readonly){
         if((tile.geotransform[1]<0) ^ flipH)
-- 
2.43.0


From 04578b4b688e5a963d697effe6a28886b95b1638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 047/117] fix: tiled rasters not read from a layout did not
 know which of their tiles exist

---
 include/richdem/tiled/A2Array2D.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 1a3c2b3..af75659 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -236,6 +236,11 @@ class A2Array2D {
     this->total_width_in_cells  = per_tile_width*width;
     this->total_height_in_cells = per_tile_height*height;
 
+    not_null_tiles        = width*height;
+    quick_width_in_tiles  = width;
+    quick_height_in_tiles = height;
+    null_tile_quick.resize(quick_width_in_tiles*quick_height_in_tiles, false);
+
     int tile=0;
     for(int y=0;y<height;y++){
       data.emplace_back();
@@ -243,7 +248,10 @@ class A2Array2D {
         tile++;
         data.back().emplace_back();
         data.back().back().setCacheFilename(prefix+std::to_string(tile)+".native");
+        data.back().back().basename = std::to_string(tile);
         data.back().back().created  = false;
+        data.back().back().create_with_width  = per_tile_width;
+        data.back().back().create_with_height = per_tile_height;
       }
     }
   }
@@ -261,6 +269,7 @@ class A2Array2D {
     flipV                 = other.flipV;
     flipH                 = other.flipH;
 
+    not_null_tiles        = other.not_null_tiles;
     quick_width_in_tiles  = other.quick_width_in_tiles;
     quick_height_in_tiles = other.quick_height_in_tiles;
     null_tile_quick       = other.null_tile_quick;
-- 
2.43.0


From b01bb804e7aaec121211eb11ab8ebb13eb4107be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 048/117] fix: tiled rasters with missing or reorientated tiles
 were merged into one file wrongly or not at all

---
 include/richdem/tiled/A2Array2D.hpp | 34 +++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index af75659..1567008 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -552,19 +552,45 @@ class A2Array2D {
     if(fout==NULL)
       throw std::runtime_error("Could not open file '"+outputname+"' for GDAL save!");
 
-    auto no_data = data[0][0].noData();
+    //Missing tiles have neither a NoData value nor a georeference
+    int32_t first_tx = -1;
+    int32_t first_ty = -1;
     for(int32_t ty=0;ty<heightInTiles();ty++)
     for(int32_t tx=0;tx<widthInTiles();tx++)
-      if(data[ty][tx].noData()!=no_data)
+      if(first_tx==-1 && !data[ty][tx].null_tile){
+        first_tx = tx;
+        first_ty = ty;
+      }
+    if(first_tx==-1)
+      throw std::runtime_error("The tiled raster has no tiles!");
+    const auto &first_tile = data[first_ty][first_tx];
+
+    auto no_data = first_tile.noData();
+    for(int32_t ty=0;ty<heightInTiles();ty++)
+    for(int32_t tx=0;tx<widthInTiles();tx++)
+      if(!data[ty][tx].null_tile && data[ty][tx].noData()!=no_data)
         throw std::runtime_error("Files had differing NoData values :-(");
 
-    auto out_geotransform = data[0][0].geotransform;
+    auto out_geotransform = first_tile.geotransform;
 
     if(out_geotransform.size()!=6)
       throw std::runtime_error("Geotransform of output is not the right size. Found "+std::to_string(out_geotransform.size())+" expected 6.");
 
+    //Tiles which were reorientated on loading are written as they are in memory
+    if((out_geotransform[1]<0) ^ flipH){
+      out_geotransform[0] += stdTileWidth()*out_geotransform[1];
+      out_geotransform[1] *= -1;
+    }
+    if((out_geotransform[5]>0) ^ flipV){
+      out_geotransform[3] += stdTileHeight()*out_geotransform[5];
+      out_geotransform[5] *= -1;
+    }
+
+    out_geotransform[0] -= first_tx*stdTileWidth() *out_geotransform[1];
+    out_geotransform[3] -= first_ty*stdTileHeight()*out_geotransform[5];
+
     fout->SetGeoTransform(out_geotransform.data());
-    fout->SetProjection(data[0][0].projection.c_str());
+    fout->SetProjection(first_tile.projection.c_str());
 
     GDALRasterBand *oband = fout->GetRasterBand(1);
     oband->SetNoDataValue(no_data);
-- 
2.43.0


From 9cebdd23fd444b19d325a57a14a29a86688f4b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 049/117] fix: a tiled raster with room for no tile in memory
 evicted from an empty cache

---
 include/richdem/tiled/A2Array2D.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 1567008..5827603 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -152,10 +152,16 @@ class A2Array2D {
     tile.lazySetAll();
   }
 
+  void setCacheSize(int cachesize){
+    if(cachesize==0)
+      throw std::runtime_error("At least one tile must be kept in memory!");
+    lru.setCapacity(cachesize);
+  }
+
  public:
 
   A2Array2D(std::string layoutfile, int cachesize){
-    lru.setCapacity(cachesize);
+    setCacheSize(cachesize);
     readonly = true;
 
     LayoutfileReader lf(layoutfile);
@@ -226,7 +232,7 @@ class A2Array2D {
   }
 
   A2Array2D(std::string prefix, int per_tile_width, int per_tile_height, int width, int height, int cachesize){
-    lru.setCapacity(cachesize);
+    setCacheSize(cachesize);
 
     readonly = false;
 
@@ -258,7 +264,7 @@ class A2Array2D {
 
   template<class U>
   A2Array2D(std::string filename_template, const A2Array2D<U> &other, int cachesize) {
-    lru.setCapacity(cachesize);
+    setCacheSize(cachesize);
 
     readonly = false;
 
-- 
2.43.0


From f0dd43f3178e89995b05c4b1414c653b973315c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 050/117] fix: the LRU cache read an uninitialised item and did
 not take back an item evicted right after its insertion

---
 include/richdem/tiled/lru.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/richdem/tiled/lru.hpp b/include/richdem/tiled/lru.hpp
index a81faf7..bf3b887 100644
--- a/include/richdem/tiled/lru.hpp
+++ b/include/richdem/tiled/lru.hpp
@@ -19,7 +19,6 @@ class LRU {
   typedef std::list<T> cachetype; ///< Container used for storage by the cache
   int len;                        ///< Number of items in the cache
   int maxlen;                     ///< Maximum size the cache is allowed to be
-  T   last;                       ///< Copy of the last inserted item. Speeds up insertion. TODO: This'd be better as a pointer
   std::unordered_map<T, typename std::list<T>::iterator> visited; ///< Used for O(1) access to members
 
  public:
@@ -39,9 +38,8 @@ class LRU {
   ///
   ///@param entry The item to add to the queue.
   void insert(const T &entry){
-    //Used to quickly move on if we've seen this item before (TODO: Should use a
-    //pointer in case T is not a POD.)
-    if(entry==last)
+    //Used to quickly move on if this is the item inserted last
+    if(!cache.empty() && entry==cache.front())
       return;
 
     if(visited.count(entry)){                     //Item is already in the queue
@@ -52,8 +50,6 @@ class LRU {
       visited[entry] = cache.begin();             //Make a note of its location
       len++;                                      //Queue just got bigger
     }
-
-    last = entry;                                 //Make a note of the new item
   }
 
   ///@brief Returns the number of itmes in the LRU cache
-- 
2.43.0


From 45ee0bad5f9d5b5cff033a435d25ea9634b462da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 051/117] fix: zero and negative zero were treated as different
 keys, disordering the radix heap

---
 include/richdem/common/radix_heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/richdem/common/radix_heap.hpp b/include/richdem/common/radix_heap.hpp
index 71d94a1..271a568 100644
--- a/include/richdem/common/radix_heap.hpp
+++ b/include/richdem/common/radix_heap.hpp
@@ -80,6 +80,7 @@ public:
   typedef UnsignedKeyType unsigned_key_type;
 
   inline static constexpr unsigned_key_type encode(key_type x) {
+    if(x == 0) x = 0; //Negative zero is the same key as zero
     return raw_cast<key_type, unsigned_key_type>(x) ^
         ((-(raw_cast<key_type, unsigned_key_type>(x) >> (std::numeric_limits<unsigned_key_type>::digits - 1))) |
          (unsigned_key_type(1) << (std::numeric_limits<unsigned_key_type>::digits - 1)));
-- 
2.43.0


From e2b1c96a6a9dac35d08cb845389ab4f5176c1f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 052/117] fix: the LRU cache outgrew its capacity on insertion
 and then did not report being full

---
 include/richdem/tiled/lru.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/richdem/tiled/lru.hpp b/include/richdem/tiled/lru.hpp
index bf3b887..e1ea342 100644
--- a/include/richdem/tiled/lru.hpp
+++ b/include/richdem/tiled/lru.hpp
@@ -49,6 +49,7 @@ class LRU {
       cache.push_front(entry);                    //Add item to the front
       visited[entry] = cache.begin();             //Make a note of its location
       len++;                                      //Queue just got bigger
+      prune();                                    //Keep the queue within its capacity
     }
   }
 
@@ -61,7 +62,7 @@ class LRU {
   ///@brief Is the LRU cache full?
   ///@return True if the LRU cache is full; otherwise, false.
   bool full() const {
-    return len==maxlen;
+    return maxlen!=-1 && len>=maxlen;
   }
 
   ///@brief Set the maximum capacity of the LRU cache
-- 
2.43.0


From 1e9a20eb53ecf5e23c200a40b5767b8ae62a5daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 053/117] fix: finding a set at the end of a long chain of
 directed merges overflowed the stack

---
 include/richdem/common/disjoint_dense_int_set.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/richdem/common/disjoint_dense_int_set.hpp b/include/richdem/common/disjoint_dense_int_set.hpp
index 632c091..c1a02a3 100644
--- a/include/richdem/common/disjoint_dense_int_set.hpp
+++ b/include/richdem/common/disjoint_dense_int_set.hpp
@@ -81,12 +81,16 @@ class DisjointDenseIntSet {
     if(n>=parent.size()){
       throw std::runtime_error("DisjointDenseIntSet::findSet(" + std::to_string(n) + ") is looking for a set outside the valid range, which is [0," + std::to_string(parent.size()) + ")!");
     }
-    if(parent[n]==n){                  //Am I my own parent?
-      return n;                        //Yes: I represent the set in question.
-    } else {                           //No.
-      //Who is my parent's ultimate parent? Make them my parent.
-      return parent[n] = findSet(parent[n]);
+    //Who is my ultimate parent? Chains of parents may be too long to recurse on.
+    unsigned int root = n;
+    while(parent[root]!=root)          //Am I my own parent?
+      root = parent[root];             //No: ask my parent.
+    while(parent[n]!=root){            //Make the ultimate parent the parent of
+      const auto next = parent[n];     //every set in the chain
+      parent[n] = root;
+      n = next;
     }
+    return root;
   }
 
   //Join two sets into a single set. Note that we "cannot" predict the `id` of
-- 
2.43.0


From 5669e8765ddb5aefde91fa16679ae30d4ec4b2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 054/117] fix: cells without flow were counted by several
 threads at once without synchronisation

---
 include/richdem/flats/Barnes2014.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/flats/Barnes2014.hpp b/include/richdem/flats/Barnes2014.hpp
index 319ed0e..d6af2ff 100644
--- a/include/richdem/flats/Barnes2014.hpp
+++ b/include/richdem/flats/Barnes2014.hpp
@@ -321,7 +321,7 @@ static void FindFlatEdges(
 
   progress.start( flats.size() );
 
-  #pragma omp parallel for collapse(2)
+  #pragma omp parallel for collapse(2) reduction(+:cells_without_flow)
   for(int y=0;y<flats.height();y++)
   for(int x=0;x<flats.width();x++){
     ++progress;
-- 
2.43.0


From 3521ac0217036355fb5cb5ee7a7c88beecb99eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 055/117] fix: the labels of flats depended on the order in
 which threads found their edges

---
 include/richdem/flats/Barnes2014.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/richdem/flats/Barnes2014.hpp b/include/richdem/flats/Barnes2014.hpp
index d6af2ff..7748267 100644
--- a/include/richdem/flats/Barnes2014.hpp
+++ b/include/richdem/flats/Barnes2014.hpp
@@ -9,6 +9,7 @@
 #ifndef _richdem_Barnes2014_flat_resolution_hpp_
 #define _richdem_Barnes2014_flat_resolution_hpp_
 
+#include <algorithm>
 #include <richdem/common/logger.hpp>
 #include <richdem/common/ProgressBar.hpp>
 #include <richdem/common/grid_cell.hpp>
@@ -364,6 +365,12 @@ static void FindFlatEdges(
     }
   }
 
+  //The threads find the edges in any order, which would make the labels of the
+  //flats differ from run to run. Fix the order.
+  const auto row_major = [](const GridCell &a, const GridCell &b){ return a.y<b.y || (a.y==b.y && a.x<b.x); };
+  std::sort(low_edges.begin(),  low_edges.end(),  row_major);
+  std::sort(high_edges.begin(), high_edges.end(), row_major);
+
   RDLOG_TIME_USE<<"Succeeded in = "<<progress.stop()<<" s";
   RDLOG_MISC<<"Cells with no flow direction = "<<cells_without_flow;
   RDLOG_MISC<<"Low edge cells               = "<<low_edges.size();
-- 
2.43.0


From 02a1361bdd75df0ca0598cd1f8d3b5de4d4505f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 056/117] fix: raising flats read elevations of neighbours
 which other threads were changing

---
 include/richdem/flats/Barnes2014.hpp      | 20 ++++++++++++--------
 include/richdem/flats/flat_resolution.hpp | 17 +++++++++++++----
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/include/richdem/flats/Barnes2014.hpp b/include/richdem/flats/Barnes2014.hpp
index 7748267..ea5d4b2 100644
--- a/include/richdem/flats/Barnes2014.hpp
+++ b/include/richdem/flats/Barnes2014.hpp
@@ -519,6 +519,10 @@ void ResolveFlatsEpsilon_Barnes2014(
 
   int raise_warn = 0;
 
+  //Other threads raise the neighbours of a cell while it is being considered, so
+  //the elevations prior to raising are kept
+  const auto original = elevations;
+
   #pragma omp parallel for collapse(2)
   for(int y=1;y<flat_mask.height()-1;y++)
   for(int x=1;x<flat_mask.width()-1;x++){
@@ -528,16 +532,16 @@ void ResolveFlatsEpsilon_Barnes2014(
     if(labels(x,y)==0)
       continue;
 
-    //This array holds information about which cells the focal cell was lower
-    //than prior to the focal cell being raised. This is used to check to see if
-    //the focal cell has been raised too high.
-    bool lower[9];
-    for(int n=1;n<=8;++n)
-      lower[n] = elevations(x,y)<elevations(x+d8x[n],y+d8y[n]);
-
     //Raise the focal cell by the appropriate number of increments
     for(int i=0;i<flat_mask(x,y);++i)
       elevations(x,y) = std::nextafter(elevations(x,y),std::numeric_limits<U>::infinity());
+  }
+
+  #pragma omp parallel for collapse(2) reduction(+:raise_warn)
+  for(int y=1;y<flat_mask.height()-1;y++)
+  for(int x=1;x<flat_mask.width()-1;x++){
+    if(labels(x,y)==0)
+      continue;
 
     //Check the surrounding cells to see if we are inappropriately higher than
     //any of them
@@ -553,7 +557,7 @@ void ResolveFlatsEpsilon_Barnes2014(
         continue;
       //I am higher than or of equal elevation to my neighbour, but I was
       //originally lower than my neighbour. This is a problem.
-      if(lower[n])
+      if(original(x,y)<original(nx,ny))
         raise_warn++;
     }
   }
diff --git a/include/richdem/flats/flat_resolution.hpp b/include/richdem/flats/flat_resolution.hpp
index c331ae2..e7e5521 100644
--- a/include/richdem/flats/flat_resolution.hpp
+++ b/include/richdem/flats/flat_resolution.hpp
@@ -557,6 +557,10 @@ void d8_flats_alter_dem(
 
   RDLOG_ALG_NAME<<"Calculating D8 flow directions using flat mask...";
   progress.start( flat_mask.width()*flat_mask.height() );
+  //Other threads raise the neighbours of a cell while it is being considered, so
+  //the elevations prior to raising are kept
+  const auto original = elevations;
+
   #pragma omp parallel for
   for(int x=1;x<flat_mask.width()-1;x++){
     progress.update( x*flat_mask.height() );
@@ -564,11 +568,16 @@ void d8_flats_alter_dem(
       if(labels(x,y)==0)
         continue;
 
-      bool higher[9];
-      for(int n=1;n<=8;++n)
-        higher[n]=elevations(x,y)>elevations(x+d8x[n],y+d8y[n]);
       for(int i=0;i<flat_mask(x,y);++i)
         elevations(x,y)=std::nextafter(elevations(x,y),std::numeric_limits<U>::infinity());
+    }
+  }
+
+  for(int x=1;x<flat_mask.width()-1;x++){
+    for(int y=1;y<flat_mask.height()-1;y++){
+      if(labels(x,y)==0)
+        continue;
+
       for(int n=1;n<=8;++n){
         int nx=x+d8x[n];
         int ny=y+d8y[n];
@@ -576,7 +585,7 @@ void d8_flats_alter_dem(
           continue;
         if(elevations(x,y)<elevations(nx,ny))
           continue;
-        if(!higher[n])
+        if(!(original(x,y)>original(nx,ny)))
           RDLOG_WARN<<"Attempting to raise ("<<x<<","<<y<<") resulted in an invalid alteration of the DEM!";
       }
     }
-- 
2.43.0


From 7538e70586dba22dfe4121ef4e1697da29faf051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 057/117] fix: depression volumes depended on the number of
 threads and on their timing

---
 .../depressions/depression_hierarchy.hpp      | 35 ++++++++++---------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/include/richdem/depressions/depression_hierarchy.hpp b/include/richdem/depressions/depression_hierarchy.hpp
index 7b1a52a..6217f6b 100644
--- a/include/richdem/depressions/depression_hierarchy.hpp
+++ b/include/richdem/depressions/depression_hierarchy.hpp
@@ -803,12 +803,13 @@ void CalculateMarginalVolumes(
 
   RDLOG_PROGRESS << "Calculating depression marginal volumes...";
 
+  // The depression whose marginal volume each cell contributes to
+  Array2D<dh_label_t> container(label.width(), label.height(), OCEAN);
+
   // Get the marginal depression cell counts and total elevations
   progress.start(dem.size());
-#pragma omp parallel default(none) shared(progress, deps, dem, label)
+#pragma omp parallel default(none) shared(progress, deps, dem, label, container)
   {
-    std::vector<uint32_t> cell_counts(deps.size(), 0);
-    std::vector<double> total_elevations(deps.size(), 0);
     CachingOutletChecker<elev_t> coc;
 
 #pragma omp for
@@ -851,22 +852,24 @@ void CalculateMarginalVolumes(
         clabel = deps[clabel].parent;
       }
 
-      // This cell was the above the outlet of all the metadepressions that
-      // could contain it, so its flow goes to the ocean. Therefore, we ignore
-      // it because it doesn't contribute marginal volume to any depression.
-      if(clabel == OCEAN){
-        continue;
-      }
-
-      cell_counts[clabel]++;
-      total_elevations[clabel] += dem(i);
+      container(i) = clabel;
     }
+  }
+
+  // Rounding makes sums depend on the order of their terms, so the cells are
+  // summed in a fixed order for the volumes not to depend on the threads
+  for (unsigned int i = 0; i < dem.size(); i++) {
+    const auto clabel = container(i);
 
-#pragma omp critical
-    for (unsigned int i = 0; i < deps.size(); i++) {
-      deps[i].cell_count += cell_counts[i];
-      deps[i].total_elevation += total_elevations[i];
+    // This cell was the above the outlet of all the metadepressions that
+    // could contain it, so its flow goes to the ocean. Therefore, we ignore
+    // it because it doesn't contribute marginal volume to any depression.
+    if(clabel == OCEAN){
+      continue;
     }
+
+    deps[clabel].cell_count++;
+    deps[clabel].total_elevation += dem(i);
   }
   progress.stop();
   RDLOG_TIME_USE << "Time to calculate marginal volumes = " << progress.time_it_took() << " s";
-- 
2.43.0


From 896d4e1bf9e8c22e5395ee61db78ad858d68d673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:07 +0000
Subject: [PATCH 058/117] fix: NoData values outside the range of the cell type
 coincided with its smallest or greatest value

---
 include/richdem/common/gdal.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/richdem/common/gdal.hpp b/include/richdem/common/gdal.hpp
index 183cc00..8252e59 100644
--- a/include/richdem/common/gdal.hpp
+++ b/include/richdem/common/gdal.hpp
@@ -22,8 +22,10 @@ GDALDataType peekGDALType(const std::string &filename);
 
 /**
   @brief  Convert a GDAL file's NoData value to the type its cells are read as.
-          Like GDAL does with the cells themselves, values beyond the range of
-          an integer type or between its values become the nearest value.
+          For integer types, values between integers become the nearest one,
+          like the cells themselves do, and values beyond the range of the type
+          wrap around (-1 becomes 255 for an 8-bit type), so that they do not
+          coincide with the ends of the range, which cells are clamped to.
 
   @param[in]  no_data   NoData value as reported by GDAL
 */
@@ -32,12 +34,14 @@ T NoDataFromGDAL(const double no_data){
   if(std::numeric_limits<T>::is_integer){
     if(std::isnan(no_data))
       return 0;
-    if(no_data<=static_cast<double>(std::numeric_limits<T>::lowest()))
-      return std::numeric_limits<T>::lowest();
-    if(no_data>=static_cast<double>(std::numeric_limits<T>::max()))
-      return std::numeric_limits<T>::max();
+    const double rounded = std::round(no_data);
+    if(rounded>=static_cast<double>(std::numeric_limits<T>::lowest()) && rounded<static_cast<double>(std::numeric_limits<T>::max()))
+      return static_cast<T>(rounded);
+    if(std::abs(rounded)<9e18)
+      return static_cast<T>(static_cast<int64_t>(rounded));
+    return rounded<0 ? std::numeric_limits<T>::lowest() : std::numeric_limits<T>::max();
   }
-  return static_cast<T>(std::numeric_limits<T>::is_integer ? std::round(no_data) : no_data);
+  return static_cast<T>(no_data);
 }
 
 
-- 
2.43.0


From 1c949f137838f189ae6f3cb5581b57508c15074a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 059/117] fix: the progress bar divided by zero, overflowed and
 went backwards, and changed the formatting of std::cerr

---
 include/richdem/common/ProgressBar.hpp | 34 ++++++++++++++------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/include/richdem/common/ProgressBar.hpp b/include/richdem/common/ProgressBar.hpp
index 34cf6b2..f8b741e 100644
--- a/include/richdem/common/ProgressBar.hpp
+++ b/include/richdem/common/ProgressBar.hpp
@@ -21,7 +21,9 @@
 #include <richdem/common/timer.hpp>
 
 #include <iomanip>
+#include <cstdint>
 #include <iostream>
+#include <sstream>
 #include <stdexcept>
 #include <string>
 
@@ -38,11 +40,11 @@ namespace richdem {
 ///of the progress bar is shown in ProgressBar.hpp.
 class ProgressBar{
   private:
-    uint32_t total_work_;    ///< Total work to be accomplished
-    uint32_t next_update;   ///< Next point to update the visible progress bar
-    uint32_t call_diff;     ///< Interval between updates in work units
-    uint32_t work_done;
-    uint16_t old_percent;   ///< Old percentage value (aka: should we update the progress bar) TODO: Maybe that we do not need this
+    uint64_t total_work_ = 0; ///< Total work to be accomplished
+    uint64_t next_update = 0; ///< Next point to update the visible progress bar
+    uint64_t call_diff   = 0; ///< Interval between updates in work units
+    uint64_t work_done   = 0;
+    uint16_t old_percent = 0; ///< Old percentage value (aka: should we update the progress bar) TODO: Maybe that we do not need this
     Timer    timer;         ///< Used for generating ETA
 
     ///Clear current line on console so a new progress bar can be written
@@ -69,7 +71,7 @@ class ProgressBar{
   public:
     ///@brief Start/reset the progress bar.
     ///@param total_work  The amount of work to be completed, usually specified in cells.
-    void start(uint32_t total_work){
+    void start(uint64_t total_work){
       timer = Timer();
       timer.start();
       total_work_ = total_work;
@@ -84,7 +86,7 @@ class ProgressBar{
     ///
     ///Define the global `RICHDEM_NO_PROGRESS` flag to prevent this from having
     ///an effect. Doing so may speed up the program's execution.
-    void update(uint32_t work_done0){
+    void update(uint64_t work_done0){
       #ifdef RICHDEM_NO_PROGRESS
         return;
       #endif
@@ -94,25 +96,27 @@ class ProgressBar{
 
       work_done = work_done0;
 
-      if(work_done<next_update)
+      if(total_work_==0 || work_done<next_update)
         return;
 
       next_update += call_diff;
 
-      uint16_t percent = (uint8_t)(work_done*num_threads()*100/total_work_);
-      if(percent>100)
-        percent=100;
-      if(percent==old_percent)
+      const double done    = 100.0*work_done*num_threads()/total_work_;
+      const uint16_t percent = done<100 ? static_cast<uint16_t>(done) : 100;
+      //Leaving a parallel region lowers the estimate: do not go back
+      if(percent<=old_percent)
         return;
       old_percent=percent;
 
-      std::cerr<<"\r\033[2K["
+      std::ostringstream bar; //Leaves the formatting of std::cerr alone
+      bar<<"\r\033[2K["
                <<std::string(percent/2, '=')<<std::string(50-percent/2, ' ')
                <<"] ("
                <<percent<<"% - "
                <<std::fixed<<std::setprecision(1)<<timer.lap()/percent*(100-percent)
                <<"s - "
-               <<num_threads()<< " threads)"<<std::flush;
+               <<num_threads()<< " threads)";
+      std::cerr<<bar.str()<<std::flush;
     }
 
     ///Increment by one the work done and update the progress bar
@@ -138,7 +142,7 @@ class ProgressBar{
       return timer.accumulated();
     }
 
-    uint32_t cellsProcessed() const {
+    uint64_t cellsProcessed() const {
       return work_done;
     }
 };
-- 
2.43.0


From ee22115e710a86d3a6b73b13b80d3c674fc9858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 060/117] fix: the seed had no effect on the first thread and
 only its lower bits on the others

---
 src/random.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/random.cpp b/src/random.cpp
index 74c0f8c..d7e15e3 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -39,7 +39,9 @@ void seed_rand(uint64_t seed){
       std::seed_seq q(std::begin(seed_data), std::end(seed_data));
       rand_engine().seed(q);
     } else {
-      rand_engine().seed( seed*rd_get_thread_num() );
+      //All bits of the seed and the thread's number matter, for every thread
+      std::seed_seq q{static_cast<uint32_t>(seed), static_cast<uint32_t>(seed>>32), static_cast<uint32_t>(rd_get_thread_num())};
+      rand_engine().seed(q);
     }
   }
 }
-- 
2.43.0


From 62d24998efe6a902913dca112f3b9d394e03f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 061/117] fix: normal draws survived seeding and restoring the
 state of the random generator

---
 src/random.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/random.cpp b/src/random.cpp
index d7e15e3..5634622 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -62,9 +62,10 @@ double uniform_rand_real(double from, double thru){
 
 
 double normal_rand(double mean, double stddev){
-  static std::array<std::normal_distribution<double>, PRNG_THREAD_MAX> d;
-  using parm_t = std::normal_distribution<double>::param_type;
-  return d[rd_get_thread_num()]( rand_engine(), parm_t{mean, stddev} );
+  //Not static: a distribution keeps every second value, which would survive
+  //seeding and restoring the engine
+  std::normal_distribution<double> d(mean, stddev);
+  return d( rand_engine() );
 }
 
 RandomEngineState SaveRandomState(){
-- 
2.43.0


From 55a6a9a1a920a5213182e2c9eabdef99ec6f8c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 062/117] fix: random draws by more than 32 threads used memory
 beyond the end of an array

---
 include/richdem/common/random.hpp |  2 +-
 src/random.cpp                    | 12 +++++-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/richdem/common/random.hpp b/include/richdem/common/random.hpp
index 5da13a8..351081a 100644
--- a/include/richdem/common/random.hpp
+++ b/include/richdem/common/random.hpp
@@ -14,7 +14,7 @@
 namespace richdem {
 
 ///Maximum number of threads this class should deal with
-#define PRNG_THREAD_MAX 32
+#define PRNG_THREAD_MAX 1024
 
 typedef std::string RandomEngineState;
 
diff --git a/src/random.cpp b/src/random.cpp
index 5634622..68b4af6 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -22,7 +22,7 @@ static int rd_get_thread_num(){
 
 our_random_engine& rand_engine(){
   static std::array<our_random_engine, PRNG_THREAD_MAX> e;
-  return e[rd_get_thread_num()];
+  return e.at(rd_get_thread_num());
 }
 
 
@@ -48,16 +48,14 @@ void seed_rand(uint64_t seed){
 
 
 int uniform_rand_int(int from, int thru){
-  static std::array<std::uniform_int_distribution<>, PRNG_THREAD_MAX> d;
-  using parm_t = std::uniform_int_distribution<>::param_type;
-  return d[rd_get_thread_num()]( rand_engine(), parm_t{from, thru} );
+  std::uniform_int_distribution<> d(from, thru);
+  return d( rand_engine() );
 }
 
 
 double uniform_rand_real(double from, double thru){
-  static std::array<std::uniform_real_distribution<>, PRNG_THREAD_MAX> d;
-  using parm_t = std::uniform_real_distribution<>::param_type;
-  return d[rd_get_thread_num()]( rand_engine(), parm_t{from, thru} );
+  std::uniform_real_distribution<> d(from, thru);
+  return d( rand_engine() );
 }
 
 
-- 
2.43.0


From b9f8ea407139b8e37127d389fcde979d602ff094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 063/117] fix: uniform draws from a narrow interval could
 return its excluded upper end

---
 src/random.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/random.cpp b/src/random.cpp
index 68b4af6..0062a0b 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -3,6 +3,7 @@
 #include <algorithm>
 #include <array>
 #include <cassert>
+#include <cmath>
 #include <cstdint>
 #include <functional>
 #include <iostream>
@@ -55,7 +56,10 @@ int uniform_rand_int(int from, int thru){
 
 double uniform_rand_real(double from, double thru){
   std::uniform_real_distribution<> d(from, thru);
-  return d( rand_engine() );
+  const double ret = d( rand_engine() );
+  if(ret>=thru && from<thru) //Due to rounding
+    return std::nextafter(thru, from);
+  return ret;
 }
 
 
-- 
2.43.0


From b4c4697cf2203593529359eab3b462c0206ddc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:12 +0000
Subject: [PATCH 064/117] fix: a message could be received into the buffer
 sized for another one

---
 include/richdem/common/communication.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/communication.hpp b/include/richdem/common/communication.hpp
index a44aa49..6d42153 100644
--- a/include/richdem/common/communication.hpp
+++ b/include/richdem/common/communication.hpp
@@ -139,7 +139,8 @@ void CommRecv(T* a, U* b, int from){
   char* buf = (char*)malloc(msg_size);
   assert(buf!=NULL);
 
-  MPI_Recv(buf, msg_size, MPI_BYTE, from, MPI_ANY_TAG, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
+  //Receive the very message which was probed: another may have arrived since then
+  MPI_Recv(buf, msg_size, MPI_BYTE, status.MPI_SOURCE, status.MPI_TAG, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
 
   bytes_recv += msg_size;
 
-- 
2.43.0


From 1f26c0324f83a0b95791b1361556d2fa06473123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 065/117] fix: the memory statistics threw an exception for
 processes with more than 2 TiB of address space

---
 include/richdem/common/memory.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/memory.hpp b/include/richdem/common/memory.hpp
index 0e415f0..2d53dae 100644
--- a/include/richdem/common/memory.hpp
+++ b/include/richdem/common/memory.hpp
@@ -37,7 +37,7 @@ void ProcessMemUsage(long &vmpeak, long &vmhwm){
       }
 
       if(line.compare(0,7,"VmPeak:")==0){        //Peak virtual memory size
-        vmpeak = std::stoi(line.substr(7));
+        vmpeak = std::stol(line.substr(7));
       // } else if(line.compare(0,7,"VmSize:")==0){ //Virtual memory size
       //   std::cerr<<"T: "<<line.substr(7,10)<<std::endl;
       //   vmsize = std::stoi(line.substr(7,10));
@@ -45,7 +45,7 @@ void ProcessMemUsage(long &vmpeak, long &vmhwm){
       //   std::cerr<<"T: "<<line.substr(7,10)<<std::endl;
       //   vmrss = std::stoi(line.substr(7,10));
       } else if(line.compare(0,6,"VmHWM:")==0){  //Peak resident set size
-        vmhwm = std::stoi(line.substr(6));
+        vmhwm = std::stol(line.substr(6));
       }
     }
   #else
-- 
2.43.0


From 02a6c7edcaf4ee0142838ec3397c4f911f4c0b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 066/117] fix: a tile was read through a pointer which adding
 further tiles had invalidated

---
 programs/parallel_d8_accum/main.cpp       | 16 ++++++++--------
 programs/parallel_priority_flood/main.cpp | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index a3840c6..88dfb30 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -1162,7 +1162,7 @@ void Preparer(
   TileGrid tiles;
   std::string  filename;
   GDALDataType file_type;        //All tiles must have a common file_type
-  TileInfo *reptile = nullptr; //Pointer to a representative tile
+  int reptile_flip = -1;         //How a representative tile is flipped; -1 if there is none
 
   std::string output_layout_name = output_name;
   if(output_name.find("%f")!=std::string::npos){
@@ -1250,10 +1250,6 @@ void Preparer(
         analysis
       );
 
-      //Get a representative tile, if we don't already have one
-      if(reptile==nullptr)
-        reptile = &tiles.back().back();
-
       lfout.addEntry(this_output_name);
 
       //Flip tiles if the geotransform demands it
@@ -1267,6 +1263,10 @@ void Preparer(
         tiles.back().back().flip ^= FLIP_HORZ;
       if(flipV)
         tiles.back().back().flip ^= FLIP_VERT;
+
+      //Note how a representative tile is flipped, if we haven't already
+      if(reptile_flip==-1)
+        reptile_flip = tiles.back().back().flip;
     }
 
     std::cerr<<"c Loaded "<<tiles.size()<<" rows each of which had "<<tiles[0].size()<<" columns."<<std::endl;
@@ -1392,9 +1392,9 @@ void Preparer(
   timer_overall.stop();
   std::cerr<<"t Preparer time = "<<timer_overall.accumulated()<<" s"<<std::endl;
 
-  if(reptile!=nullptr){
-    std::cerr<<"c Flip horizontal = "<<((reptile->flip & FLIP_HORZ)?"YES":"NO")<<std::endl;
-    std::cerr<<"c Flip vertical =   "<<((reptile->flip & FLIP_VERT)?"YES":"NO")<<std::endl;
+  if(reptile_flip!=-1){
+    std::cerr<<"c Flip horizontal = "<<((reptile_flip & FLIP_HORZ)?"YES":"NO")<<std::endl;
+    std::cerr<<"c Flip vertical =   "<<((reptile_flip & FLIP_VERT)?"YES":"NO")<<std::endl;
   }
   std::cerr<<"c Input data type = "<<GDALGetDataTypeName(file_type)<<std::endl;
 
diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index fe73795..66bb1c5 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -847,7 +847,7 @@ void Preparer(
   TileGrid tiles;
   std::string  filename;
   GDALDataType file_type;        //All tiles must have a common file_type
-  TileInfo *reptile = nullptr; //Pointer to a representative tile
+  int reptile_flip = -1;         //How a representative tile is flipped; -1 if there is none
 
   std::string output_layout_name = output_name;
   if(output_name.find("%f")!=std::string::npos){
@@ -935,10 +935,6 @@ void Preparer(
         analysis
       );
 
-      //Get a representative tile, if we don't already have one
-      if(reptile==nullptr)
-        reptile = &tiles.back().back();
-
       lfout.addEntry(this_output_name);
 
       //Flip tiles if the geotransform demands it
@@ -952,6 +948,10 @@ void Preparer(
         tiles.back().back().flip ^= FLIP_HORZ;
       if(flipV)
         tiles.back().back().flip ^= FLIP_VERT;
+
+      //Note how a representative tile is flipped, if we haven't already
+      if(reptile_flip==-1)
+        reptile_flip = tiles.back().back().flip;
     }
 
     std::cerr<<"c Loaded "<<tiles.size()<<" rows each of which had "<<tiles[0].size()<<" columns."<<std::endl;
@@ -1075,9 +1075,9 @@ void Preparer(
   timer_overall.stop();
   std::cerr<<"t Preparer time = "<<timer_overall.accumulated()<<" s"<<std::endl;
 
-  if(reptile){
-    std::cerr<<"c Flip horizontal = "<<((reptile->flip & FLIP_HORZ)?"YES":"NO")<<std::endl;
-    std::cerr<<"c Flip vertical =   "<<((reptile->flip & FLIP_VERT)?"YES":"NO")<<std::endl;
+  if(reptile_flip!=-1){
+    std::cerr<<"c Flip horizontal = "<<((reptile_flip & FLIP_HORZ)?"YES":"NO")<<std::endl;
+    std::cerr<<"c Flip vertical =   "<<((reptile_flip & FLIP_VERT)?"YES":"NO")<<std::endl;
   }
   std::cerr<<"c Input data type = "<<GDALGetDataTypeName(file_type)<<std::endl;
 
-- 
2.43.0


From ea3a65ce60a1805e9c056bc89b2df50492190313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 067/117] fix: missing tiles had uninitialised members, as had
 the data type if every tile was missing

---
 programs/parallel_d8_accum/main.cpp       | 5 ++++-
 programs/parallel_priority_flood/main.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index 88dfb30..1778904 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -136,6 +136,9 @@ class TileInfo{
   std::string analysis;   //Command line command used to invoke everything
   TileInfo(){
     nullTile = true;
+    edge = flip = 0;
+    x = y = gridx = gridy = width = height = 0;
+    many = false;
   }
   TileInfo(std::string filename, std::string outputname, std::string retention, int32_t gridx, int32_t gridy, int32_t x, int32_t y, int32_t width, int32_t height, bool many, std::string analysis){
     this->nullTile   = false;
@@ -1161,7 +1164,7 @@ void Preparer(
 
   TileGrid tiles;
   std::string  filename;
-  GDALDataType file_type;        //All tiles must have a common file_type
+  GDALDataType file_type = GDT_Unknown; //All tiles must have a common file_type
   int reptile_flip = -1;         //How a representative tile is flipped; -1 if there is none
 
   std::string output_layout_name = output_name;
diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index 66bb1c5..34fa233 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -96,6 +96,9 @@ class TileInfo{
   std::string analysis;   //Command line command used to invoke everything
   TileInfo(){
     nullTile = true;
+    edge = flip = 0;
+    x = y = gridx = gridy = width = height = 0;
+    many = false;
   }
   TileInfo(std::string filename, std::string outputname, std::string retention, int32_t gridx, int32_t gridy, int32_t x, int32_t y, int32_t width, int32_t height, bool many, std::string analysis){
     this->nullTile   = false;
@@ -846,7 +849,7 @@ void Preparer(
 
   TileGrid tiles;
   std::string  filename;
-  GDALDataType file_type;        //All tiles must have a common file_type
+  GDALDataType file_type = GDT_Unknown; //All tiles must have a common file_type
   int reptile_flip = -1;         //How a representative tile is flipped; -1 if there is none
 
   std::string output_layout_name = output_name;
-- 
2.43.0


From 20e66d3b861d134cddfa407a18593bcd471c147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 068/117] fix: the labels overwrote the cached elevations and
 were then not found

---
 programs/parallel_priority_flood/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index 34fa233..9388f33 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -247,7 +247,7 @@ class ConsumerSpecifics {
   void SaveToCache(const TileInfo &tile){
     timer_io.start();
     dem.setCacheFilename(tile.retention+"dem.dat");
-    labels.setCacheFilename(tile.retention+"dem.dat");
+    labels.setCacheFilename(tile.retention+"labels.dat");
     dem.dumpData();
     labels.dumpData();
     timer_io.stop();
-- 
2.43.0


From 4f7da6022847fe500455f730d00ea8cd0f88cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 069/117] fix: flow entering a tile through a corner between
 two missing tiles was lost

---
 programs/parallel_d8_accum/main.cpp | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index 1778904..9c1e670 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -1276,22 +1276,6 @@ void Preparer(
     std::cerr<<"m Total cells to be processed = "<<cell_count<<std::endl;
     std::cerr<<"m Number of tiles which were not null = "<<not_null_tiles<<std::endl;
 
-    //nullTiles imply that the tiles around them have edges, as though they
-    //are on the edge of the raster.
-    for(int y=0;y<(int)tiles.size();y++)
-    for(int x=0;x<(int)tiles[0].size();x++){
-      if(tiles[y][x].nullTile)
-        continue;
-      if(y-1>0 && x>0 && tiles[y-1][x].nullTile)
-        tiles[y][x].edge |= GRID_TOP;
-      if(y+1<(int)tiles.size() && x>0 && tiles[y+1][x].nullTile)
-        tiles[y][x].edge |= GRID_BOTTOM;
-      if(y>0 && x-1>0 && tiles[y][x-1].nullTile)
-        tiles[y][x].edge |= GRID_LEFT;
-      if(y>0 && x+1<(int)tiles[0].size() && tiles[y][x+1].nullTile)
-        tiles[y][x].edge |= GRID_RIGHT;
-    }
-
   } else if(many_or_one=="one") {
     int32_t total_height;
     int32_t total_width;
-- 
2.43.0


From 0f00543175e825a3f579d35a3a043bfa63aa7e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 070/117] fix: tiles beside a missing tile in the first rows or
 columns did not drain into it

---
 programs/parallel_priority_flood/main.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index 9388f33..2b72f9e 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -967,13 +967,13 @@ void Preparer(
     for(int x=0;x<(int)tiles[0].size();x++){
       if(tiles[y][x].nullTile)
         continue;
-      if(y-1>0 && x>0 && tiles[y-1][x].nullTile)
+      if(y>0 && tiles[y-1][x].nullTile)
         tiles[y][x].edge |= GRID_TOP;
-      if(y+1<(int)tiles.size() && x>0 && tiles[y+1][x].nullTile)
+      if(y+1<(int)tiles.size() && tiles[y+1][x].nullTile)
         tiles[y][x].edge |= GRID_BOTTOM;
-      if(y>0 && x-1>0 && tiles[y][x-1].nullTile)
+      if(x>0 && tiles[y][x-1].nullTile)
         tiles[y][x].edge |= GRID_LEFT;
-      if(y>0 && x+1<(int)tiles[0].size() && tiles[y][x+1].nullTile)
+      if(x+1<(int)tiles[0].size() && tiles[y][x+1].nullTile)
         tiles[y][x].edge |= GRID_RIGHT;
     }
 
-- 
2.43.0


From b006e481d327d75c797e2eadd79234bf0e763f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:40 +0000
Subject: [PATCH 071/117] fix: the message telling the consumers to quit was
 never received, which blocks if sends are not buffered

---
 programs/parallel_d8_accum/main.cpp       | 4 +++-
 programs/parallel_priority_flood/main.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index 9c1e670..1cb6f33 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -940,6 +940,8 @@ void Consumer(){
     //This message indicates that everything is done and the Consumer should shut
     //down.
     if(the_job==SYNC_MSG_KILL){
+      int temp;
+      CommRecv(&temp,nullptr,0);
       return;
 
     //This message indicates that the consumer should prepare to perform the
@@ -1110,7 +1112,7 @@ void Producer(TileGrid &tiles){
   //Send out a message to tell the consumers to politely quit. Their job is
   //done.
   for(int i=1;i<CommSize();i++){
-    int temp;
+    int temp = 0;
     CommSend(&temp,nullptr,i,SYNC_MSG_KILL);
   }
 
diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index 2b72f9e..8af89b6 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -618,6 +618,8 @@ void Consumer(){
     //This message indicates that everything is done and the Consumer should shut
     //down.
     if(the_job==SYNC_MSG_KILL){
+      int temp;
+      CommRecv(&temp,nullptr,0);
       return;
 
     //This message indicates that the consumer should prepare to perform the
@@ -795,7 +797,7 @@ void Producer(TileGrid &tiles){
   //Send out a message to tell the consumers to politely quit. Their job is
   //done.
   for(int i=1;i<CommSize();i++){
-    int temp;
+    int temp = 0;
     CommSend(&temp,nullptr,i,SYNC_MSG_KILL);
   }
 
-- 
2.43.0


From 57e5e2756a4a37109fbc1928bd03fd908649e78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 072/117] fix: a tile did not drain into a missing tile which
 touches it only at a corner

---
 programs/parallel_priority_flood/main.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index 8af89b6..6169c9f 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -476,18 +476,26 @@ class ProducerSpecifics {
       //Top left
       if(y>0 && x>0                      && !tiles[y-1][x-1].nullTile)
         HandleCorner(c.top_elev.front(), jobs1[y-1][x-1].bot_elev.back(),  c.top_label.front(), jobs1[y-1][x-1].bot_label.back(),  mastergraph, tiles[y][x].label_offset, tiles[y-1][x-1].label_offset);
+      if(y>0 && x>0 && tiles[y-1][x-1].nullTile)
+        HandleCorner(c.top_elev.front(), c.top_elev.front(), c.top_label.front(), 1, mastergraph, tiles[y][x].label_offset, 0);
 
       //Bottom right
       if(y<gridheight-1 && x<gridwidth-1 && !tiles[y+1][x+1].nullTile)
         HandleCorner(c.bot_elev.back(),  jobs1[y+1][x+1].top_elev.front(), c.bot_label.back(),  jobs1[y+1][x+1].top_label.front(), mastergraph, tiles[y][x].label_offset, tiles[y+1][x+1].label_offset);
+      if(y<gridheight-1 && x<gridwidth-1 && tiles[y+1][x+1].nullTile)
+        HandleCorner(c.bot_elev.back(), c.bot_elev.back(), c.bot_label.back(), 1, mastergraph, tiles[y][x].label_offset, 0);
 
       //Top right
       if(y>0 && x<gridwidth-1            && !tiles[y-1][x+1].nullTile)
         HandleCorner(c.top_elev.back(),  jobs1[y-1][x+1].bot_elev.front(), c.top_label.back(),  jobs1[y-1][x+1].bot_label.front(), mastergraph, tiles[y][x].label_offset, tiles[y-1][x+1].label_offset);
+      if(y>0 && x<gridwidth-1 && tiles[y-1][x+1].nullTile)
+        HandleCorner(c.top_elev.back(), c.top_elev.back(), c.top_label.back(), 1, mastergraph, tiles[y][x].label_offset, 0);
 
       //Bottom left
       if(x>0 && y<gridheight-1           && !tiles[y+1][x-1].nullTile)
         HandleCorner(c.bot_elev.front(), jobs1[y+1][x-1].top_elev.back(),  c.bot_label.front(), jobs1[y+1][x-1].top_label.back(),  mastergraph, tiles[y][x].label_offset, tiles[y+1][x-1].label_offset);
+      if(x>0 && y<gridheight-1 && tiles[y+1][x-1].nullTile)
+        HandleCorner(c.bot_elev.front(), c.bot_elev.front(), c.bot_label.front(), 1, mastergraph, tiles[y][x].label_offset, 0);
     }
     timer_mg_construct.stop();
 
-- 
2.43.0


From 10bff8bc44d56dd0d263d667682ffe167abd3743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:59 +0000
Subject: [PATCH 073/117] fix: the layout file written for a single input file
 named none of the output files

---
 programs/parallel_priority_flood/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index 6169c9f..b63b91a 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -1017,6 +1017,7 @@ void Preparer(
     //TODO: Avoid creating extremely narrow or small strips
     for(int32_t y=0,gridy=0;y<total_height; y+=bheight, gridy++){
       tiles.emplace_back(std::vector<TileInfo>());
+      lfout.addRow();
       for(int32_t x=0,gridx=0;x<total_width;x+=bwidth,  gridx++){
         if(total_height-y<100){
           std::cerr<<"At least one tile is <100 cells in height. Please change rectangle size to avoid this!"<<std::endl;
@@ -1052,6 +1053,8 @@ void Preparer(
         }
         this_output_name.replace(this_output_name.find("%n"),2,coord_string);
 
+        lfout.addEntry(this_output_name);
+
         tiles.back().emplace_back(
           input_file,
           this_output_name,
-- 
2.43.0


From 2872f5d3bc7055ea980ce30848c79330e0c2e844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:13 +0000
Subject: [PATCH 074/117] fix: tiles whose perimeter has more than 65,532 cells
 were mishandled

---
 programs/parallel_d8_accum/main.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index 1cb6f33..88528ca 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -75,21 +75,20 @@ typedef double accum_t;
 typedef uint8_t pd8_flowdir_t;
 
 //Links need to be able to hold values up to the length of the perimeter of a
-//tile of the DEM. uint16_t is therefore acceptable. It allows a perimeter of
-//length 65,535 (minus the constants defined below). This allows for sides of
-//~16,383.
-typedef uint16_t link_t;
+//tile of the DEM (plus the constants defined below). uint16_t would only allow
+//for sides of ~16,383.
+typedef uint32_t link_t;
 
 //Since, in a grid representation, up to eight cells may flow into a single
 //cell, uint8_t is appropriate for appropriate for tracking these dependencies.
 typedef uint8_t c_dependency_t;
 
 //In a perimeter representation, any number of cells on the perimeter may
-//ultimately flow into a single outlet cell. Therefore, we need this to uint16_t
-//for the same reasons discussed for link_t. We will assume that the top value
-//(65,535) is not usable in order to raise an assertion error if the dependency
+//ultimately flow into a single outlet cell. Therefore, we need this to be
+//uint32_t for the same reasons discussed for link_t. We will assume that the top
+//value is not usable in order to raise an assertion error if the dependency
 //count goes negative.
-typedef uint16_t p_dependency_t;
+typedef uint32_t p_dependency_t;
 
 ///Used in the perimeter representation to indicate that a cell has no
 ///downstream neighbour, for whatever reason
-- 
2.43.0


From a66ec8453d5f4c130dc6d96836b15fa4c63b61db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:13 +0000
Subject: [PATCH 075/117] fix: tiles consisting of a single row of cells ended
 the program

---
 programs/parallel_d8_accum/main.cpp       |  2 +-
 programs/parallel_d8_accum/perimeters.hpp | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index 88528ca..d085786 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -514,7 +514,7 @@ class ConsumerSpecifics {
   void FirstRound(const TileInfo &tile, Job1<T> &job1){
     //-2 removes duplicate cells on vertical edges which would otherwise
     //overlap horizontal edges
-    links.resize(2*flowdirs.width()+2*(flowdirs.height()-2), FLOW_TERMINATES);
+    links.resize(perimeterSize(flowdirs.width(),flowdirs.height()), FLOW_TERMINATES);
 
     //The following considers corner cells more than once. That's okay, though:
     //the repeated effort merely produces the same results in the same places
diff --git a/programs/parallel_d8_accum/perimeters.hpp b/programs/parallel_d8_accum/perimeters.hpp
index e5a21ac..da77c99 100644
--- a/programs/parallel_d8_accum/perimeters.hpp
+++ b/programs/parallel_d8_accum/perimeters.hpp
@@ -21,6 +21,13 @@ int xyToSerial(const int x, const int y, const int width, const int height){
   return 2*(width-1)+(height-1)+y; //Left-hand side
 }
 
+//Number of cells on the perimeter of a tile
+inline size_t perimeterSize(const int width, const int height){
+  if(width==1 || height==1)
+    return width*height;
+  return 2*width+2*(height-2);
+}
+
 //TODO: Explain
 void serialToXY(const int serial, int &x, int &y, const int width, const int height){
   if(serial<width){                        //Top row
@@ -53,6 +60,10 @@ void GridPerimToArray(const richdem::Array2D<U> &grid, std::vector<U> &vec){
   vec2copy = grid.getColData(grid.width()-1);        //Right
   vec.insert(vec.end(),vec2copy.begin()+1,vec2copy.end());
 
+  //A single row or column has neither a separate bottom nor a separate left side
+  if(grid.width()==1 || grid.height()==1)
+    return;
+
   vec2copy = grid.getRowData(grid.height()-1);       //Bottom
   vec.insert(vec.end(),vec2copy.begin(),vec2copy.end()-1);
 
-- 
2.43.0


From 218cbc8d05023d4aae9dad457849b3fee2f68c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:22 +0000
Subject: [PATCH 076/117] fix: invalid flow directions were used for addressing
 before they were rejected

---
 programs/parallel_d8_accum/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index d085786..9742e17 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -496,6 +496,8 @@ class ConsumerSpecifics {
 
     flowdirs.printStamp(5,"LoadFromEvict() after reorientation");
 
+    VerifyInputSanity();
+
     timer_calc.start();
     FlowAccumulation(flowdirs,accum);
     timer_calc.stop();
@@ -958,7 +960,6 @@ void Consumer(){
       job1.gridx = tile.gridx;
 
       consumer.LoadFromEvict(tile);
-      consumer.VerifyInputSanity();
 
       consumer.FirstRound(tile, job1);
 
-- 
2.43.0


From 6ba12ab0155a47a202fc1530c440eab53667fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:22 +0000
Subject: [PATCH 077/117] fix: a block width or height of zero made the program
 add tiles for ever

---
 programs/parallel_d8_accum/main.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index 9742e17..ed0fb69 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -1448,16 +1448,16 @@ int main(int argc, char **argv){
           if(i+1==argc)
             throw std::invalid_argument("-w followed by no argument.");
           bwidth = std::stoi(argv[i+1]);
-          // if(bwidth<300 && bwidth!=-1) //TODO
-          //   throw std::invalid_argument("Width must be at least 500.");
+          if(bwidth<1 && bwidth!=-1)
+            throw std::invalid_argument("Width must be at least 1.");
           i++;
           continue;
         } else if(strcmp(argv[i],"--bheight")==0 || strcmp(argv[i],"-h")==0){
           if(i+1==argc)
             throw std::invalid_argument("-h followed by no argument.");
           bheight = std::stoi(argv[i+1]);
-          // if(bheight<300 && bheight!=-1) //TODO
-          //   throw std::invalid_argument("Height must be at least 500.");
+          if(bheight<1 && bheight!=-1)
+            throw std::invalid_argument("Height must be at least 1.");
           i++;
           continue;
         } else if(strcmp(argv[i],"--help")==0){
-- 
2.43.0


From 4ad9323bd05de8ffe1f0f5acc68fb8062529d9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 078/117] fix: the cell-count perimeter overlooked cells
 bordering NoData

---
 include/richdem/misc/misc_methods.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/misc/misc_methods.hpp b/include/richdem/misc/misc_methods.hpp
index 445ba0c..f90f922 100644
--- a/include/richdem/misc/misc_methods.hpp
+++ b/include/richdem/misc/misc_methods.hpp
@@ -210,7 +210,7 @@ double Perimeter(
 
       if(perim_type==PerimType::CELL_COUNT){
         for(int n=1;n<=8;n++){
-          if(!arr.inGrid(x+d8x[n],y+d8y[n])){
+          if(!arr.inGrid(x+d8x[n],y+d8y[n]) || arr.isNoData(x+d8x[n],y+d8y[n])){
             cell_edges++;
             break;
           }
-- 
2.43.0


From 27e13d0dd088965b1ba267a7769ae492b90bbf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 079/117] fix: the surface area of very steep or very large
 cells came out as NaN or aborted the program

---
 include/richdem/misc/misc_methods.hpp | 41 +++++++++------------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/include/richdem/misc/misc_methods.hpp b/include/richdem/misc/misc_methods.hpp
index f90f922..8df34de 100644
--- a/include/richdem/misc/misc_methods.hpp
+++ b/include/richdem/misc/misc_methods.hpp
@@ -46,14 +46,6 @@ double dem_surface_area(
   std::cerr<<"\nA DEM Surface Elevation"<<std::endl;
   std::cerr<<"C Jenness, J.S., 2004. Calculating landscape surface area from digital elevation models. Wildlife Society Bulletin 32, 829--839. doi:10.2193/0091-7648(2004)032[0829:CLSAFD]2.0.CO;2"<<std::endl;
 
-  const auto euc_dist = [](const double a, const double b){ return std::sqrt(std::pow((double)a,2.0)+std::pow((double)b,2.0)); };
-
-  //If calculate cell area is lower than actual area, but greater than "AA minus
-  //fudge_factor", we clamp the calculated area to the actual area without
-  //raising an error. If the calculated area is lower than the fudge_factor, we
-  //raise an alarm.
-  const double fudge_factor = 1e-4;
-
   //Using double as an accumulator here is important! Testing this algorithm
   //using the Boost Numeric Interval library should data such as follows:
   //Single-precision sum            = 2.14851e+09
@@ -72,7 +64,6 @@ double dem_surface_area(
 
   const double xdist            = elevations.getCellLengthX();
   const double ydist            = elevations.getCellLengthY();
-  const double planar_diag_dist = euc_dist(xdist,ydist);
 
   //TODO: This algorithm would benefit from GPU integration
   progress.start(elevations.size());
@@ -124,35 +115,29 @@ double dem_surface_area(
         else
           ndn_elev = my_elev;
 
-        const double planar_dist_dn   = planar_diag_dist;             //Distance focal cell to diagonal neighbour
         const double planar_dist_ndn  = (d8y[ndn] == 0)?xdist:ydist;  //Distance focal cell to non-diagonal neighbour
         const double planar_dist_bn   = (d8y[ndn] == 0)?ydist:xdist;  //Distance between the neighbour cells
 
-        const double elev_diff_dn     = dn_elev -my_elev; //Elevation drop between focal and diagonal
         const double elev_diff_ndn    = ndn_elev-my_elev; //Elevation drop between focal and non-diagonal
         const double elev_diff_bn     = ndn_elev-dn_elev; //Elevation drop between neighbours
 
-        //Divide these distances by two to form a similar triangle constrained
-        //by the boundary of the focal cell
-        const double surf_dist_dn     = euc_dist(planar_dist_dn,elev_diff_dn)/2;   //3-space distance between center of focal and diagonal neighbour
-        const double surf_dist_ndn    = euc_dist(planar_dist_ndn,elev_diff_ndn)/2; //3-space distance between center of focal and non-diagonal neighbour
-        const double surf_dist_bn     = euc_dist(planar_dist_bn,elev_diff_bn)/2;   //3-space distance between neighbours
-
-        //Used to get area of triangle
-        const double s = (surf_dist_dn+surf_dist_ndn+surf_dist_bn)/2;
-
-        //Accumulate area of triangle to
-        const double tri_area = std::sqrt(s*(s-surf_dist_dn)*(s-surf_dist_ndn)*(s-surf_dist_bn));
+        //The triangle's area is half the length of the cross product of two of
+        //its sides. Unlike Heron's formula, this stays accurate for triangles
+        //which are much taller than they are wide. Halving the sides gives the
+        //similar triangle constrained by the boundary of the focal cell, which
+        //has a quarter of the area.
+        const double tri_area = std::sqrt(
+          std::pow(planar_dist_bn *elev_diff_ndn, 2.0) +
+          std::pow(planar_dist_ndn*elev_diff_bn,  2.0) +
+          std::pow(planar_dist_ndn*planar_dist_bn,2.0)
+        )/8;
 
         cell_area += tri_area;
       }
 
-      if(cell_area<elevations.getCellArea()){
-        if(cell_area+fudge_factor>=elevations.getCellArea())
-          cell_area = elevations.getCellArea();
-        else
-          throw std::runtime_error("A cell had a topographic surface area less than its planar surface area!");
-      }
+      //Up to rounding, topography can only add to a cell's planar area
+      if(cell_area<elevations.getCellArea())
+        cell_area = elevations.getCellArea();
 
       area += cell_area;
     }
-- 
2.43.0


From ba9562341de998af0d69be6f0507c57b53baa6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 080/117] fix: a bucket fill which sets cells to NaN never
 ended

---
 include/richdem/misc/misc_methods.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/richdem/misc/misc_methods.hpp b/include/richdem/misc/misc_methods.hpp
index 8df34de..089640a 100644
--- a/include/richdem/misc/misc_methods.hpp
+++ b/include/richdem/misc/misc_methods.hpp
@@ -257,11 +257,16 @@ void BucketFill(
   constexpr auto dy = get_dy_for_topology<topo>();
   constexpr auto nmax = get_nmax_for_topology<topo>();
 
+  //A NaN does not equal itself, but a cell which is NaN has been set to NaN
+  const auto is_set = [&](const U &val){
+    return val==set_value || (val!=val && set_value!=set_value);
+  };
+
   while(!seeds.empty()){
     const auto c = seeds.back();
     seeds.pop_back();
 
-    if(check_raster(c)!=check_value || set_raster(c)==set_value){
+    if(check_raster(c)!=check_value || is_set(set_raster(c))){
       continue;
     }
 
@@ -276,7 +281,7 @@ void BucketFill(
 
       const auto ni = check_raster.xyToI(cx+dx[n], cy+dy[n]);
 
-      if(check_raster(ni)==check_value && set_raster(ni)!=set_value)
+      if(check_raster(ni)==check_value && !is_set(set_raster(ni)))
         seeds.emplace_back(ni);
     }
   }
-- 
2.43.0


From 595c7bdc9d5fd2886818537da480a2e4e538e7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 081/117] fix: a bucket fill from the edges of a raster without
 cells read beyond it

---
 include/richdem/misc/misc_methods.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/richdem/misc/misc_methods.hpp b/include/richdem/misc/misc_methods.hpp
index 089640a..4cc1599 100644
--- a/include/richdem/misc/misc_methods.hpp
+++ b/include/richdem/misc/misc_methods.hpp
@@ -311,6 +311,8 @@ void BucketFillFromEdges(
   const U            &set_value
 ){
   std::vector<size_t> seeds;
+  if(check_raster.empty())
+    return;
   seeds.reserve(2*check_raster.width()+2*check_raster.height());
   for(int y=0;y<check_raster.height();y++){
     seeds.emplace_back(check_raster.xyToI(0,y));
-- 
2.43.0


From 80f0d1e97640512d9801011c19b29d209f723d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:55 +0000
Subject: [PATCH 082/117] fix: fills of an empty raster must not read its
 perimeter

The perimeter of a raster with no cells was added to the priority queue,
reading the elevations out of bounds. There is nothing to do for them.
---
 include/richdem/depressions/Barnes2014.hpp | 24 ++++++++++++++++++++++
 include/richdem/depressions/Zhou2016.hpp   |  3 +++
 2 files changed, 27 insertions(+)

diff --git a/include/richdem/depressions/Barnes2014.hpp b/include/richdem/depressions/Barnes2014.hpp
index d3e1e5f..636a5fc 100644
--- a/include/richdem/depressions/Barnes2014.hpp
+++ b/include/richdem/depressions/Barnes2014.hpp
@@ -61,6 +61,9 @@ bool HasDepressions(const Array2D<elev_t> &elevations){
            <<(elevations.width()*2+elevations.height()*2)*((long)sizeof(GridCellZ<elev_t>))/1024/1024
                <<"MB of RAM.";
 
+  if(elevations.size()==0) //An empty raster has no perimeter cells to start from
+    return false;
+
   RDLOG_PROGRESS<<"Adding perimeter cells to the priority queue...";
   for(int x=0;x<elevations.width();x++){
     open.emplace(x,0,elevations(x,0) );
@@ -156,6 +159,9 @@ void PriorityFlood_Original(Array2D<elev_t> &elevations){
            <<(elevations.width()*2+elevations.height()*2)*((long)sizeof(GridCellZ<elev_t>))/1024/1024
                <<"MB of RAM.";
 
+  if(elevations.size()==0) //An empty raster has no perimeter cells to start from
+    return;
+
   RDLOG_PROGRESS<<"Adding perimeter cells to the priority queue...";
   for(int x=0;x<elevations.width();x++){
     open.emplace(x,0,elevations(x,0) );
@@ -251,6 +257,9 @@ void PriorityFlood_Barnes2014(Array2D<elev_t> &elevations){
            <<(elevations.width()*2+elevations.height()*2)*((long)sizeof(GridCellZ<elev_t>))/1024/1024
                <<"MB of RAM.";
 
+  if(elevations.size()==0) //An empty raster has no perimeter cells to start from
+    return;
+
   RDLOG_PROGRESS<<"Adding cells to the priority queue...";
 
   for(int x=0;x<elevations.width();x++){
@@ -354,6 +363,9 @@ void PriorityFloodEpsilon_Barnes2014(Array2D<elev_t> &elevations){
   RDLOG_PROGRESS<<"Setting up boolean flood array matrix...";
   Array2D<int8_t> closed(elevations.width(),elevations.height(),false);
 
+  if(elevations.size()==0) //An empty raster has no perimeter cells to start from
+    return;
+
   RDLOG_PROGRESS<<"Adding cells to the priority queue...";
   for(int x=0;x<elevations.width();x++){
     open.emplace(x,0,elevations(x,0) );
@@ -499,6 +511,9 @@ void PriorityFloodFlowdirs_Barnes2014(const Array2D<elev_t> &elevations, Array2D
            <<(elevations.width()*2+elevations.height()*2)*((long)sizeof(GridCellZ<elev_t>))/1024/1024
                 <<"MB of RAM.";
 
+  if(elevations.size()==0) //An empty raster has no perimeter cells to start from
+    return;
+
   RDLOG_PROGRESS<<"Adding cells to the priority queue...";
   for(int x=0;x<elevations.width();x++){
     open.emplace(x,0,elevations(x,0));
@@ -623,6 +638,9 @@ void pit_mask(const Array2D<elev_t> &elevations, Array2D<uint8_t> &pit_mask){
            <<(elevations.width()*2+elevations.height()*2)*((long)sizeof(GridCellZ<elev_t>))/1024/1024
                <<"MB of RAM.";
 
+  if(elevations.size()==0) //An empty raster has no perimeter cells to start from
+    return;
+
   RDLOG_PROGRESS<<"Adding cells to the priority queue...";
   for(int x=0;x<elevations.width();x++){
     open.emplace(x,0,elevations(x,0) );
@@ -746,6 +764,9 @@ void PriorityFloodWatersheds_Barnes2014(
            <<(elevations.width()*2+elevations.height()*2)*((long)sizeof(GridCellZ<elev_t>))/1024/1024
                <<"MB of RAM.";
 
+  if(elevations.size()==0) //An empty raster has no perimeter cells to start from
+    return;
+
   RDLOG_PROGRESS<<"Adding cells to the priority queue...";
   for(int x=0;x<elevations.width();x++){
     open.emplace(x,0,elevations(x,0) );
@@ -873,6 +894,9 @@ void PriorityFlood_Barnes2014_max_dep(
            <<(elevations.width()*2+elevations.height()*2)*((long)sizeof(GridCellZ<elev_t>))/1024/1024
                <<"MB of RAM.";
 
+  if(elevations.size()==0) //An empty raster has no perimeter cells to start from
+    return;
+
   RDLOG_PROGRESS<<"Adding cells to the priority queue...";
 
   for(int x=0;x<elevations.width();x++){
diff --git a/include/richdem/depressions/Zhou2016.hpp b/include/richdem/depressions/Zhou2016.hpp
index fab8cdc..7cfcc60 100644
--- a/include/richdem/depressions/Zhou2016.hpp
+++ b/include/richdem/depressions/Zhou2016.hpp
@@ -132,6 +132,9 @@ void PriorityFlood_Zhou2016(
   RDLOG_ALG_NAME<<"Priority-Flood (Zhou2016 version)";
   RDLOG_CITATION<<"Zhou, G., Sun, Z., Fu, S., 2016. An efficient variant of the Priority-Flood algorithm for filling depressions in raster digital elevation models. Computers & Geosciences 90, Part A, 87 – 96. doi:http://dx.doi.org/10.1016/j.cageo.2016.02.021";
 
+  if(dem.size()==0) //An empty raster has no perimeter cells to start from
+    return;
+
   Timer timer;
   timer.start();
 
-- 
2.43.0


From 3a1c615bd54b90ce840ba8cd7d15d88a59ea2bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:55 +0000
Subject: [PATCH 083/117] fix: flow metrics must not overflow the elevation
 type

The drop from a cell to its neighbour was calculated in the elevations' own
type, which overflows for integers farther apart than it can represent.
---
 include/richdem/flowmet/Fairfield1991.hpp | 2 +-
 include/richdem/flowmet/Freeman1991.hpp   | 2 +-
 include/richdem/flowmet/Holmgren1994.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/richdem/flowmet/Fairfield1991.hpp b/include/richdem/flowmet/Fairfield1991.hpp
index ccbaa1b..77d9279 100644
--- a/include/richdem/flowmet/Fairfield1991.hpp
+++ b/include/richdem/flowmet/Fairfield1991.hpp
@@ -56,7 +56,7 @@ void FM_FairfieldLeymarie(const Array2D<elev_t> &elevations, Array3D<float> &pro
       if(ne>=e)
         continue;
 
-      double rho_slope = (e-ne);
+      double rho_slope = static_cast<double>(e)-static_cast<double>(ne);
       if(topo==Topology::D8 && n8_diag[n])
         rho_slope *= 1/(2-uniform_rand_real(0,1));
       else if(topo==Topology::D4 && (n==D4_NORTH || n==D4_SOUTH))
diff --git a/include/richdem/flowmet/Freeman1991.hpp b/include/richdem/flowmet/Freeman1991.hpp
index 5d77e08..f568b53 100644
--- a/include/richdem/flowmet/Freeman1991.hpp
+++ b/include/richdem/flowmet/Freeman1991.hpp
@@ -60,7 +60,7 @@ void FM_Freeman(
       const E ne = elevations(nx,ny);
 
       if(ne<e){
-        const double rise = e-ne;
+        const double rise = static_cast<double>(e)-static_cast<double>(ne);
         const double run  = dr[n];
         const double grad = rise/run;
         grads[n]          = grad;
diff --git a/include/richdem/flowmet/Holmgren1994.hpp b/include/richdem/flowmet/Holmgren1994.hpp
index 78c269e..668f318 100644
--- a/include/richdem/flowmet/Holmgren1994.hpp
+++ b/include/richdem/flowmet/Holmgren1994.hpp
@@ -64,7 +64,7 @@ void FM_Holmgren(
       const E ne = elevations(nx,ny);
 
       if(ne<e){
-        const double rise = e-ne;
+        const double rise = static_cast<double>(e)-static_cast<double>(ne);
         const double run  = dr[n];
         const double grad = rise/run;
         grads[n]          = grad * L[n];
-- 
2.43.0


From b51ecedc155c44d5c28fc881be60860797a3917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:55 +0000
Subject: [PATCH 084/117] fix: d8_flow_accum must not index its neighbours with
 invalid directions

A direction which is not in [0,8] read and wrote out of bounds. Such input is
now refused.
---
 include/richdem/methods/d8_methods.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/richdem/methods/d8_methods.hpp b/include/richdem/methods/d8_methods.hpp
index 5925b0e..2c2e216 100644
--- a/include/richdem/methods/d8_methods.hpp
+++ b/include/richdem/methods/d8_methods.hpp
@@ -64,8 +64,9 @@ void d8_flow_accum(const Array2D<T> &flowdirs, Array2D<U> &area){
   area.setNoData(-1);
 
   RDLOG_PROGRESS<<"Calculating dependency matrix & setting noData() cells...";
+  bool has_invalid_directions = false;
   progress.start( flowdirs.size() );
-  #pragma omp parallel for
+  #pragma omp parallel for reduction(|:has_invalid_directions)
   for(int y=0;y<flowdirs.height();y++){
     progress.update( y*flowdirs.width() );
     for(int x=0;x<flowdirs.width();x++){
@@ -78,6 +79,11 @@ void d8_flow_accum(const Array2D<T> &flowdirs, Array2D<U> &area){
       if(n==NO_FLOW)         //This cell does not flow into a neighbour
         continue;
 
+      if(n<0 || n>8){        //Not a D8 direction
+        has_invalid_directions = true;
+        continue;
+      }
+
       int nx = x+d8x[n];      //x-coordinate of the neighbour
       int ny = y+d8y[n];      //y-coordinate of the neighbour
 
@@ -93,6 +99,9 @@ void d8_flow_accum(const Array2D<T> &flowdirs, Array2D<U> &area){
   }
   RDLOG_TIME_USE<<"Dependency calculation time = "<<progress.stop()<<" s";
 
+  if(has_invalid_directions)
+    throw std::runtime_error("D8 flow directions must be between 0 and 8!");
+
   RDLOG_PROGRESS<<"Locating source cells...";
   for(int y=0;y<flowdirs.height();y++)
   for(int x=0;x<flowdirs.width();x++)
-- 
2.43.0


From 28b2e48e0fdff80d8ff2153bb2e8ce7930dc4fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:31 +0000
Subject: [PATCH 085/117] fix: dinf_upslope_area must refuse directions which
 are not angles

Angles out of range and NaN were converted to neighbours beyond the end of the
offset tables.
---
 include/richdem/methods/dinf_methods.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/richdem/methods/dinf_methods.hpp b/include/richdem/methods/dinf_methods.hpp
index c2c265c..cefde34 100644
--- a/include/richdem/methods/dinf_methods.hpp
+++ b/include/richdem/methods/dinf_methods.hpp
@@ -12,6 +12,7 @@
 
 #include <cmath>
 #include <queue>
+#include <stdexcept>
 #include <richdem/common/logger.hpp>
 #include <richdem/common/Array2D.hpp>
 #include <richdem/common/constants.hpp>
@@ -135,6 +136,7 @@ void dinf_upslope_area(
   area.setNoData(dinf_NO_DATA);
 
   bool has_cells_without_flow_directions=false;
+  bool has_invalid_directions=false;
   RDLOG_PROGRESS<<"Calculating dependency matrix & setting noData() cells...";
   progress.start( flowdirs.size() );
 
@@ -142,7 +144,7 @@ void dinf_upslope_area(
   //Calculate the number of "dependencies" each cell has. That is, count the
   //number of cells which flow into each cell.
 
-  #pragma omp parallel for reduction(|:has_cells_without_flow_directions)
+  #pragma omp parallel for reduction(|:has_cells_without_flow_directions,has_invalid_directions)
   for(int y=0;y<flowdirs.height();y++){
     progress.update( y*flowdirs.width() );
     for(int x=0;x<flowdirs.width();x++){
@@ -159,6 +161,12 @@ void dinf_upslope_area(
         continue;
       }
 
+      //Not an angle, so it can't be converted to neighbours. (Catches NaN.)
+      if(!(flowdirs(x,y)>=0 && flowdirs(x,y)<=2*M_PI+1e-6)){
+        has_invalid_directions=true;
+        continue;
+      }
+
       //TODO: More explanation of what's going on here
       int n_high, n_low;
       int nhx,nhy,nlx,nly;
@@ -181,6 +189,9 @@ void dinf_upslope_area(
   }
   RDLOG_TIME_USE<<"Succeeded in = "<<progress.stop()<<" s";
 
+  if(has_invalid_directions)
+    throw std::runtime_error("D-infinity flow directions must be between 0 and 2*Pi!");
+
   if(has_cells_without_flow_directions)
     RDLOG_WARN<<"\033[91mNot all cells had defined flow directions! This implies that there will be digital dams!\033[39m";
 
-- 
2.43.0


From 0e72856d04179fccafa5f222cbe9aa8cc262d49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:31 +0000
Subject: [PATCH 086/117] fix: FlowAccumulation must not follow proportions off
 the grid

Flow from a cell on the edge of the grid was not counted as a dependency, and
if it left the grid it was read and added out of bounds.
---
 include/richdem/methods/flow_accumulation_generic.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/richdem/methods/flow_accumulation_generic.hpp b/include/richdem/methods/flow_accumulation_generic.hpp
index fa7846f..c7783ff 100644
--- a/include/richdem/methods/flow_accumulation_generic.hpp
+++ b/include/richdem/methods/flow_accumulation_generic.hpp
@@ -45,13 +45,13 @@ void FlowAccumulation(const Array3D<float> &props, Array2D<A> &accum){
   //Create dependencies array
   RDLOG_PROGRESS<<"Creating dependencies array..."<<std::endl;
   Array2D<int8_t> deps(props, 0);
-  for(int y=1;y<props.height()-1;y++)
-  for(int x=1;x<props.width()-1;x++){
+  for(int y=0;y<props.height();y++)
+  for(int x=0;x<props.width();x++){
     const int ci = accum.xyToI(x,y);
     if(props.isNoData(ci))
       continue;
     for(int n=1;n<=8;n++)
-      if(props(x,y,n)>0){
+      if(props(x,y,n)>0 && accum.inGrid(x+d8x[n],y+d8y[n])){ //Flow may leave the grid
         const int ni = ci + accum.nshift(n);
         deps(ni)++;
       }
@@ -78,9 +78,14 @@ void FlowAccumulation(const Array3D<float> &props, Array2D<A> &accum){
 
     const auto c_accum = accum(ci);
 
+    int x,y;
+    accum.iToxy(ci,x,y);
+
     for(int n=1;n<=8;n++){
       if(props.getIN(ci,n)<=0) //No Flow in this direction or other flags
         continue;
+      if(!accum.inGrid(x+d8x[n],y+d8y[n])) //Flow leaves the grid
+        continue;
       const int ni = ci+accum.nshift(n);
       if(props.isNoData(ni))
         continue;
-- 
2.43.0


From 30671ce388d6f554bc3d2e074283bf0700596da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:31 +0000
Subject: [PATCH 087/117] fix: FillDepressions must not revisit the outlet
 forever

If rounding leaves water which does not fit, even with every cell in the
depression considered, the outlet was enqueued again and again. The function
now stops with the error it has for this.
---
 include/richdem/depressions/fill_spill_merge.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/richdem/depressions/fill_spill_merge.hpp b/include/richdem/depressions/fill_spill_merge.hpp
index 9465787..4793c9a 100644
--- a/include/richdem/depressions/fill_spill_merge.hpp
+++ b/include/richdem/depressions/fill_spill_merge.hpp
@@ -930,6 +930,11 @@ void FillDepressions(
     //NOTE: if our logic is wrong somewhere adding the cell like this could
     //result in an infinite loop.
     if(flood_q.empty()){
+      //The outlet itself has just been considered with every other cell, so
+      //considering it again can't make more room for the water
+      if(topo.xyToI(c.x,c.y)==out_cell)
+        break;
+
       int x,y;
       topo.iToxy(out_cell, x, y);
       flood_q.emplace(x, y, topo(out_cell));
-- 
2.43.0


From b1e73518ec85f8856f70b538335cad8a02fbbbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:59 +0000
Subject: [PATCH 088/117] fix: tools must exit with the status of the work they
 did

Several programs dropped the value PerformAlgorithm() returned and reported
success for rasters they cannot handle or sizes they refuse.
---
 apps/rd_compare.cpp            | 4 +---
 apps/rd_d8_flowdirs.cpp        | 4 +---
 apps/rd_expand_dimensions.cpp  | 4 +---
 apps/rd_flood_for_flowdirs.cpp | 4 +---
 apps/rd_geotransform.cpp       | 4 +---
 apps/rd_hist.cpp               | 4 +---
 apps/rd_no_data.cpp            | 2 +-
 apps/rd_projection.cpp         | 4 +---
 apps/rd_raster_display.cpp     | 4 +---
 9 files changed, 9 insertions(+), 25 deletions(-)

diff --git a/apps/rd_compare.cpp b/apps/rd_compare.cpp
index 73a6b0a..c45569f 100644
--- a/apps/rd_compare.cpp
+++ b/apps/rd_compare.cpp
@@ -40,7 +40,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2]);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2]);
 }
\ No newline at end of file
diff --git a/apps/rd_d8_flowdirs.cpp b/apps/rd_d8_flowdirs.cpp
index dcfb251..2fb956e 100644
--- a/apps/rd_d8_flowdirs.cpp
+++ b/apps/rd_d8_flowdirs.cpp
@@ -34,7 +34,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2],analysis);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2],analysis);
 }
\ No newline at end of file
diff --git a/apps/rd_expand_dimensions.cpp b/apps/rd_expand_dimensions.cpp
index 4e713a2..1f2459a 100644
--- a/apps/rd_expand_dimensions.cpp
+++ b/apps/rd_expand_dimensions.cpp
@@ -40,7 +40,5 @@ int main(int argc, char **argv){
   int new_width  = std::stoi(argv[3]);
   int new_height = std::stoi(argv[4]);
 
-  PerformAlgorithm(argv[1],argv[2],new_width,new_height,analysis);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2],new_width,new_height,analysis);
 }
\ No newline at end of file
diff --git a/apps/rd_flood_for_flowdirs.cpp b/apps/rd_flood_for_flowdirs.cpp
index e53818e..0beb3d0 100644
--- a/apps/rd_flood_for_flowdirs.cpp
+++ b/apps/rd_flood_for_flowdirs.cpp
@@ -69,7 +69,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2],analysis);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2],analysis);
 }
\ No newline at end of file
diff --git a/apps/rd_geotransform.cpp b/apps/rd_geotransform.cpp
index 3d3a08b..eeab245 100644
--- a/apps/rd_geotransform.cpp
+++ b/apps/rd_geotransform.cpp
@@ -55,7 +55,7 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(
+  return PerformAlgorithm(
     std::string(argv[1]),
     std::string(argv[2]),
     std::string(argv[3]),
@@ -66,6 +66,4 @@ int main(int argc, char **argv){
     std::string(argv[8]),
     analysis
   );
-
-  return 0;
 }
\ No newline at end of file
diff --git a/apps/rd_hist.cpp b/apps/rd_hist.cpp
index 253f332..aa599e7 100644
--- a/apps/rd_hist.cpp
+++ b/apps/rd_hist.cpp
@@ -34,7 +34,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(std::string(argv[1]));
-
-  return 0;
+  return PerformAlgorithm(std::string(argv[1]));
 }
\ No newline at end of file
diff --git a/apps/rd_no_data.cpp b/apps/rd_no_data.cpp
index 56d8f5a..506a91e 100644
--- a/apps/rd_no_data.cpp
+++ b/apps/rd_no_data.cpp
@@ -31,7 +31,7 @@ int main(int argc, char **argv){
     Array2D<int8_t> temp(argv[1],false,0,0,0,0,false,false); //Data type doesn't matter since we're not loading it
     std::cerr<<temp.noData()<<std::endl;
   } else {
-    PerformAlgorithm(std::string(argv[1]),argv[2],argv[3],analysis);
+    return PerformAlgorithm(std::string(argv[1]),argv[2],argv[3],analysis);
   }
 
   return 0;
diff --git a/apps/rd_projection.cpp b/apps/rd_projection.cpp
index 582130b..a8ce70c 100644
--- a/apps/rd_projection.cpp
+++ b/apps/rd_projection.cpp
@@ -36,7 +36,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(std::string(argv[1]),std::string(argv[2]),std::string(argv[3]),analysis);
-
-  return 0;
+  return PerformAlgorithm(std::string(argv[1]),std::string(argv[2]),std::string(argv[3]),analysis);
 }
diff --git a/apps/rd_raster_display.cpp b/apps/rd_raster_display.cpp
index 993376c..0b702a0 100644
--- a/apps/rd_raster_display.cpp
+++ b/apps/rd_raster_display.cpp
@@ -57,7 +57,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2]);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2]);
 }
-- 
2.43.0


From 2058efca080831f5f4bc4b60863cf21d5f7e634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:59 +0000
Subject: [PATCH 089/117] fix: tools must refuse algorithm numbers they do not
 have

rd_flow_accumulation and rd_terrain_property saved a raster which had not been
calculated, and reported success.
---
 apps/rd_flow_accumulation.cpp | 9 ++++++---
 apps/rd_terrain_property.cpp  | 3 +++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/apps/rd_flow_accumulation.cpp b/apps/rd_flow_accumulation.cpp
index c8ee79d..0686c4c 100644
--- a/apps/rd_flow_accumulation.cpp
+++ b/apps/rd_flow_accumulation.cpp
@@ -26,14 +26,17 @@ int PerformAlgorithm(std::string output, int algorithm, float param, std::string
     case 6: //D∞     - Tarboton (1997)
       FA_Tarboton(dem,accum);                           break;
     case 7: //MD∞    - Seibert & McGlynn (2007)
-      std::cerr<<"This FA is temporarily disabled."; break;
+      std::cerr<<"This FA is temporarily disabled."<<std::endl; return -1;
       //FA_SeibertMcGlynn(dem,accum,param);               break;
     case 8: //D8-LTD - Orlandini et al. (2003)
-      std::cerr<<"This FA is temporarily disabled."; break;
+      std::cerr<<"This FA is temporarily disabled."<<std::endl; return -1;
       //FA_Orlandini(dem,accum,OrlandiniMode::LTD,param); break;
     case 9: //D8-LAD - Orlandini et al. (2003)
-      std::cerr<<"This FA is temporarily disabled."; break;
+      std::cerr<<"This FA is temporarily disabled."<<std::endl; return -1;
       //FA_Orlandini(dem,accum,OrlandiniMode::LAD,param); break;
+    default:
+      std::cerr<<"Unknown algorithm!"<<std::endl;
+      return -1;
   }
 
   accum.scale(accum.getCellArea());
diff --git a/apps/rd_terrain_property.cpp b/apps/rd_terrain_property.cpp
index 6c49cb6..41063e9 100644
--- a/apps/rd_terrain_property.cpp
+++ b/apps/rd_terrain_property.cpp
@@ -29,6 +29,9 @@ int PerformAlgorithm(std::string output, int algorithm, float z_scale, std::stri
       TA_planform_curvature(dem,result,z_scale); break;
     case 8: 
       TA_profile_curvature (dem,result,z_scale); break;
+    default:
+      std::cerr<<"Unknown algorithm!"<<std::endl;
+      return -1;
   }
 
   result.saveGDAL(output,analysis);
-- 
2.43.0


From d59242f5779435a21bab8818a2d1952ba5d6a79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:59 +0000
Subject: [PATCH 090/117] fix: rd_compare must not pair the cells of rasters of
 different sizes

The second raster was read out of bounds.
---
 apps/rd_compare.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/rd_compare.cpp b/apps/rd_compare.cpp
index c45569f..adb6ea9 100644
--- a/apps/rd_compare.cpp
+++ b/apps/rd_compare.cpp
@@ -18,6 +18,8 @@ int PerformAlgorithm(Array2D<T> a, Array2D<U> b){
     std::cout<<"Widths differ."<<std::endl;
   if(a.height()!=b.height())
     std::cout<<"Heights differ."<<std::endl;
+  if(a.width()!=b.width() || a.height()!=b.height())
+    return 0; //There are no cells to be paired with each other
 
   uint64_t differs = 0;
   for(uint64_t i=0;i<a.size();i++)
-- 
2.43.0


From e2614be910c1825bc2823b2a92c5fa602e067cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 091/117] fix: rd_no_data must set and show the NoData value
 given

Fractions were cut off, values beyond int refused, and the value was shown as a
single character of an 8-bit type.
---
 apps/rd_no_data.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apps/rd_no_data.cpp b/apps/rd_no_data.cpp
index 506a91e..8be1232 100644
--- a/apps/rd_no_data.cpp
+++ b/apps/rd_no_data.cpp
@@ -1,4 +1,6 @@
+#include <iomanip>
 #include <iostream>
+#include <limits>
 #include <string>
 #include <cstdlib>
 #include <richdem/common/version.hpp>
@@ -8,7 +10,7 @@ using namespace richdem;
 template<class T>
 int PerformAlgorithm(std::string outname, char *nodata, std::string analysis, Array2D<T> inp){
   inp.loadData();
-  inp.setNoData((T)std::stoi(nodata)); //TODO
+  inp.setNoData(NoDataFromGDAL<T>(std::stod(nodata)));
   inp.saveGDAL(outname,analysis);
   return 0;
 }
@@ -28,8 +30,8 @@ int main(int argc, char **argv){
   }
 
   if(argc==2){
-    Array2D<int8_t> temp(argv[1],false,0,0,0,0,false,false); //Data type doesn't matter since we're not loading it
-    std::cerr<<temp.noData()<<std::endl;
+    Array2D<double> temp(argv[1],false,0,0,0,0,false,false); //Data isn't loaded, but the NoData value must fit in the type
+    std::cerr<<std::setprecision(std::numeric_limits<double>::max_digits10)<<temp.noData()<<std::endl;
   } else {
     return PerformAlgorithm(std::string(argv[1]),argv[2],argv[3],analysis);
   }
-- 
2.43.0


From e068b2e9ac8feef86c1ea47aeda41c93447387ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 092/117] fix: rd_hist must show the values of byte rasters as
 numbers

They were printed as characters.
---
 apps/rd_hist.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/rd_hist.cpp b/apps/rd_hist.cpp
index aa599e7..740c498 100644
--- a/apps/rd_hist.cpp
+++ b/apps/rd_hist.cpp
@@ -14,10 +14,10 @@ int PerformAlgorithm(Array2D<T> rast){
   for(unsigned int i=0;i<rast.size();i++)
     counts[rast(i)]++;
 
-  std::cout<<"Nodata: "<<(int)rast.noData()<<std::endl;
+  std::cout<<"Nodata: "<<+rast.noData()<<std::endl;
 
   for(const auto &x: counts)
-    std::cout<<std::setw(20)<<x.first<<" "<<std::setw(20)<<x.second<<"\n";
+    std::cout<<std::setw(20)<<+x.first<<" "<<std::setw(20)<<x.second<<"\n";
 
   return 0;
 }
-- 
2.43.0


From 23442044b3aacfc97595d70e2ea5f5423e733617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 093/117] fix: rd_raster_inspect must not show cells outside
 the raster

Bounds beyond the raster were read from whatever memory lay there.
---
 apps/rd_raster_inspect.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/rd_raster_inspect.cpp b/apps/rd_raster_inspect.cpp
index d990a17..d86b3a0 100644
--- a/apps/rd_raster_inspect.cpp
+++ b/apps/rd_raster_inspect.cpp
@@ -39,6 +39,9 @@ int PerformAlgorithm(int minx, int maxx, int miny, int maxy, bool flipV, bool fl
   if(miny>maxy)
     throw std::runtime_error("MinY must be smaller than MaxY!");
 
+  if(maxx>=inp.width() || maxy>=inp.height())
+    throw std::runtime_error("The area must be within the raster!");
+
   std::cout<<std::setw(fwidth)<<" ";
   for(int x=minx;x<=maxx;x++)
     std::cout<<std::setw(fwidth)<<x;
-- 
2.43.0


From 0e1b96beca88a3e4c15077327b2fef584140c136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 094/117] fix: rd_loop_check must refuse invalid flow
 directions

They were used to index the neighbour offsets out of bounds.
---
 apps/rd_loop_check.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/rd_loop_check.cpp b/apps/rd_loop_check.cpp
index 9f590b9..a3e5825 100644
--- a/apps/rd_loop_check.cpp
+++ b/apps/rd_loop_check.cpp
@@ -29,6 +29,9 @@ void FollowPath(
     if(flowdirs.isNoData(x,y) || n==NO_FLOW)
       return;
 
+    if(n<0 || n>8)
+      throw std::runtime_error("Invalid flow direction '"+std::to_string(n)+"' found!");
+
     const int nx = x+d8x[n]; //Get neighbour's x-coordinate.
     const int ny = y+d8y[n]; //Get neighbour's y-coordinate.
 
-- 
2.43.0


From 3c3b2a192b14126ba3fa3d947f45a715f4c786d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 095/117] fix: rd_depression_hierarchy must keep the
 geotransform of its input

---
 apps/rd_depression_hierarchy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apps/rd_depression_hierarchy.cpp b/apps/rd_depression_hierarchy.cpp
index 4e1d17c..60a3e9c 100644
--- a/apps/rd_depression_hierarchy.cpp
+++ b/apps/rd_depression_hierarchy.cpp
@@ -61,7 +61,8 @@ int main(int argc, char **argv){
     }
   }
 
-  label.projection = topo.projection;
+  label.projection   = topo.projection;
+  label.geotransform = topo.geotransform;
   label.saveGDAL(out_name+"-label.tif");
 
   timer_io.stop();
-- 
2.43.0


From 5578f544c686e722d57e189e4d8a7833059960aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:43 +0000
Subject: [PATCH 096/117] fix: rd_fill_spill_merge must check its water input
 and keep georeferencing

Without --swl and --swf it worked on NaN water, with a surface water raster of
other dimensions it read out of bounds, and with --swl its results lost the
geotransform and projection of the topography.
---
 apps/rd_fill_spill_merge.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/apps/rd_fill_spill_merge.cpp b/apps/rd_fill_spill_merge.cpp
index de67af6..2c6f197 100644
--- a/apps/rd_fill_spill_merge.cpp
+++ b/apps/rd_fill_spill_merge.cpp
@@ -4,6 +4,7 @@
 #include <richdem/misc/misc_methods.hpp>
 #include <richdem/ui/cli_options.hpp>
 
+#include <cmath>
 #include <iostream>
 #include <string>
 #include <stdexcept>
@@ -30,6 +31,11 @@ int main(int argc, char **argv){
 
   CLI11_PARSE(app, argc, argv);
 
+  if(surface_water_filename.empty() && std::isnan(surface_water_level)){
+    std::cerr<<"Either --swl or --swf is required."<<std::endl;
+    return -1;
+  }
+
   std::cout<<"m Input DEM           = "<<topography_filename   <<std::endl;
   std::cout<<"m Output prefix       = "<<output_prefix         <<std::endl;
   std::cout<<"m Surface water level = "<<surface_water_level   <<std::endl;
@@ -49,9 +55,11 @@ int main(int argc, char **argv){
   rd::Array2D<double> wtd;
   if(surface_water_filename.empty()){
     //All cells have the same amount of water
-    wtd.resize(topo.width(), topo.height(), surface_water_level);
+    wtd.resize(topo, surface_water_level); //Keeps georeferencing
   } else {
     wtd = rd::Array2D<double>(surface_water_filename);
+    if(wtd.width()!=topo.width() || wtd.height()!=topo.height())
+      throw std::runtime_error("The surface water raster must have the same dimensions as the topography!");
   }
 
   rd::Array2D<dh::dh_label_t> label   (topo.width(), topo.height(), dh::NO_DEP );      //No cells are part of a depression
-- 
2.43.0


From 51e3151f0214c950b3640984513c96257f8f40d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:51 +0000
Subject: [PATCH 097/117] fix: rd_depressions_breach must not overflow the
 maximum depth

A depth beyond the range of the raster's data type, such as the documented Inf,
was converted to a value of that type without meaning.
---
 apps/rd_depressions_breach.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apps/rd_depressions_breach.cpp b/apps/rd_depressions_breach.cpp
index 6fa8e59..cbee582 100644
--- a/apps/rd_depressions_breach.cpp
+++ b/apps/rd_depressions_breach.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <limits>
 #include <string>
 #include <cstdlib>
 #include <richdem/common/version.hpp>
@@ -20,6 +21,10 @@ int PerformAlgorithm(
 ){
   elevation.loadData();
 
+  //Depths beyond the data type's range don't limit anything
+  if(max_depth>static_cast<double>(std::numeric_limits<T>::max()))
+    max_depth = std::numeric_limits<T>::max();
+
   Lindsay2016(elevation, mode, eps_gradients, fill_depressions, max_path_len, (T)max_depth);
 
   elevation.saveGDAL(outputname,analysis);
-- 
2.43.0


From 4874848cd4b1aeb8ba7304a8defd5df2eb2dc0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:08 +0000
Subject: [PATCH 098/117] fix: saveGDAL must notice that the end of its file
 could not be written

GDAL buffers the last of the data until the file is closed, and does not report
it if that can't be written, so that a full disk left a truncated file and
reported success.
---
 include/richdem/common/Array2D.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 7671e92..370e909 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -1246,6 +1246,19 @@ class Array2D {
     GDALClose(fout);
     if(CPLGetLastErrorType()>=CE_Failure)
       throw std::runtime_error("Error writing file with saveGDAL()!");
+
+    //GDAL can fail to write the last of the data without reporting it (if the
+    //disk is full, for instance), so make sure that the end of it arrived
+    if(view_width>0 && view_height>0){
+      std::vector<char> last_row(view_width*sizeof(T));
+      GDALDataset *fcheck = (GDALDataset*)GDALOpen(input_filename.c_str(), GA_ReadOnly);
+      if(fcheck==NULL)
+        throw std::runtime_error("Error writing file with saveGDAL()!");
+      const auto read = fcheck->GetRasterBand(1)->RasterIO(GF_Read, 0, view_height-1, view_width, 1, last_row.data(), view_width, 1, myGDALType(), 0, 0);
+      GDALClose(fcheck);
+      if(read!=CE_None)
+        throw std::runtime_error("Error writing file with saveGDAL()!");
+    }
   }
   #endif
 
-- 
2.43.0


From 579566aa02eff60d50324c7eb1d964e3dff0b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:36 +0000
Subject: [PATCH 099/117] fix: files which cannot be read must be reported and
 closed

A file without raster layers crashed every loader, and a file whose reading
failed stayed open.
---
 include/richdem/common/Array2D.hpp  | 24 +++++++++---------------
 include/richdem/common/gdal.hpp     | 26 +++++++++++++++++++++-----
 include/richdem/common/loaders.hpp  | 12 ++++--------
 include/richdem/tiled/A2Array2D.hpp | 11 +++--------
 src/gdal.cpp                        | 19 ++++++-------------
 5 files changed, 43 insertions(+), 49 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 370e909..159bd72 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -139,8 +139,8 @@ class Array2D {
 
     RDLOG_PROGRESS<<"Trying to open file '"<<filename<<"'...";
 
-    GDALDataset *fin = (GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly);
-    if(fin==NULL)
+    GDALDatasetUniquePtr fin((GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly));
+    if(!fin)
       throw std::runtime_error("Could not open file '"+filename+"' with GDAL!");
 
     geotransform.resize(6);
@@ -154,21 +154,17 @@ class Array2D {
     const char* projection_string=fin->GetProjectionRef();
     projection = std::string(projection_string);
 
-    GDALRasterBand *band = fin->GetRasterBand(1);
+    GDALRasterBand *band = FirstGDALBand(*fin, filename);
 
     xy_t total_width  = band->GetXSize();         //Returns an int
     xy_t total_height = band->GetYSize();         //Returns an int
     no_data           = NoDataFromGDAL<T>(band->GetNoDataValue());
 
-    if(exact && (total_width-xOffset!=part_width || total_height-yOffset!=part_height)){
-      GDALClose(fin);
+    if(exact && (total_width-xOffset!=part_width || total_height-yOffset!=part_height))
       throw std::runtime_error("Tile dimensions did not match expectations!");
-    }
 
-    if(xOffset<0 || yOffset<0 || part_width<0 || part_height<0 || xOffset>=total_width || yOffset>=total_height){
-      GDALClose(fin);
+    if(xOffset<0 || yOffset<0 || part_width<0 || part_height<0 || xOffset>=total_width || yOffset>=total_height)
       throw std::runtime_error("The part of '"+filename+"' to be read lies outside of it!");
-    }
 
     //A size of zero means everything from the offset on. Parts are clipped at
     //the raster's right and bottom edges.
@@ -183,7 +179,7 @@ class Array2D {
     view_xoff = xOffset;
     view_yoff = yOffset;
 
-    GDALClose(fin);
+    fin.reset();
 
     if(load_data)
       loadData();
@@ -506,18 +502,16 @@ class Array2D {
       loadNative(filename, true);
     } else {
       #ifdef USEGDAL
-      GDALDataset *fin = (GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly);
-        if(fin==NULL)
+      const GDALDatasetUniquePtr fin((GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly));
+        if(!fin)
           throw std::runtime_error("Failed to loadData() into tile from '"+filename+"'");
 
-      GDALRasterBand *band = fin->GetRasterBand(1);
+      GDALRasterBand *band = FirstGDALBand(*fin, filename);
 
       resize(view_width,view_height);
       auto temp = band->RasterIO( GF_Read, view_xoff, view_yoff, view_width, view_height, _data.data(), view_width, view_height, myGDALType(), 0, 0 );
       if(temp!=CE_None)
         throw std::runtime_error("An error occured while trying to read '"+filename+"' into RAM with GDAL.");
-
-      GDALClose(fin);
       #else
         throw std::runtime_error("RichDEM was not compiled with GDAL!");
       #endif
diff --git a/include/richdem/common/gdal.hpp b/include/richdem/common/gdal.hpp
index 8252e59..5e44407 100644
--- a/include/richdem/common/gdal.hpp
+++ b/include/richdem/common/gdal.hpp
@@ -6,10 +6,28 @@
 #include <cmath>
 #include <iostream>
 #include <limits>
+#include <stdexcept>
+#include <string>
 #include <typeinfo>
 
 namespace richdem {
 
+/**
+  @brief  Retrieve the first layer of an open GDAL file. Throws if it has none.
+  @author Richard Barnes (rbarnes@umn.edu)
+
+  @param[in]  fin        Open file
+  @param[in]  filename   Name of the file
+*/
+inline GDALRasterBand* FirstGDALBand(GDALDataset &fin, const std::string &filename){
+  GDALRasterBand *const band = fin.GetRasterBand(1);
+  if(band==nullptr)
+    throw std::runtime_error("File '"+filename+"' has no raster layer!");
+  return band;
+}
+
+
+
 /**
   @brief  Determine data type of a GDAL file's first layer
   @author Richard Barnes (rbarnes@umn.edu)
@@ -65,19 +83,17 @@ void getGDALHeader(
   double  geotransform[6]
 ){
   GDALAllRegister();
-  GDALDataset *fin = (GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly);
-  if(fin==NULL)
+  const GDALDatasetUniquePtr fin((GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly));
+  if(!fin)
     throw std::runtime_error("Could not get GDAL header: file '" + filename + "'' did not open!");
 
-  GDALRasterBand *band   = fin->GetRasterBand(1);
+  GDALRasterBand *band   = FirstGDALBand(*fin, filename);
 
   height  = band->GetYSize();
   no_data = NoDataFromGDAL<T>(band->GetNoDataValue());
   width   = band->GetXSize();
 
   fin->GetGeoTransform(geotransform);
-
-  GDALClose(fin);
 }
 
 
diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index eb47b6c..ae0e0af 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -21,8 +21,8 @@ void LoadGDAL(
   arr.clear();
   arr.filename = filename;
 
-  GDALDataset *fin = (GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly);
-  if(fin==NULL)
+  const GDALDatasetUniquePtr fin((GDALDataset*)GDALOpen(filename.c_str(), GA_ReadOnly));
+  if(!fin)
     throw std::runtime_error("Could not open file '"+filename+"' with GDAL!");
 
   arr.geotransform.resize(6);
@@ -35,16 +35,14 @@ void LoadGDAL(
   const char* projection_string=fin->GetProjectionRef();
   arr.projection = std::string(projection_string);
 
-  GDALRasterBand *band = fin->GetRasterBand(1);
+  GDALRasterBand *band = FirstGDALBand(*fin, filename);
 
   uint64_t total_width  = band->GetXSize();         //Returns an int
   uint64_t total_height = band->GetYSize();         //Returns an int
   arr.setNoData(NoDataFromGDAL<T>(band->GetNoDataValue()));
 
-  if(xOffset>=total_width || yOffset>=total_height){
-    GDALClose(fin);
+  if(xOffset>=total_width || yOffset>=total_height)
     throw std::runtime_error("The part of '"+filename+"' to be read lies outside of it!");
-  }
 
   //Ensure that the block we're grabbing doesn't extend outside the data. A size
   //of zero means everything from the offset on.
@@ -86,8 +84,6 @@ void LoadGDAL(
   //   }
   // }
 
-  GDALClose(fin);
-
   //TODO
   // if(exact && (total_width-xOffset!=part_width || total_height-yOffset!=part_height))
     // throw std::runtime_error("Tile dimensions did not match expectations!");
diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 5827603..c6ef90a 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -24,16 +24,11 @@ GDALDataType peekLayoutType(const std::string &layout_filename) {
 
     GDALAllRegister();
     std::string tile_path = lf.getPath()+lf.getFilename();
-    GDALDataset *fin = (GDALDataset*)GDALOpen(tile_path.c_str(), GA_ReadOnly);
-    if(fin==NULL)
+    const GDALDatasetUniquePtr fin((GDALDataset*)GDALOpen(tile_path.c_str(), GA_ReadOnly));
+    if(!fin)
       throw std::runtime_error("Could not open '"+(lf.getPath()+lf.getFilename())+"' to determine layout type.");
 
-    GDALRasterBand *band   = fin->GetRasterBand(1);
-    GDALDataType data_type = band->GetRasterDataType();
-
-    GDALClose(fin);
-
-    return data_type;
+    return FirstGDALBand(*fin, tile_path)->GetRasterDataType();
   }
 
   throw std::runtime_error("Empty layout file!");
diff --git a/src/gdal.cpp b/src/gdal.cpp
index e58a601..fb0c1db 100644
--- a/src/gdal.cpp
+++ b/src/gdal.cpp
@@ -6,17 +6,12 @@ namespace richdem {
 
 GDALDataType peekGDALType(const std::string &filename){
   GDALAllRegister();
-  auto *const fin = static_cast<GDALDataset*>(GDALOpen(filename.c_str(), GA_ReadOnly));
-  if(fin==nullptr){
+  const GDALDatasetUniquePtr fin(static_cast<GDALDataset*>(GDALOpen(filename.c_str(), GA_ReadOnly)));
+  if(!fin){
     throw std::runtime_error("Unable to open file '"+filename+"'!");
   }
 
-  GDALRasterBand *band   = fin->GetRasterBand(1);
-  GDALDataType data_type = band->GetRasterDataType();
-
-  GDALClose(fin);
-
-  return data_type;
+  return FirstGDALBand(*fin, filename)->GetRasterDataType();
 }
 
 void getGDALDimensions(
@@ -27,12 +22,12 @@ void getGDALDimensions(
   double geotransform[6]
 ){
   GDALAllRegister();
-  auto *const fin = static_cast<GDALDataset*>(GDALOpen(filename.c_str(), GA_ReadOnly));
-  if(fin==nullptr){
+  const GDALDatasetUniquePtr fin(static_cast<GDALDataset*>(GDALOpen(filename.c_str(), GA_ReadOnly)));
+  if(!fin){
     throw std::runtime_error("Could not open file '"+filename+"' to get dimensions.");
   }
 
-  GDALRasterBand *band = fin->GetRasterBand(1);
+  GDALRasterBand *band = FirstGDALBand(*fin, filename);
 
   dtype = band->GetRasterDataType();
 
@@ -42,8 +37,6 @@ void getGDALDimensions(
 
   height  = band->GetYSize();
   width   = band->GetXSize();
-
-  GDALClose(fin);
 }
 
 }
-- 
2.43.0


From d4ab4dc2ecbbd269e3eb982f993de5278e3c8a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:36 +0000
Subject: [PATCH 100/117] fix: a raster must not count as loaded when reading
 its file failed

---
 include/richdem/common/Array2D.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 159bd72..2c39f5e 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -510,8 +510,10 @@ class Array2D {
 
       resize(view_width,view_height);
       auto temp = band->RasterIO( GF_Read, view_xoff, view_yoff, view_width, view_height, _data.data(), view_width, view_height, myGDALType(), 0, 0 );
-      if(temp!=CE_None)
+      if(temp!=CE_None){
+        clear(); //What was read is incomplete
         throw std::runtime_error("An error occured while trying to read '"+filename+"' into RAM with GDAL.");
+      }
       #else
         throw std::runtime_error("RichDEM was not compiled with GDAL!");
       #endif
-- 
2.43.0


From 85af7ddcc3d636a453b839b4711f20fb88a3dc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:36 +0000
Subject: [PATCH 101/117] fix: rasters too large for cell indices must be
 refused

---
 include/richdem/common/Array2D.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 2c39f5e..27a1764 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -901,6 +901,8 @@ class Array2D {
     assert(width0>=0);
     assert(height0>=0);
     assert(width0<=std::numeric_limits<xy_t>::max()-2);
+    if((uint64_t)width0*(uint64_t)height0>=NO_I)
+      throw std::runtime_error("Rasters cannot have more than 2^32-2 cells!");
     _data.resize((uint64_t)width0*(uint64_t)height0);
 
     _nshift     = {{0,-1,-width0-1,-width0,-width0+1,1,width0+1,width0,width0-1}};
-- 
2.43.0


From 6c5a9b251da50ccb539bc47b023c2fd68595f514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:36 +0000
Subject: [PATCH 102/117] fix: sizes of tiled rasters must not overflow

---
 include/richdem/tiled/A2Array2D.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index c6ef90a..c0383d8 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -46,7 +46,10 @@ int peekLayoutTileSize(const std::string &layout_filename) {
     int width;
     GDALDataType dtype;
     getGDALDimensions(lf.getPath()+lf.getFilename(),height,width,dtype,NULL);
-    return width*height;
+    const auto tile_size = (int64_t)width*(int64_t)height;
+    if(tile_size>std::numeric_limits<int>::max())
+      throw std::runtime_error("The tiles of '"+layout_filename+"' are too large!");
+    return tile_size;
   }
 
   throw std::runtime_error("Empty layout file!");
@@ -188,7 +191,7 @@ class A2Array2D {
       per_tile_height = std::max(per_tile_height,this_tile.height());
       per_tile_width  = std::max(per_tile_width, this_tile.width() );
 
-      cells_in_not_null_tiles += per_tile_width*per_tile_height;
+      cells_in_not_null_tiles += (int64_t)per_tile_width*(int64_t)per_tile_height;
 
       this_tile.basename = lf.getBasename();
     }
@@ -213,8 +216,8 @@ class A2Array2D {
       }
     }
 
-    total_width_in_cells  = widthInTiles()*stdTileWidth();
-    total_height_in_cells = heightInTiles()*stdTileHeight();
+    total_width_in_cells  = (int64_t)widthInTiles()*(int64_t)stdTileWidth();
+    total_height_in_cells = (int64_t)heightInTiles()*(int64_t)stdTileHeight();
 
     if(!good)
       throw std::runtime_error("Not all tiles had the same dimensions!");
@@ -234,8 +237,8 @@ class A2Array2D {
     this->per_tile_width  = per_tile_width;
     this->per_tile_height = per_tile_height;
 
-    this->total_width_in_cells  = per_tile_width*width;
-    this->total_height_in_cells = per_tile_height*height;
+    this->total_width_in_cells  = (int64_t)per_tile_width*(int64_t)width;
+    this->total_height_in_cells = (int64_t)per_tile_height*(int64_t)height;
 
     not_null_tiles        = width*height;
     quick_width_in_tiles  = width;
-- 
2.43.0


From 4ecf7a7cab7511e23d77e808410d9910f4a98ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 103/117] fix: views, transposes and other arrays with gaps
 were used after they were freed

---
 wrappers/pyrichdem/richdem/__init__.py | 30 +++++++++++++++++++++++---
 wrappers/pyrichdem/src/pywrapper.cpp   | 16 ++++++--------
 wrappers/pyrichdem/src/pywrapper.hpp   | 16 ++++++--------
 3 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index fca3ddd..631bbef 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -48,6 +48,20 @@ def _AddAnalysis(rda: "rdarray", analysis: str) -> None:
     rda.metadata["PROCESSING_HISTORY"] += metastr
 
 
+def _Contiguous(rda: Union["rdarray", "rd3array"]) -> np.ndarray:
+    """The array as RichDEM's engine needs it: in row-major order without gaps.
+
+    This shares the array's memory if it has that layout, and is a copy if not.
+    """
+    return np.require(rda, requirements=["C_CONTIGUOUS", "ALIGNED"])
+
+
+def _CopyBack(rda: Union["rdarray", "rd3array"], wrapped) -> None:
+    """Brings what the engine wrote back if it worked on a copy of the array."""
+    if not np.shares_memory(rda, wrapped.source):
+        rda[...] = wrapped.source
+
+
 def rdShow(
     rda: "rdarray",
     ignore_colours=[],
@@ -199,7 +213,9 @@ class rdarray(np.ndarray):
         if dtype not in richdem_arrs:
             raise Exception(f"No equivalent RichDEM datatype to '{dtype}'.")
 
-        rda = richdem_arrs[dtype](self)
+        source = _Contiguous(self)
+        rda = richdem_arrs[dtype](source)
+        rda.source = source
 
         if self.no_data is None:
             print("Warning! no_data was None. Setting it to -9999!")
@@ -218,6 +234,7 @@ class rdarray(np.ndarray):
         return rda
 
     def copyFromWrapped(self, wrapped):
+        _CopyBack(self, wrapped)
         self.no_data = wrapped.noData()
         # print("IS IT IN",("PROCESSING_HISTORY" in wrapped.metadata))
         # self.metadata += "\n"+wrapped.metadata["PROCESSING_HISTORY"].replace("\n","\t\n")
@@ -255,7 +272,9 @@ class rd3array(np.ndarray):
         if dtype not in richdem_arrs:
             raise Exception("No equivalent RichDEM datatype.")
 
-        rda = richdem_arrs[dtype](self)
+        source = _Contiguous(self)
+        rda = richdem_arrs[dtype](source)
+        rda.source = source
 
         if self.no_data is None:
             print("Warning! no_data was None. Setting it to -9999!")
@@ -274,6 +293,7 @@ class rd3array(np.ndarray):
         return rda
 
     def copyFromWrapped(self, wrapped):
+        _CopyBack(self, wrapped)
         self.no_data = wrapped.noData()
         # print("IS IT IN",("PROCESSING_HISTORY" in wrapped.metadata))
         # self.metadata += "\n"+wrapped.metadata["PROCESSING_HISTORY"].replace("\n","\t\n")
@@ -841,6 +861,8 @@ def get_depression_hierarchy(dem: rdarray, labels: rdarray) -> Tuple[List[depres
 
     dhret = depression_hierarchy.get_depression_hierarchy(demw, labelsw, flowdirsw)
 
+    _CopyBack(labels, labelsw)
+
     return dhret, flowdirs
 
 def get_new_depression_hierarchy_labels(shape: Tuple[int, int], no_data: float = -9999, geotransform: Optional[np.ndarray] = None) -> rdarray:
@@ -899,4 +921,6 @@ def fill_spill_merge(dem: rdarray, labels: rdarray, flowdirs: rdarray, deps: Lis
     flowdirsw = flowdirs.wrap()
     wtdw = wtd.wrap()
 
-    dhret = depression_hierarchy.fill_spill_merge(demw, labelsw, flowdirsw, deps, wtdw)
+    depression_hierarchy.fill_spill_merge(demw, labelsw, flowdirsw, deps, wtdw)
+
+    _CopyBack(wtd, wtdw)
diff --git a/wrappers/pyrichdem/src/pywrapper.cpp b/wrappers/pyrichdem/src/pywrapper.cpp
index 07793b7..0fe62c0 100644
--- a/wrappers/pyrichdem/src/pywrapper.cpp
+++ b/wrappers/pyrichdem/src/pywrapper.cpp
@@ -64,24 +64,22 @@ PYBIND11_MODULE(_richdem, m) {
       // .def(py::init<const Array2D<uint32_t>&, T>())
       // .def(py::init<const Array2D<uint64_t>&, T>())
 
-      //NOTE: This does not do reference counting. For that we would want
-      //py::object and a wrapped derived class of Array2D
+      //NOTE: The RichDEM object uses the array's memory and keeps the array
+      //alive. An array which would have to be converted first is refused: the
+      //converted copy would not outlive this function.
       .def(py::init([](py::handle src){
-        // if(!py::array_t<T>::check_(src)) //TODO: What's this about?
-          // return false;
+        if(!py::array_t<float, py::array::c_style>::check_(src))
+          throw std::runtime_error("Array must be a C-contiguous array of the RichDEM object's type!");
 
-        auto buf = py::array_t<float, py::array::c_style | py::array::forcecast>::ensure(src);
-        if (!buf)
-          throw std::runtime_error("Unable to convert array to RichDEM object!");
+        const auto buf = py::reinterpret_borrow<py::array_t<float, py::array::c_style>>(src);
 
-        //TODO: CHeck stride
         auto dims = buf.ndim();
         if (dims != 3 )
           throw std::runtime_error("Array must have three dimensions!");
 
         //Array comes to us in (y,x,z) form
         return new Array3D<float>((float*)buf.data(), buf.shape()[1], buf.shape()[0]);
-      }))
+      }), py::keep_alive<1,2>())
 
       .def("size",      &Array3D<float>::size)
       .def("width",     &Array3D<float>::width)
diff --git a/wrappers/pyrichdem/src/pywrapper.hpp b/wrappers/pyrichdem/src/pywrapper.hpp
index c6419ef..189d01b 100644
--- a/wrappers/pyrichdem/src/pywrapper.hpp
+++ b/wrappers/pyrichdem/src/pywrapper.hpp
@@ -104,23 +104,21 @@ void TemplatedArrayWrapper(pybind11::module &m, std::string tname){
       // .def(py::init<const Array2D<uint32_t>&, T>())
       // .def(py::init<const Array2D<uint64_t>&, T>())
 
-      //NOTE: This does not do reference counting. For that we would want
-      //py::object and a wrapped derived class of Array2D
+      //NOTE: The RichDEM object uses the array's memory and keeps the array
+      //alive. An array which would have to be converted first is refused: the
+      //converted copy would not outlive this function.
       .def(py::init([](py::handle src){
-        // if(!py::array_t<T>::check_(src)) //TODO: What's this about?
-          // return false;
+        if(!py::array_t<T, py::array::c_style>::check_(src))
+          throw std::runtime_error("Array must be a C-contiguous array of the RichDEM object's type!");
 
-        auto buf = py::array_t<T, py::array::c_style | py::array::forcecast>::ensure(src);
-        if (!buf)
-          throw std::runtime_error("Unable to convert array to RichDEM object!");
+        const auto buf = py::reinterpret_borrow<py::array_t<T, py::array::c_style>>(src);
 
-        //TODO: CHeck stride
         auto dims = buf.ndim();
         if (dims != 2 )
           throw std::runtime_error("Array must have two dimensions!");
 
         return new Array2D<T>((T*)buf.data(), buf.shape()[1], buf.shape()[0]);
-      }))
+      }), py::keep_alive<1,2>())
 
       .def("size",      &Array2D<T>::size)
       .def("width",     &Array2D<T>::width)
-- 
2.43.0


From a0a24998b2348500625c86e08ce232f468d73bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 104/117] fix: arrays which numpy marks as read-only were
 modified in place

---
 wrappers/pyrichdem/richdem/__init__.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 631bbef..369bbbd 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -56,6 +56,11 @@ def _Contiguous(rda: Union["rdarray", "rd3array"]) -> np.ndarray:
     return np.require(rda, requirements=["C_CONTIGUOUS", "ALIGNED"])
 
 
+def _RequireWritable(rda: np.ndarray, name: str) -> None:
+    if not rda.flags.writeable:
+        raise ValueError(f"`{name}` is read-only: it cannot be modified in place!")
+
+
 def _CopyBack(rda: Union["rdarray", "rd3array"], wrapped) -> None:
     """Brings what the engine wrote back if it worked on a copy of the array."""
     if not np.shares_memory(rda, wrapped.source):
@@ -420,6 +425,7 @@ def FillDepressions(dem: rdarray, epsilon: bool = False, in_place: bool = False,
 
     if not in_place:
         dem = dem.copy()
+    _RequireWritable(dem, "dem")
 
     _AddAnalysis(dem, f"FillDepressions(dem, epsilon={epsilon})")
 
@@ -462,6 +468,7 @@ def BreachDepressions(dem: rdarray, in_place: bool = False, topology: str = "D8"
 
     if not in_place:
         dem = dem.copy()
+    _RequireWritable(dem, "dem")
 
     _AddAnalysis(dem, "BreachDepressions(dem)")
 
@@ -494,6 +501,7 @@ def ResolveFlats(dem: rdarray, in_place: bool = False) -> Optional[rdarray]:
 
     if not in_place:
         dem = dem.copy()
+    _RequireWritable(dem, "dem")
 
     _AddAnalysis(dem, f"ResolveFlats(dem, in_place={in_place})")
 
@@ -584,6 +592,7 @@ def FlowAccumulation(dem: rdarray, method: Optional[str] = None, exponent: Optio
 
     if accum.dtype != "float64":
         raise Exception("Accumulation array must be of type 'float64'!")
+    _RequireWritable(accum, "weights")
 
     accumw = accum.wrap()
 
@@ -650,6 +659,7 @@ def FlowAccumFromProps(props: rdarray, weights: Optional[rdarray] = None, in_pla
 
     if accum.dtype != "float64":
         raise Exception("Accumulation array must be of type 'float64'!")
+    _RequireWritable(accum, "weights")
 
     accumw = accum.wrap()
 
@@ -853,6 +863,8 @@ def get_depression_hierarchy(dem: rdarray, labels: rdarray) -> Tuple[List[depres
     if type(dem) is not rdarray:
         raise Exception("A richdem.rdarray or numpy.ndarray is required!")
 
+    _RequireWritable(labels, "labels")
+
     demw = dem.wrap()
     labelsw = labels.wrap()
 
@@ -916,6 +928,8 @@ def fill_spill_merge(dem: rdarray, labels: rdarray, flowdirs: rdarray, deps: Lis
     if type(wtd) is not rdarray:
         raise Exception("A richdem.rdarray or numpy.ndarray is required for the argument `wtd`!")
 
+    _RequireWritable(wtd, "wtd")
+
     demw = dem.wrap()
     labelsw = labels.wrap()
     flowdirsw = flowdirs.wrap()
-- 
2.43.0


From 71d0553635bb32982ca46f26660779d6745a92f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 105/117] fix: a double-precision NoData value was rounded to
 single precision on its way from Python

---
 wrappers/pyrichdem/src/pywrapper.cpp | 1 -
 wrappers/pyrichdem/src/pywrapper.hpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/wrappers/pyrichdem/src/pywrapper.cpp b/wrappers/pyrichdem/src/pywrapper.cpp
index 0fe62c0..46dc1ed 100644
--- a/wrappers/pyrichdem/src/pywrapper.cpp
+++ b/wrappers/pyrichdem/src/pywrapper.cpp
@@ -88,7 +88,6 @@ PYBIND11_MODULE(_richdem, m) {
       .def("noData",    &Array3D<float>::noData)
 
       //TODO: Simplify by casting to double in Python
-      .def("setNoData", [](Array3D<float> &a, const float    ndval){ a.setNoData((float)ndval); })
       .def("setNoData", [](Array3D<float> &a, const double   ndval){ a.setNoData((float)ndval); })
       .def("setNoData", [](Array3D<float> &a, const int8_t   ndval){ a.setNoData((float)ndval); })
       .def("setNoData", [](Array3D<float> &a, const int16_t  ndval){ a.setNoData((float)ndval); })
diff --git a/wrappers/pyrichdem/src/pywrapper.hpp b/wrappers/pyrichdem/src/pywrapper.hpp
index 189d01b..873b7dd 100644
--- a/wrappers/pyrichdem/src/pywrapper.hpp
+++ b/wrappers/pyrichdem/src/pywrapper.hpp
@@ -129,7 +129,6 @@ void TemplatedArrayWrapper(pybind11::module &m, std::string tname){
       .def("max",       &Array2D<T>::max)
 
       //TODO: Simplify by casting to double in Python
-      .def("setNoData", [](Array2D<T> &a, const float    ndval){ a.setNoData((T)ndval); })
       .def("setNoData", [](Array2D<T> &a, const double   ndval){ a.setNoData((T)ndval); })
       .def("setNoData", [](Array2D<T> &a, const int8_t   ndval){ a.setNoData((T)ndval); })
       .def("setNoData", [](Array2D<T> &a, const int16_t  ndval){ a.setNoData((T)ndval); })
-- 
2.43.0


From db771f57a5f0b121435c833fe49bf75d13e2acab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 106/117] fix: flow accumulation without in_place modified the
 caller's weights

---
 wrappers/pyrichdem/richdem/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 369bbbd..733e5c3 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -63,7 +63,7 @@ def _RequireWritable(rda: np.ndarray, name: str) -> None:
 
 def _CopyBack(rda: Union["rdarray", "rd3array"], wrapped) -> None:
     """Brings what the engine wrote back if it worked on a copy of the array."""
-    if not np.shares_memory(rda, wrapped.source):
+    if not np.may_share_memory(rda, wrapped.source):
         rda[...] = wrapped.source
 
 
@@ -175,7 +175,10 @@ class rdarray(np.ndarray):
     def __new__(
         cls, array, meta_obj=None, no_data: Optional[Union[float, int]]=None, dtype=None, order=None, geotransform: Optional[Iterable[float]]=None, **kwargs: Any
     ) -> "rdarray":
-        obj = np.asarray(array, dtype=dtype, order=order).view(cls)
+        if kwargs.get("copy", False):
+            obj = np.array(array, dtype=dtype, order=order, copy=True).view(cls)
+        else:
+            obj = np.asarray(array, dtype=dtype, order=order).view(cls)
 
         if meta_obj is not None:
             obj.metadata = copy.deepcopy(getattr(meta_obj, "metadata", dict()))
-- 
2.43.0


From 1e25fb0dafe9f8d7bb986d87a123261943f84fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 107/117] fix: arrays made from another array's metadata could
 not take its NoData value

---
 wrappers/pyrichdem/richdem/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 733e5c3..afd93b2 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -191,7 +191,7 @@ class rdarray(np.ndarray):
         if no_data is not None:
             obj.no_data = no_data
 
-        if no_data is None:
+        if obj.no_data is None:
             raise Exception("A no_data value must be specified!")
 
         return obj
@@ -261,7 +261,7 @@ class rd3array(np.ndarray):
         if no_data is not None:
             obj.no_data = no_data
 
-        if no_data is None:
+        if obj.no_data is None:
             raise Exception("A no_data value must be specified!")
 
         return obj
-- 
2.43.0


From 3b19b827dd8063d3d997885825aeff35ba8259c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 108/117] fix: flow proportions of arrays whose geotransform is
 a numpy array could not be used

---
 wrappers/pyrichdem/richdem/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index afd93b2..9e04c4d 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -290,7 +290,7 @@ class rd3array(np.ndarray):
         else:
             rda.setNoData(self.no_data)
 
-        if self.geotransform:
+        if self.geotransform is not None:
             rda.geotransform = np.array(self.geotransform, dtype="float64")
         else:
             print(
-- 
2.43.0


From 5d1dd295fea2c8d951a1c2d586962e79a89813d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 109/117] fix: SaveGDAL stored every raster as single-precision
 numbers

---
 wrappers/pyrichdem/richdem/__init__.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 9e04c4d..343c7d9 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -14,7 +14,7 @@ except ImportError as e:
 from _richdem import depression_hierarchy
 
 try:
-    from osgeo import gdal
+    from osgeo import gdal, gdal_array
 
     gdal.UseExceptions()
     GDAL_AVAILABLE = True
@@ -335,6 +335,10 @@ def LoadGDAL(filename: str, no_data: Optional[float] = None) -> rdarray:
         gdal.GDT_Float32,
         gdal.GDT_Float64,
     }
+    # Only newer versions of GDAL have these
+    for type_name in ("GDT_Int8", "GDT_Int64", "GDT_UInt64"):
+        if hasattr(gdal, type_name):
+            allowed_types.add(getattr(gdal, type_name))
 
     # Read in data
     src_ds = gdal.Open(filename)
@@ -392,12 +396,16 @@ def SaveGDAL(filename: str, rda: rdarray) -> None:
     if not GDAL_AVAILABLE:
         raise Exception("richdem.SaveGDAL() requires GDAL.")
 
+    data_type = gdal_array.NumericTypeCodeToGDALTypeCode(rda.dtype.type)
+    if data_type is None:
+        raise Exception(f"GDAL has no equivalent of the datatype '{rda.dtype}'.")
+
     driver = gdal.GetDriverByName("GTiff")
-    data_type = gdal.GDT_Float32  # TODO
     data_set = driver.Create(
         filename, xsize=rda.shape[1], ysize=rda.shape[0], bands=1, eType=data_type
     )
-    data_set.SetGeoTransform(rda.geotransform)
+    if rda.geotransform is not None:
+        data_set.SetGeoTransform([float(x) for x in rda.geotransform])
     data_set.SetProjection(rda.projection)
     band = data_set.GetRasterBand(1)
     band.SetNoDataValue(rda.no_data)
-- 
2.43.0


From bc9b80f0d5f773933eda33bb75dcec6aae682af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 110/117] fix: the hierarchy's flow directions lost the
 georeferencing of their DEM

---
 wrappers/pyrichdem/richdem/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 343c7d9..360d29f 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -879,7 +879,7 @@ def get_depression_hierarchy(dem: rdarray, labels: rdarray) -> Tuple[List[depres
     demw = dem.wrap()
     labelsw = labels.wrap()
 
-    flowdirs = rdarray(_richdem.NO_FLOW * np.ones(dem.shape, dtype=np.int8), no_data=-9999, geotransform=STANDARD_GEOTRANSFORM)
+    flowdirs = rdarray(_richdem.NO_FLOW * np.ones(dem.shape, dtype=np.int8), meta_obj=dem, no_data=-9999)
     flowdirsw = flowdirs.wrap()
 
     dhret = depression_hierarchy.get_depression_hierarchy(demw, labelsw, flowdirsw)
-- 
2.43.0


From e334388b4ab18622f9c33fa3f3b88865546247c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 111/117] fix: labels, directions and water of another size
 than the DEM were read and written out of bounds

---
 wrappers/pyrichdem/richdem/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 360d29f..e823b60 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -61,6 +61,11 @@ def _RequireWritable(rda: np.ndarray, name: str) -> None:
         raise ValueError(f"`{name}` is read-only: it cannot be modified in place!")
 
 
+def _RequireSameShape(dem: np.ndarray, other: np.ndarray, name: str) -> None:
+    if other.shape != dem.shape:
+        raise ValueError(f"`{name}` must have the same dimensions as `dem`!")
+
+
 def _CopyBack(rda: Union["rdarray", "rd3array"], wrapped) -> None:
     """Brings what the engine wrote back if it worked on a copy of the array."""
     if not np.may_share_memory(rda, wrapped.source):
@@ -875,6 +880,7 @@ def get_depression_hierarchy(dem: rdarray, labels: rdarray) -> Tuple[List[depres
         raise Exception("A richdem.rdarray or numpy.ndarray is required!")
 
     _RequireWritable(labels, "labels")
+    _RequireSameShape(dem, labels, "labels")
 
     demw = dem.wrap()
     labelsw = labels.wrap()
@@ -940,6 +946,9 @@ def fill_spill_merge(dem: rdarray, labels: rdarray, flowdirs: rdarray, deps: Lis
         raise Exception("A richdem.rdarray or numpy.ndarray is required for the argument `wtd`!")
 
     _RequireWritable(wtd, "wtd")
+    _RequireSameShape(dem, labels, "labels")
+    _RequireSameShape(dem, flowdirs, "flowdirs")
+    _RequireSameShape(dem, wtd, "wtd")
 
     demw = dem.wrap()
     labelsw = labels.wrap()
-- 
2.43.0


From 5c406cb719fdd833e07caeb9f3aefd9b138c3c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 112/117] fix: fill_spill_merge did not update the depressions
 it was given

---
 wrappers/pyrichdem/src/pywrapper.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/src/pywrapper.cpp b/wrappers/pyrichdem/src/pywrapper.cpp
index 46dc1ed..8246bc0 100644
--- a/wrappers/pyrichdem/src/pywrapper.cpp
+++ b/wrappers/pyrichdem/src/pywrapper.cpp
@@ -164,7 +164,20 @@ PYBIND11_MODULE(_richdem, m) {
   dephier_module.def("get_depression_hierarchy", &dephier::GetDepressionHierarchy<double, Topology::D8>, "Calculate the hierarchy of depressions. Takes as input a digital elevation model and a set of labels. The labels should have `OCEAN` for cells");
   dephier_module.def(
     "fill_spill_merge",
-    &dephier::FillSpillMerge<double, double>,
+    [](
+      const Array2D<double>              &topo,
+      const Array2D<dephier::dh_label_t> &labels,
+      const Array2D<flowdir_t>           &flowdirs,
+      py::sequence                        deps,
+      Array2D<double>                    &wtd
+    ){
+      //The hierarchy reaches C++ as a copy, so what happened to it has to be
+      //brought back to the caller's depressions
+      auto dh = deps.cast<dephier::DepressionHierarchy<double>>();
+      dephier::FillSpillMerge<double, double>(topo, labels, flowdirs, dh, wtd);
+      for(std::size_t i=0;i<dh.size();i++)
+        deps[i].cast<dephier::Depression<double>&>() = dh[i];
+    },
     "Perform Fill-Spill-Merge on a given landscape and its associated depression hierarchy and water table depths",
     py::arg("topo"),
     py::arg("labels"),
-- 
2.43.0


From 07f7adb2720adc0faa2dc98a460cbcb9a25ff396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 113/117] fix: flow proportions without nine layers were read
 out of bounds

---
 wrappers/pyrichdem/src/pywrapper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wrappers/pyrichdem/src/pywrapper.cpp b/wrappers/pyrichdem/src/pywrapper.cpp
index 8246bc0..47534b3 100644
--- a/wrappers/pyrichdem/src/pywrapper.cpp
+++ b/wrappers/pyrichdem/src/pywrapper.cpp
@@ -77,6 +77,9 @@ PYBIND11_MODULE(_richdem, m) {
         if (dims != 3 )
           throw std::runtime_error("Array must have three dimensions!");
 
+        if (buf.shape()[2] != 9)
+          throw std::runtime_error("Array must have nine layers!");
+
         //Array comes to us in (y,x,z) form
         return new Array3D<float>((float*)buf.data(), buf.shape()[1], buf.shape()[0]);
       }), py::keep_alive<1,2>())
-- 
2.43.0


From 5009faf0bd2145dc35f36dd1ae7b37d556e710c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 114/117] fix: rd_breach_depressions of the Python package
 saved the DEM unbreached

---
 wrappers/pyrichdem/richdem/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/richdem/cli.py b/wrappers/pyrichdem/richdem/cli.py
index ab5fd38..b96acad 100644
--- a/wrappers/pyrichdem/richdem/cli.py
+++ b/wrappers/pyrichdem/richdem/cli.py
@@ -46,7 +46,7 @@ def BreachDepressions() -> None:
 
     dem = rd.LoadGDAL(args.dem)
     rd._AddAnalysis(dem, " ".join(sys.argv))
-    rd.BreachDepressions(dem)
+    rd.BreachDepressions(dem, in_place=True)
     rd.SaveGDAL(args.outname, dem)
 
 
-- 
2.43.0


From 881ebdf8205c2dd6b9753950a5bfcc713e756779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 115/117] fix: the differences of unsigned rasters wrapped
 around

---
 wrappers/pyrichdem/richdem/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/richdem/cli.py b/wrappers/pyrichdem/richdem/cli.py
index b96acad..31f711d 100644
--- a/wrappers/pyrichdem/richdem/cli.py
+++ b/wrappers/pyrichdem/richdem/cli.py
@@ -221,7 +221,7 @@ rda      -- A dataset
     if np.any(np.isnan(ds2)):
         print("NaN in '{0}'".format(args.rda2))
 
-    diff = np.array(ds1 - ds2)
+    diff = np.array(ds1, dtype="float64") - np.array(ds2, dtype="float64")
 
     print("Absolute Max difference: {0:10.6}".format(np.nanmax(np.abs(diff))))
     print("Absolute Min difference: {0:10.6}".format(np.nanmin(np.abs(diff))))
-- 
2.43.0


From 3b9ef3e32022e17be3f7d8f647537423a02ac263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 116/117] fix: Priority-Flood+Epsilon lowered integer
 elevations when its data type was named explicitly

---
 include/richdem/depressions/Barnes2014.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/richdem/depressions/Barnes2014.hpp b/include/richdem/depressions/Barnes2014.hpp
index 636a5fc..719935e 100644
--- a/include/richdem/depressions/Barnes2014.hpp
+++ b/include/richdem/depressions/Barnes2014.hpp
@@ -12,6 +12,7 @@
 #include <richdem/common/grid_cell.hpp>
 #include <richdem/flowmet/d8_flowdirs.hpp>
 #include <queue>
+#include <type_traits>
 #include <limits>
 #include <iostream>
 #include <cstdlib> //Used for exit
@@ -351,6 +352,10 @@ void PriorityFloodEpsilon_Barnes2014(Array2D<elev_t> &elevations){
   auto     PitTop          = elevations.noData();
   int      false_pit_cells = 0;
 
+  //This template is also reached by naming the data type explicitly
+  if(!std::is_floating_point<elev_t>::value)
+    throw std::runtime_error("Priority-Flood+Epsilon is only available for floating-point data types!");
+
   RDLOG_ALG_NAME<<"Priority-Flood+Epsilon";
   RDLOG_CITATION<<"Barnes, R., Lehman, C., Mulla, D., 2014. Priority-flood: An optimal depression-filling and watershed-labeling algorithm for digital elevation models. Computers & Geosciences 62, 117–127. doi:10.1016/j.cageo.2013.04.024";
   RDLOG_CONFIG  <<"topology = "<<TopologyName(topo);
-- 
2.43.0


From b4330dac767cdbb9024382a8847c97eee7f2a455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 117/117] fix: SaveGDAL could not store a NoData value which is
 a numpy number

---
 wrappers/pyrichdem/richdem/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index e823b60..b982412 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -413,7 +413,13 @@ def SaveGDAL(filename: str, rda: rdarray) -> None:
         data_set.SetGeoTransform([float(x) for x in rda.geotransform])
     data_set.SetProjection(rda.projection)
     band = data_set.GetRasterBand(1)
-    band.SetNoDataValue(rda.no_data)
+    # GDAL takes Python's numbers only, and whole numbers for some integer types
+    no_data = rda.no_data
+    if np.issubdtype(rda.dtype, np.integer) and float(no_data).is_integer():
+        no_data = int(no_data)
+    elif isinstance(no_data, np.generic):
+        no_data = no_data.item()
+    band.SetNoDataValue(no_data)
     band.WriteArray(np.array(rda))
     for k, v in rda.metadata.items():
         data_set.SetMetadataItem(str(k), str(v))
-- 
2.43.0

