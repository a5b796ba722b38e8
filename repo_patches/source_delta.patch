From afc6f7d0303999475be43bf46d2595c08e31ffaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:24 +0000
Subject: [PATCH 01/85] fix: read non-contiguous coordinates correctly in
 N-dimensional Histogram.fill

_fillnd walks the raw data pointers and ignored the strides, so sliced
coordinate arrays were binned from the wrong elements.
---
 skbeam/core/accumulators/histogram.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skbeam/core/accumulators/histogram.pyx b/skbeam/core/accumulators/histogram.pyx
index b4cbd54..401c997 100644
--- a/skbeam/core/accumulators/histogram.pyx
+++ b/skbeam/core/accumulators/histogram.pyx
@@ -226,6 +226,9 @@ class Histogram:
         cdef cnp.float_t [:] high = myhighs
         cdef cnp.float_t [:] binsize = mybinsizes
         cdef cnp.float_t* data = <cnp.float_t*> _getarrayptr(self._values)
+        # the coordinates are read through raw pointers, so they must be
+        # contiguous.  keep the references for as long as the pointers live.
+        coords = [np.ascontiguousarray(x) for x in coords]
         # distribute coordinates in each dimension according to their
         # numerical type.  follow the same order as in numtypes.
         for x in coords:
-- 
2.43.0


From f2e4fd2f83b4ae93c56a7df810602b8f87cee000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:50 +0000
Subject: [PATCH 02/85] fix: keep values just below the upper limit of a
 Histogram in the last bin

(pos - low) / binsize may round up to the number of bins, which raised
IndexError half way through a 1D or 2D fill and wrote outside the cell (or
the array) in N dimensions.
---
 skbeam/core/accumulators/histogram.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/accumulators/histogram.pyx b/skbeam/core/accumulators/histogram.pyx
index 401c997..31c0643 100644
--- a/skbeam/core/accumulators/histogram.pyx
+++ b/skbeam/core/accumulators/histogram.pyx
@@ -287,9 +287,13 @@ class Histogram:
 
 
 cdef long find_indices(coordnumtype pos, double low, double high, double binsize):
+    cdef long idx, nbin
     if not (low <= pos < high):
         return -1
-    return int((pos - low) / binsize)
+    idx = int((pos - low) / binsize)
+    # values just below the upper limit may be rounded up past the last bin
+    nbin = int((high - low) / binsize + 0.5)
+    return idx if idx < nbin else nbin - 1
 
 
 cdef void fillonecy(coordnumtype xval, wnumtype weight,
-- 
2.43.0


From 6a9881b81c64b776e7971814ce141bd6734f3369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:35 +0000
Subject: [PATCH 03/85] fix: BinnedStatistic masks no longer overwrite or
 mis-handle the sample

The out-of-range marker for masked points was written into the caller's
(N, D) array, was truncated back into range for integer samples (so masked
points were counted), and a mask given as a list was ignored.
---
 skbeam/core/accumulators/binned_statistic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 913870b..2c18d8e 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -108,6 +108,12 @@ class BinnedStatisticDD(object):
             sample = np.atleast_2d(sample).T
             N, self.D = sample.shape
 
+        if mask is not None:
+            # masked points are moved out of range below: work on a copy, and
+            # on one which can represent the new values
+            mask = np.asarray(mask)
+            sample = np.array(sample, dtype=float)
+
         self.nbin = np.empty(self.D, int)
         self.edges = self.D * [None]
         self._centers = self.D * [None]
-- 
2.43.0


From 833e8cf2ffe0d87ac7220d1496a673aa442fabd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:35 +0000
Subject: [PATCH 04/85] fix: do not move points just below the last bin edge
 one bin down

Points which are smaller than the rightmost edge, but round to it, already
are in the last bin (the same was fixed in numpy.histogramdd).
---
 skbeam/core/accumulators/binned_statistic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 2c18d8e..48dd07a 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -175,7 +175,10 @@ class BinnedStatisticDD(object):
             # Rounding precision
             decimal = int(-np.log10(dedges[i].min())) + 6
             # Find which points are on the rightmost edge.
-            on_edge = np.where(np.around(sample[:, i], decimal) == np.around(self.edges[i][-1], decimal))[0]
+            on_edge = np.where(
+                (sample[:, i] >= self.edges[i][-1])
+                & (np.around(sample[:, i], decimal) == np.around(self.edges[i][-1], decimal))
+            )[0]
             # Shift these points one bin to the left.
             Ncount[i][on_edge] -= 1
 
-- 
2.43.0


From 5dd7eef5ba2ab394a514bb5caf6e9cdf1d5575f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:35 +0000
Subject: [PATCH 05/85] fix: BinnedStatistic 'std' of integer images and of
 constant bins

The squares overflowed for small integer types, and bins whose values are
all equal could give NaN because of rounding.
---
 skbeam/core/accumulators/binned_statistic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 48dd07a..8335d79 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -305,9 +305,11 @@ class BinnedStatisticDD(object):
         elif statistic == "std":
             self.result.fill(0)
             flatsum = np.bincount(self.xy, values)
-            flatsum2 = np.bincount(self.xy, values**2)
+            flatsum2 = np.bincount(self.xy, np.asarray(values, dtype=float) ** 2)
             a = self.flatcount.nonzero()
-            self.result[a] = np.sqrt(flatsum2[a] / self.flatcount[a] - (flatsum[a] / self.flatcount[a]) ** 2)
+            variance = flatsum2[a] / self.flatcount[a] - (flatsum[a] / self.flatcount[a]) ** 2
+            # rounding may leave a tiny negative number
+            self.result[a] = np.sqrt(np.maximum(variance, 0))
         elif statistic == "count":
             self.result.fill(0)
             a = np.arange(len(self.flatcount))
-- 
2.43.0


From ed05b8b619de393ef15f6644fdda05d48a85319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:35 +0000
Subject: [PATCH 06/85] fix: BinnedStatistic.binmap for dimensions with
 different numbers of bins

The flattened index is built with the dimensions sorted by their number of
bins; the reverse transformation took the wrong modulus and returned the
maps in the sorted order.
---
 skbeam/core/accumulators/binned_statistic.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 8335d79..8069d4c 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -210,12 +210,9 @@ class BinnedStatisticDD(object):
         denominator = 1
 
         for i in range(self.D):
-            ind = self.D - i - 1
-            subbinmap = self.xy // denominator
-            if i < self.D - 1:
-                subbinmap = subbinmap % self.nbin[self.ni[ind - 1]]
-            binmap[ind] = subbinmap
-            denominator *= self.nbin[self.ni[ind]]
+            ind = self.ni[self.D - i - 1]
+            binmap[ind] = (self.xy // denominator) % self.nbin[ind]
+            denominator *= self.nbin[ind]
 
         return binmap
 
-- 
2.43.0


From bf581f6affc73fe546b4bcec1244a9bfc5c360cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:41 +0000
Subject: [PATCH 07/85] fix: data race on the loop index while clearing the
 per-thread grids in grid3d

---
 src/ctrans.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 61f7bc0..ac963e9 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -451,11 +451,12 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
 
     if((_d2out != NULL) && (_dout != NULL) && (_nout != NULL)){
 
-      // Clear the arrays ....
-      for(j=0;j<grid_size;j++){
-        _dout[j] = 0.0;
-        _d2out[j] = 0.0;
-        _nout[j] = 0;
+      // Clear the arrays .... (the index has to be private to the thread)
+      unsigned long k;
+      for(k=0;k<grid_size;k++){
+        _dout[k] = 0.0;
+        _d2out[k] = 0.0;
+        _nout[k] = 0;
       }
 
 #pragma omp for
-- 
2.43.0


From 45c9fb1927f014556741734baa7b47e5df921aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:41 +0000
Subject: [PATCH 08/85] fix: standard error of equal intensities in a grid3d
 voxel is not NaN

---
 src/ctrans.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ctrans.c b/src/ctrans.c
index ac963e9..b657d2c 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -535,6 +535,9 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
       stderror[j] = 0.0;
     } else {
       double var = (d2out[j] - pow(dout[j], 2) / nout[j]) / nout[j];
+      if(var < 0){
+        var = 0.0; // rounding error only
+      }
       stderror[j] = pow(var, 0.5) / pow(nout[j], 0.5);
     }
   }
-- 
2.43.0


From e3199f17c57f36d687baf9f0a04ee77fbee41776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:51 +0000
Subject: [PATCH 09/85] fix: grid3d treats an integer 0/1 binary_mask as a
 mask, not as indices

---
 skbeam/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index d7a6821..d05650d 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -927,7 +927,7 @@ def grid3d(
     # getting the intensity value for each pixel
     q = np.insert(q, 3, np.ravel(img_stack), axis=1)
     if binary_mask is not None:
-        q = q[np.ravel(binary_mask)]
+        q = q[np.ravel(binary_mask).astype(bool)]
 
     # 3D grid of the data set
     # starting time for gridding
-- 
2.43.0


From ee01a667fa5c352215798abd7b674a539323a50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:51 +0000
Subject: [PATCH 10/85] fix: grid3d default bounds include the points with the
 largest coordinates

---
 skbeam/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index d05650d..8ebc96a 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -912,7 +912,7 @@ def grid3d(
 
     # pad the upper edge by just enough to ensure that all of the
     # points are in-bounds with the binning rules: lo <= val < hi
-    qmax += np.spacing(qmax)
+    qmax += 4 * np.spacing(np.maximum(np.abs(qmin), np.abs(qmax)))
 
     # check for non-default input
     for target, input_vals in ((dqn, (nx, ny, nz)), (qmin, (xmin, ymin, zmin)), (qmax, (xmax, ymax, zmax))):
-- 
2.43.0


From 0c4885bc004f41b5c8dcf7a0a9df55a89c4ebafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:51 +0000
Subject: [PATCH 11/85] fix: grid3d accepts integer and single precision q
 without truncating intensities

---
 skbeam/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 8ebc96a..331ef9c 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -893,7 +893,7 @@ def grid3d(
             "".format(img_stack.shape, img_stack[0].shape, binary_mask.shape)
         )
 
-    q = np.atleast_2d(q)
+    q = np.atleast_2d(np.asarray(q, dtype=float))
     if q.ndim != 2:
         raise ValueError(
             "q.ndim must be a 2-D array of shape Nx3 array. "
-- 
2.43.0


From 92c9d006ff8d7924537bd1baa38577ed279d4ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:18 +0000
Subject: [PATCH 12/85] fix: grid3d neither hangs nor leaks when one thread
 runs out of memory

---
 src/ctrans.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index b657d2c..b5d1373 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -449,6 +449,11 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
     _dout = (double *)malloc(sizeof(double) * grid_size);
     _nout = (unsigned long *)malloc(sizeof(unsigned long) * grid_size);
 
+    // The arrays of every thread are freed below, whatever happens
+    threadData[thread_num].dout = _dout;
+    threadData[thread_num].d2out = _d2out;
+    threadData[thread_num].nout = _nout;
+
     if((_d2out != NULL) && (_dout != NULL) && (_nout != NULL)){
 
       // Clear the arrays .... (the index has to be private to the thread)
@@ -458,6 +463,16 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
         _d2out[k] = 0.0;
         _nout[k] = 0;
       }
+    } else {
+#pragma omp atomic write
+      retval = 1;
+    }
+
+    // All threads have to see the same outcome: the loop below is only
+    // valid if the whole team executes it
+#pragma omp barrier
+
+    if(!retval){
 
 #pragma omp for
       for(i=0;i<max_data;i++){
@@ -496,12 +511,6 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
           }
         }
       }
-
-      threadData[thread_num].dout = _dout;
-      threadData[thread_num].d2out = _d2out;
-      threadData[thread_num].nout = _nout;
-    } else {
-      retval = 1;
     }
 
   } // pragma parallel
-- 
2.43.0


From 3b0ada83ba12f5cac8287d749223bbf154ddd72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:18 +0000
Subject: [PATCH 13/85] fix: grid3d built without OpenMP writes past its empty
 thread table

---
 src/ctrans.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index b5d1373..400e156 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -45,7 +45,7 @@
 #else
 
 #define omp_get_thread_num() 0
-#define omp_get_max_threads() 0
+#define omp_get_max_threads() 1
 #define omp_get_num_threads() 1
 
 #endif
-- 
2.43.0


From a01801b3c611e97f97c74e07a54230067ce87f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:18 +0000
Subject: [PATCH 14/85] fix: process_to_q raises MemoryError when it runs out
 of memory

---
 src/ctrans.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ctrans.c b/src/ctrans.c
index 400e156..5991c70 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -130,6 +130,7 @@ static PyObject* ccdToQ(PyObject *self, PyObject *args, PyObject *kwargs){
   // Now create the arrays for delta-gamma pairs
   delgam = (double*)malloc(nimages * ccd.size * sizeof(double) * 2);
   if(!delgam){
+    PyErr_NoMemory();
     goto cleanup;
   }
 
-- 
2.43.0


From fb0f32a68f1502ca6af09883aebd8882543ccf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:18 +0000
Subject: [PATCH 15/85] fix: parse the ignore_nan flag of grid3d into the int
 it is stored in

---
 src/ctrans.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 5991c70..1b38733 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -320,7 +320,7 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
   static char *kwlist[] = { "data", "xrange", "yrange", "zrange", "ignore_nan",
                             "gridout", "grid2out", "nout", NULL };
 
-  if(!PyArg_ParseTupleAndKeywords(args, kwargs, "O(ddd)(ddd)(lll)|dOOO", kwlist,
+  if(!PyArg_ParseTupleAndKeywords(args, kwargs, "O(ddd)(ddd)(lll)|iOOO", kwlist,
 				  &_I,
 				  &grid_start[0], &grid_start[1], &grid_start[2],
 				  &grid_stop[0], &grid_stop[1], &grid_stop[2],
-- 
2.43.0


From f758ab0b2893891ad0d0eefb736e68d4318d2b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:25 +0000
Subject: [PATCH 16/85] fix: rectangles outside the image no longer label
 pixels inside it

---
 skbeam/core/roi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index c09be46..043eb9f 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -84,8 +84,9 @@ def rectangles(coords, shape):
         left, right = np.max([col_coor, 0]), np.min([col_coor + col_val, shape[0]])
         top, bottom = np.max([row_coor, 0]), np.min([row_coor + row_val, shape[1]])
 
-        slc1 = slice(left, right)
-        slc2 = slice(top, bottom)
+        # a rectangle that lies before the first pixel covers nothing
+        slc1 = slice(left, np.max([right, 0]))
+        slc2 = slice(top, np.max([bottom, 0]))
 
         if np.any(labels_grid[slc1, slc2]):
             raise ValueError("overlapping ROIs")
-- 
2.43.0


From d61d86616ce90abe0e6e0eb9c9ce4d61b0612aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:25 +0000
Subject: [PATCH 17/85] fix: ring_edges accepts a list of widths with a list of
 spacings

---
 skbeam/core/roi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 043eb9f..d2f4e70 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -186,7 +186,7 @@ def ring_edges(inner_radius, width, spacing=0, num_rings=None):
     width_is_list = isinstance(width, collections.abc.Iterable)
     spacing_is_list = isinstance(spacing, collections.abc.Iterable)
     if width_is_list and spacing_is_list:
-        if len(width) != len(spacing) - 1:
+        if len(spacing) != len(width) - 1:
             raise ValueError("List of spacings must be one less than list " "of widths.")
     if num_rings is None:
         try:
-- 
2.43.0


From 13f5132dedd607184c187feb47b5fe1e53e48187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:25 +0000
Subject: [PATCH 18/85] fix: ring_edges does not truncate the inner radius when
 spacings are integers

---
 skbeam/core/roi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index d2f4e70..76a3c1b 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -215,7 +215,7 @@ def ring_edges(inner_radius, width, spacing=0, num_rings=None):
         spacing = np.ones(num_rings - 1) * spacing
 
     # The inner radius is the first "spacing."
-    all_spacings = np.insert(spacing, 0, inner_radius)
+    all_spacings = np.insert(np.asarray(spacing, dtype=float), 0, inner_radius)
     steps = np.array([all_spacings, width]).T.ravel()
     edges = np.cumsum(steps).reshape(-1, 2)
 
-- 
2.43.0


From a7fd266779fa299be66890d3c95e175329eec235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:07 +0000
Subject: [PATCH 19/85] fix: segmented_rings labels every angle by its own
 segment with any offset or list of angles

---
 skbeam/core/roi.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 76a3c1b..6b820fa 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -271,8 +271,6 @@ def segmented_rings(edges, segments, center, shape, offset_angle=0):
 
     agrid = utils.angle_grid(center, shape)
 
-    agrid[agrid < 0] = 2 * np.pi + agrid[agrid < 0]
-
     segments_is_list = isinstance(segments, collections.abc.Iterable)
     if segments_is_list:
         segments = np.asarray(segments) + offset_angle
@@ -281,9 +279,17 @@ def segmented_rings(edges, segments, center, shape, offset_angle=0):
         segments = np.linspace(0, 2 * np.pi, num=1 + segments, endpoint=True)
         segments += offset_angle
 
+    # bring the angles into the full turn that starts at the first segment
+    agrid = np.mod(agrid - segments[0], 2 * np.pi)
+    agrid[agrid >= 2 * np.pi] = 0
+    agrid += segments[0]
+
     # the indices of the bins(angles) to which each value in input
     #  array(angle_grid) belongs.
     ind_grid = (np.digitize(np.ravel(agrid), segments, right=False)).reshape(shape)
+    if not segments_is_list:
+        # equal segments span the full turn; rounding must not push a pixel out
+        ind_grid = np.minimum(ind_grid, len(segments) - 1)
 
     label_array = np.zeros(shape, dtype=np.int64)
     # radius grid for the image_shape
@@ -293,6 +299,8 @@ def segmented_rings(edges, segments, center, shape, offset_angle=0):
     len_segments = len(segments)
     for i in range(len(edges) // 2):
         indices = (edges[2 * i] <= rgrid) & (rgrid < edges[2 * i + 1])
+        # angles beyond the last segment belong to no region
+        indices &= ind_grid < len_segments
         # Combine "segment #" and "ring #" to get unique label for each.
         label_array[indices] = ind_grid[indices] + (len_segments - 1) * i
 
-- 
2.43.0


From 42662d96f831d73112f77dd804e0ac71e7906a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:07 +0000
Subject: [PATCH 20/85] fix: bar uses the given pixel coordinates for vertical
 bars too

---
 skbeam/core/roi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 6b820fa..d55a5af 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -616,9 +616,10 @@ def bar(edges, shape, horizontal=True, values=None):
             "r=0 outward"
         )
     if values is None:
-        values = np.repeat(range(shape[0]), shape[1])
-    if not horizontal:
-        values = np.tile(range(shape[1]), shape[0])
+        if horizontal:
+            values = np.repeat(range(shape[0]), shape[1])
+        else:
+            values = np.tile(range(shape[1]), shape[0])
 
     return _make_roi(values, edges, shape)
 
-- 
2.43.0


From a2ea8d76480cdcdc52c5ab9a5de8181999c83aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:07 +0000
Subject: [PATCH 21/85] fix: lines ending outside the image stay inside it
 instead of wrapping around

---
 skbeam/core/roi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index d55a5af..3ebf18d 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -710,10 +710,10 @@ def lines(end_points, shape):
                 " ending co-ordinates for each line"
             )
         rr, cc = line(
-            np.max([points[0], 0]),
-            np.max([points[1], 0]),
-            np.min([points[2], shape[0] - 1]),
-            np.min([points[3], shape[1] - 1]),
+            np.clip(points[0], 0, shape[0] - 1),
+            np.clip(points[1], 0, shape[1] - 1),
+            np.clip(points[2], 0, shape[0] - 1),
+            np.clip(points[3], 0, shape[1] - 1),
         )
         label += 1
         label_array[rr, cc] = label
-- 
2.43.0


From 9af50933f507dfc7d37970b32813c773feb1969a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:07 +0000
Subject: [PATCH 22/85] fix: mean_intensity accepts a list of images and labels
 without background

---
 skbeam/core/roi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 3ebf18d..d7c5eec 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -404,15 +404,14 @@ def mean_intensity(images, labeled_array, index=None):
         )
     # handle various input for `index`
     if index is None:
-        index = list(np.unique(labeled_array))
-        index.remove(0)
+        index = [n for n in np.unique(labeled_array) if n != 0]
     try:
         len(index)
     except TypeError:
         index = [index]
     # pre-allocate an array for performance
     # might be able to use list comprehension to make this faster
-    mean_intensity = np.zeros((images.shape[0], len(index)))
+    mean_intensity = np.zeros((len(images), len(index)))
     for n, img in enumerate(images):
         # use a mean that is mask-aware
         mean_intensity[n] = ndimage.mean(img, labeled_array, index=index)
-- 
2.43.0


From 19008d6b7a7b711e78926d87ba7e38d4d534b857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:07 +0000
Subject: [PATCH 23/85] fix: margin of width zero masks nothing

---
 skbeam/core/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index 4298d02..9b78439 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -130,7 +130,7 @@ def margin(img_shape, edge_size):
         The mask array, bad pixels are 0
     """
     mask = np.ones(img_shape, dtype=bool)
-    mask[edge_size:-edge_size, edge_size:-edge_size] = 0.0
+    mask[edge_size : img_shape[0] - edge_size, edge_size : img_shape[1] - edge_size] = 0.0
     return ~mask
 
 
-- 
2.43.0


From 8a2d56b74f6195b78e60db968d9643ad67a5f162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:07 +0000
Subject: [PATCH 24/85] fix: binned_outlier compares pixels on a bin edge with
 the statistics of their own bin

---
 skbeam/core/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index 9b78439..8d66446 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -170,7 +170,7 @@ def binned_outlier(img, r, alpha, bins, mask=None):
     msk_img = img[working_mask]
     msk_r = r[working_mask]
 
-    int_r = np.digitize(r, bins[:-1], True) - 1
+    int_r = np.digitize(r, bins[:-1]) - 1
     # integration
     mean = sts.binned_statistic(msk_r, msk_img, bins=bins, statistic="mean")[0]
     std = sts.binned_statistic(msk_r, msk_img, bins=bins, statistic=np.std)[0]
-- 
2.43.0


From 4e5e7b95d66c9fd8ca30b057d4dbaa36e18fcf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:07 +0000
Subject: [PATCH 25/85] fix: threshold does not overwrite the mask of the
 caller

---
 skbeam/core/mask.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index 8d66446..8fe9f9e 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -106,6 +106,8 @@ def threshold(images, threshold, mask=None):
     """
     if mask is None:
         mask = np.ones_like(images[0])
+    else:
+        mask = np.array(mask)
     for im in images:
         bad_pixels = np.where(im >= threshold)
         if len(bad_pixels[0]) != 0:
-- 
2.43.0


From 46838d7c8f0dc1b2b5d30169b00836bba8041cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:01 +0000
Subject: [PATCH 26/85] fix: DPC reconstruction honours scale=False and works
 without scaling or negation

---
 skbeam/core/dpc.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/skbeam/core/dpc.py b/skbeam/core/dpc.py
index acd8d97..b964dd9 100644
--- a/skbeam/core/dpc.py
+++ b/skbeam/core/dpc.py
@@ -519,20 +519,17 @@ def reconstruct_phase_from_partial_info(
     """
     if weighting < 0 or weighting > 1:
         raise ValueError("weighting should be within the range of [0, 1]!")
-    gx = None
+    gx = dpc_state.gx
     gy = dpc_state.gy
-    if pixel_size and focus_to_det:
+    if scale and pixel_size and focus_to_det:
         # Convert to wavelength
         lambda_ = 12.4e-4 / energy
         # pre-compute the scaling factor
-        scale = pixel_size / (lambda_ * focus_to_det)
-        gx = dpc_state.gx * len(dpc_state.ref_fx) * scale
-        gy = dpc_state.gy * len(dpc_state.ref_fy) * scale
+        factor = pixel_size / (lambda_ * focus_to_det)
+        gx = gx * len(dpc_state.ref_fx) * factor
+        gy = gy * len(dpc_state.ref_fy) * factor
     if negate:
-        if gx is not None:
-            gx *= -1
-        else:
-            gx = dpc_state.gx * -1
+        gx = -gx
     # Reconstruct the final phase image
     phase = recon(gx, gy, scan_xstep, scan_ystep, padding, weighting)
 
-- 
2.43.0


From b613ec0415c8bc25fb1ab1250f7c917b9159e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:01 +0000
Subject: [PATCH 27/85] fix: DPC image_reduction accepts the roi as an array,
 as documented

---
 skbeam/core/dpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/dpc.py b/skbeam/core/dpc.py
index b964dd9..520b8d2 100644
--- a/skbeam/core/dpc.py
+++ b/skbeam/core/dpc.py
@@ -81,7 +81,7 @@ def image_reduction(im, roi=None, bad_pixels=None):
         for row, column in bad_pixels:
             im[row, column] = 0
 
-    if roi:
+    if roi is not None and len(roi):
         r, c, row, col = roi
         im = im[r : (r + row), c : (c + col)]
 
-- 
2.43.0


From a35048fa4e33c3b81517ab120034c89e7a26fdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:01 +0000
Subject: [PATCH 28/85] fix: xsvs sums disjoint pairs of images for the longer
 integration times

---
 skbeam/core/speckle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index 5d62378..c0bcfac 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -196,7 +196,9 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
 
             while level < num_times:
                 if not track_level[level]:
+                    # wait for the second image of the pair
                     track_level[level] = 1
+                    break
                 else:
                     prev = 1 + (cur[level - 1] - 2) % timebin_num
                     cur[level] = 1 + cur[level] % timebin_num
-- 
2.43.0


From 87bb0e30748636b4b7549f80337debd61cc7be92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:01 +0000
Subject: [PATCH 29/85] fix: xsvs gives every image set the same weight

---
 skbeam/core/speckle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index c0bcfac..d043ce6 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -221,8 +221,8 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
                     )
                     level += 1
 
-            prob_k_all += (prob_k - prob_k_all) / (i + 1)
-            prob_k_pow_all += (prob_k_pow - prob_k_pow_all) / (i + 1)
+        prob_k_all += (prob_k - prob_k_all) / (i + 1)
+        prob_k_pow_all += (prob_k_pow - prob_k_pow_all) / (i + 1)
 
     prob_k_std_dev = np.power((prob_k_pow_all - np.power(prob_k_all, 2)), 0.5)
 
-- 
2.43.0


From 6b4e673a3f7766a1be31decb84487be7340f3540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:01 +0000
Subject: [PATCH 30/85] fix: geometric_series includes the number of images
 itself, as documented

---
 skbeam/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 331ef9c..f7d22ca 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -1202,7 +1202,7 @@ def geometric_series(common_ratio, number_of_images, first_term=1):
 
     geometric_series = [first_term]
 
-    while geometric_series[-1] * common_ratio < number_of_images:
+    while geometric_series[-1] * common_ratio <= number_of_images:
         geometric_series.append(geometric_series[-1] * common_ratio)
     return geometric_series
 
-- 
2.43.0


From 443b68179dcb12021257dec59fd82c418c07653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:01 +0000
Subject: [PATCH 31/85] fix: generate_box_support for boxes larger than the
 array

---
 skbeam/core/cdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index 17ebdee..5a40b0e 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -201,7 +201,7 @@ def generate_box_support(sup_radius, shape_v):
     sup : array
         support with a box area
     """
-    slc_list = [slice(s // 2 - sup_radius, s // 2 + sup_radius) for s in shape_v]
+    slc_list = [slice(max(s // 2 - sup_radius, 0), s // 2 + sup_radius) for s in shape_v]
     sup = np.zeros(shape_v)
     sup[tuple(slc_list)] = 1
     return sup
-- 
2.43.0


From 61967b274ad29b16c95d21f40caf2c86b935af73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:01 +0000
Subject: [PATCH 32/85] fix: cdi_recon does not overwrite the initial sample of
 the caller

---
 skbeam/core/cdi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index 5a40b0e..7e4c0ef 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -318,6 +318,7 @@ def cdi_recon(
 
     diffracted_pattern = np.array(diffracted_pattern)  # diffraction data
     diffracted_pattern = np.fft.fftshift(diffracted_pattern)
+    sample_obj = np.array(sample_obj)  # updated in place below
 
     pi_modulus_flag = pi_modulus_flag.lower()
     real_operation = False
-- 
2.43.0


From 8f806e9da3536b17a86dd875697907c74c1f3229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:01 +0000
Subject: [PATCH 33/85] fix: cdi_recon calls cb_function after every cb_step
 iterations, as documented

---
 skbeam/core/cdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index 7e4c0ef..dbcfda8 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -380,7 +380,7 @@ def cdi_recon(
                     sup_error[n] = np.sum(sup_old)
                     sup_old = np.array(sup)
 
-        if cb_function and n_iterations % cb_step == 0:
+        if cb_function and (n + 1) % cb_step == 0:
             cb_function(sample_obj, obj_error, diff_error, sup_error)
 
         if n > start_avg * n_iterations:
-- 
2.43.0


From 48a0429e48ace4f44c1e2af8fcb26906c8ab363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:01 +0000
Subject: [PATCH 34/85] fix: cdi_recon does not divide by zero in runs too
 short to average

---
 skbeam/core/cdi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index dbcfda8..6ce4b46 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -389,7 +389,8 @@ def cdi_recon(
 
         logger.info("%d object_chi= %f, diff_chi=%f" % (n, obj_error[n], diff_error[n]))
 
-    obj_avg = obj_avg / avg_i
+    # short runs may end before the averaging starts
+    obj_avg = obj_avg / avg_i if avg_i else sample_obj
     time_end = time.time()
 
     logger.info("%d iterations takes %f sec" % (n_iterations, time_end - time_start))
-- 
2.43.0


From 7509f0df2fa9cc9324c9aeb6030547eb1c442472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:53 +0000
Subject: [PATCH 35/85] fix: MD_dict does not replace a leaf, nor create
 branches, when a path below it is used

---
 skbeam/core/utils.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index f7d22ca..3266fb9 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -101,19 +101,21 @@ class MD_dict(MutableMapping):
     def __repr__(self):
         return self._dict.__repr__()
 
+    @staticmethod
+    def _branch(node):
+        if isinstance(node, md_value):
+            # TODO make message better
+            raise KeyError("trying to use a leaf node as a branch")
+        return node._dict
+
     # overload __setitem__ so dotted paths work
     def __setitem__(self, key, val):
         key_split = key.split(self._split)
         tmp = self._dict
         for k in key_split[:-1]:
-            try:
-                tmp = tmp[k]._dict
-            except Exception:
+            if k not in tmp:
                 tmp[k] = type(self)()
-                tmp = tmp[k]._dict
-            if isinstance(tmp, md_value):
-                # TODO make message better
-                raise KeyError("trying to use a leaf node as a branch")
+            tmp = self._branch(tmp[k])
 
         # if passed in an md_value, set it and return
         if isinstance(val, md_value):
@@ -142,15 +144,9 @@ class MD_dict(MutableMapping):
         key_split = key.split(self._split)
         tmp = self._dict
         for k in key_split[:-1]:
-            try:
-                tmp = tmp[k]._dict
-            except Exception:
-                tmp[k] = type(self)()
-                tmp = tmp[k]._dict
-
-            if isinstance(tmp, md_value):
-                # TODO make message better
-                raise KeyError("trying to use a leaf node as a branch")
+            if k not in tmp:
+                return None
+            tmp = self._branch(tmp[k])
 
         return tmp.get(key_split[-1], None)
 
@@ -161,7 +157,7 @@ class MD_dict(MutableMapping):
         tmp = self._dict
         for k in key_split[:-1]:
             # make sure we are grabbing the internal dict
-            tmp = tmp[k]._dict
+            tmp = self._branch(tmp[k])
         del tmp[key_split[-1]]
         # TODO pass 2 remove empty branches
 
-- 
2.43.0


From af3a6f61656e8c4cbe34d4dbfcb79304748fdef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:53 +0000
Subject: [PATCH 36/85] fix: MD_dict stores sequences shorter than two elements
 and mappings, without debug output

---
 skbeam/core/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 3266fb9..f9d7e87 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -130,14 +130,13 @@ class MD_dict(MutableMapping):
         try:
             # if the second element is a string or None, cast to named tuple
             if isinstance(val[1], string_types) or val[1] is None:
-                print("here")
                 tmp[key_split[-1]] = md_value(*val)
             # else, assume whole thing is the value with no units
             else:
                 tmp[key_split[-1]] = md_value(val, None)
         # catch any type errors from trying to index into non-indexable things
         # or from trying to use iterables longer than 2
-        except TypeError:
+        except (TypeError, IndexError, KeyError):
             tmp[key_split[-1]] = md_value(val, None)
 
     def __getitem__(self, key):
-- 
2.43.0


From 4f9a17562246ad800149e1db7c2efcb82eb421ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:53 +0000
Subject: [PATCH 37/85] fix: MD_dict does not claim to contain every key

---
 skbeam/core/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index f9d7e87..abf5f5e 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -149,6 +149,12 @@ class MD_dict(MutableMapping):
 
         return tmp.get(key_split[-1], None)
 
+    def __contains__(self, key):
+        try:
+            return self[key] is not None
+        except KeyError:
+            return False
+
     def __delitem__(self, key):
         # pass one delete the entry
         # TODO make robust to non-keys
-- 
2.43.0


From 83a5669e15bd136efa73c123f174fc8e51607219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:53 +0000
Subject: [PATCH 38/85] fix: RCParamDict raises KeyError for paths below a
 value

---
 skbeam/core/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index abf5f5e..055bae3 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -263,14 +263,20 @@ class RCParamDict(MutableMapping):
         # try to split the key
         splt_key = key.split(self._delim, 1)
         if len(splt_key) > 1:
-            return self._dict[splt_key[0]][splt_key[1]]
+            tmp = self._dict[splt_key[0]]
+            if not isinstance(tmp, RCParamDict):
+                raise KeyError(key)
+            return tmp[splt_key[1]]
         else:
             return self._dict[key]
 
     def __delitem__(self, key):
         splt_key = key.split(self._delim, 1)
         if len(splt_key) > 1:
-            self._dict[splt_key[0]].__delitem__(splt_key[1])
+            tmp = self._dict[splt_key[0]]
+            if not isinstance(tmp, RCParamDict):
+                raise KeyError(key)
+            del tmp[splt_key[1]]
         else:
             del self._dict[key]
 
-- 
2.43.0


From a2129ff4de38c5091e08ac37d7dea71af0492f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:28 +0000
Subject: [PATCH 39/85] fix: gsas_writer scales intensities and errors alike
 and never the angles

---
 skbeam/io/save_powder_output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/io/save_powder_output.py b/skbeam/io/save_powder_output.py
index cb4f804..171dc58 100644
--- a/skbeam/io/save_powder_output.py
+++ b/skbeam/io/save_powder_output.py
@@ -211,7 +211,7 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
             0,
         )
         lines.append("%-80s" % l_bank)
-        l_recs = ["%8.0f%8.0f" % (ii, ee * scale) for ii, ee in zip(intensity, err)]
+        l_recs = ["%8.0f%8.0f" % (ii * scale, ee * scale) for ii, ee in zip(intensity, err)]
         for i in range(0, len(l_recs), 5):
             lines.append("".join(l_recs[i : i + 5]))
     elif mode == "FXYE":
@@ -227,7 +227,7 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
         )
         lines.append("%-80s" % l_bank)
         l_recs = [
-            "%22.10f%22.10f%24.10f" % (xx * scale, yy * scale, ee * scale)
+            "%22.10f%22.10f%24.10f" % (xx, yy * scale, ee * scale)
             for xx, yy, ee in zip(tth, intensity, err)
         ]
         for i in range(len(l_recs)):
-- 
2.43.0


From 68a150c80338cc50b81586114879909f432c82a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:28 +0000
Subject: [PATCH 40/85] fix: gsas_writer does not delete an existing file when
 it rejects the mode

---
 skbeam/io/save_powder_output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/io/save_powder_output.py b/skbeam/io/save_powder_output.py
index 171dc58..7189cea 100644
--- a/skbeam/io/save_powder_output.py
+++ b/skbeam/io/save_powder_output.py
@@ -160,8 +160,6 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
 
     _validate_input(tth, intensity, err, ext)
 
-    file_path = _create_file_path(dir_path, output_name, ext)
-
     max_intensity = 999999
     log_scale = np.floor(np.log10(max_intensity / np.max(intensity)))
     log_scale = min(log_scale, 0)
@@ -238,6 +236,8 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
     lines[-1] = "%-80s" % lines[-1]
     rv = "\r\n".join(lines) + "\r\n"
 
+    file_path = _create_file_path(dir_path, output_name, ext)
+
     with open(file_path, "wt") as f:
         f.write(rv)
 
-- 
2.43.0


From fb8f5f430c011e2134aafca2af18162c09801d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:28 +0000
Subject: [PATCH 41/85] fix: gsas_writer writes patterns of a single point

---
 skbeam/io/save_powder_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/io/save_powder_output.py b/skbeam/io/save_powder_output.py
index 7189cea..8a3bded 100644
--- a/skbeam/io/save_powder_output.py
+++ b/skbeam/io/save_powder_output.py
@@ -177,7 +177,7 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
 
     # two-theta0 and dtwo-theta in centidegrees
     tth0_cdg = tth[0] * 100
-    dtth_cdg = (tth[-1] - tth[0]) / (len(tth) - 1) * 100
+    dtth_cdg = (tth[-1] - tth[0]) / max(len(tth) - 1, 1) * 100
 
     if err is None:
         mode = "STD"
-- 
2.43.0


From 515db4c967beb94193d80506c4ad1acfd70c6606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:28 +0000
Subject: [PATCH 42/85] fix: gsas_reader does not append points to ESD files
 whose last record is not full

---
 skbeam/io/gsas_file_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skbeam/io/gsas_file_reader.py b/skbeam/io/gsas_file_reader.py
index 642a0a8..12ef7f9 100644
--- a/skbeam/io/gsas_file_reader.py
+++ b/skbeam/io/gsas_file_reader.py
@@ -163,9 +163,14 @@ def _get_esd_data(file):
         start = float(S[0].split()[5]) / 100.0
         step = float(S[0].split()[6]) / 100.0
 
+        # number of data values(two theta or intensity)
+        nch = float(S[0].split()[2])
+
         j = 0
         for line in S[1:]:
             for i in range(0, 80, 16):
+                if j >= nch:
+                    break
                 xi = start + step * j
                 yi = _sfloat(line[i : i + 8])
                 ei = _sfloat(line[i + 8 : i + 16])
-- 
2.43.0


From a1c7c317b5d00c1345fae39f111e43b76ad9a018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:29 +0000
Subject: [PATCH 43/85] fix: load_netCDF uses a scale factor of 1 when the file
 has none, as documented

---
 skbeam/io/net_cdf_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/io/net_cdf_io.py b/skbeam/io/net_cdf_io.py
index 6cd0671..58ad9cc 100644
--- a/skbeam/io/net_cdf_io.py
+++ b/skbeam/io/net_cdf_io.py
@@ -69,7 +69,7 @@ def load_netCDF(file_name):
         data = src_file.variables["VOLUME"]
         md_dict = src_file.__dict__
         # Check for voxel intensity scale factor and apply if value is present
-        data /= data.scale_factor if data.scale_factor != 1.0 else 1.0
+        data /= getattr(data, "scale_factor", 1.0)
 
     # Accounts for specific case where z_pixel_size doesn't get assigned
     # even though dimensions are actuall isotropic. This occurs when
-- 
2.43.0


From 511b763d789ca50d9f83412f871d918836051cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:29 +0000
Subject: [PATCH 44/85] fix: load_amiramesh reads AmiraMesh files under Python
 3

---
 skbeam/io/avizo_io.py | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/skbeam/io/avizo_io.py b/skbeam/io/avizo_io.py
index 698ff0c..762a456 100644
--- a/skbeam/io/avizo_io.py
+++ b/skbeam/io/avizo_io.py
@@ -21,15 +21,15 @@ def _read_amira(src_file):
     am_header : list of strings
         This list contains all of the raw information contained in the
         AmiraMesh file header. Contains all of the raw header information
-    am_data : str
+    am_data : bytes
         A compiled string containing all of the image array data, that was
         stored in the source AmiraMesh data file. Contains the raw image data
     """
     am_header = []
     am_data = []
-    with open(os.path.normpath(src_file), "r") as input_file:
+    with open(os.path.normpath(src_file), "rb") as input_file:
         while True:
-            line = input_file.readline()
+            line = input_file.readline().decode("latin-1")
             am_header.append(line)
             if line == "# Data section follows\n":
                 input_file.readline()
@@ -48,8 +48,8 @@ def _amira_data_to_numpy(am_data, header_dict, flip_z=True):
 
     Parameters
     ----------
-    am_data : str
-        String object containing all of the image array data, formatted as IEEE
+    am_data : bytes
+        Bytes object containing all of the image array data, formatted as IEEE
         binary. Current dType options include:
             float
             short
@@ -85,27 +85,26 @@ def _amira_data_to_numpy(am_data, header_dict, flip_z=True):
     # Dictionary of the encoding types for AmiraMesh files
     am_format_dict = {"BINARY-LITTLE-ENDIAN": "<", "BINARY": ">", "ASCII": "unknown"}
     # Dictionary of the data types encountered so far in AmiraMesh files
-    am_dtype_dict = {"float": "f4", "short": "h4", "ushort": "H4", "byte": "b"}
+    am_dtype_dict = {"float": "f4", "short": "i2", "ushort": "u2", "byte": "b"}
     # Had to split out the stripping of new line characters and conversion
     # of the original string data based on whether source data is BINARY
     # format or ASCII format. These format types require different stripping
     # tools and different string conversion tools.
-    if header_dict["data_format"] == "BINARY-LITTLE-ENDIAN":
-        data_strip = am_data.strip("\n")
-        flt_values = np.fromstring(
-            data_strip, (am_format_dict[header_dict["data_format"]] + am_dtype_dict[header_dict["data_type"]])
-        )
+    count = Zdim * Ydim * Xdim
     if header_dict["data_format"] == "ASCII":
-        data_strip = am_data.translate(None, "\n")
-        string_list = data_strip.split(" ")
-        string_list = string_list[0 : (len(string_list) - 2)]
+        string_list = am_data.split()[:count]
         flt_values = np.array(string_list).astype(am_dtype_dict[header_dict["data_type"]])
+    else:
+        # the data may be followed by new line characters
+        flt_values = np.frombuffer(
+            am_data,
+            am_format_dict[header_dict["data_format"]] + am_dtype_dict[header_dict["data_type"]],
+            count=count,
+        ).copy()
     # Resize the 1D array to the correct ndarray dimensions
-    # Note that resize is in-place whereas reshape is not
-    flt_values.resize(Zdim, Ydim, Xdim)
-    output = flt_values
+    output = flt_values.reshape(Zdim, Ydim, Xdim)
     if flip_z:
-        output = flt_values[::-1, ..., ...]
+        output = output[::-1]
     return output
 
 
@@ -131,8 +130,8 @@ def _clean_amira_header(header_list):
     """
     clean_header = []
     for row in header_list:
-        split_header = filter(None, [word.translate(None, ',"') for word in row.strip("\n").split()])
-        clean_header.append(split_header)
+        words = [word.replace(",", "").replace('"', "") for word in row.split()]
+        clean_header.append([word for word in words if word])
     return clean_header
 
 
-- 
2.43.0


From 8256e29d8880546d470cdc6b1c0935c20c79a794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:54 +0000
Subject: [PATCH 45/85] fix: load_amiramesh raises an error for a file without
 data section instead of reading forever

---
 skbeam/io/avizo_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/io/avizo_io.py b/skbeam/io/avizo_io.py
index 762a456..f2d5bf4 100644
--- a/skbeam/io/avizo_io.py
+++ b/skbeam/io/avizo_io.py
@@ -30,6 +30,8 @@ def _read_amira(src_file):
     with open(os.path.normpath(src_file), "rb") as input_file:
         while True:
             line = input_file.readline().decode("latin-1")
+            if not line:
+                raise ValueError("{} has no data section".format(src_file))
             am_header.append(line)
             if line == "# Data section follows\n":
                 input_file.readline()
-- 
2.43.0


From 5f7c9a8d9bc4b8ebc1079f38bcafe9b125f6098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:10 +0000
Subject: [PATCH 46/85] fix: load_netCDF reads files whose scale factor is 1

---
 skbeam/io/net_cdf_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/io/net_cdf_io.py b/skbeam/io/net_cdf_io.py
index 58ad9cc..f18457d 100644
--- a/skbeam/io/net_cdf_io.py
+++ b/skbeam/io/net_cdf_io.py
@@ -69,7 +69,7 @@ def load_netCDF(file_name):
         data = src_file.variables["VOLUME"]
         md_dict = src_file.__dict__
         # Check for voxel intensity scale factor and apply if value is present
-        data /= getattr(data, "scale_factor", 1.0)
+        data = data[:] / getattr(data, "scale_factor", 1.0)
 
     # Accounts for specific case where z_pixel_size doesn't get assigned
     # even though dimensions are actuall isotropic. This occurs when
-- 
2.43.0


From 1f79b8f72a324b278a3ec49a08d16744ec462b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:51 +0000
Subject: [PATCH 47/85] fix: find_largest_peak with a window reaching over the
 start of the data

---
 skbeam/core/spectroscopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/spectroscopy.py b/skbeam/core/spectroscopy.py
index 485ffec..99c7bc8 100644
--- a/skbeam/core/spectroscopy.py
+++ b/skbeam/core/spectroscopy.py
@@ -131,7 +131,7 @@ def find_largest_peak(x, y, window=None):
     # get the bin with the largest number of counts
     j = np.argmax(y)
     if window is not None:
-        roi = slice(np.max(j - window, 0), j + window + 1)
+        roi = slice(max(j - window, 0), j + window + 1)
     else:
         roi = slice(0, -1)
 
-- 
2.43.0


From 3c5e8153ceff68d6014fb65e4341bb503470141b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:14 +0000
Subject: [PATCH 48/85] fix: ParamController names pileup parameters the way
 the model looks them up

---
 skbeam/core/fitting/xrf_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 691f997..0087cdd 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -535,7 +535,7 @@ class ParamController(object):
             self.params.update({param_name: new_pos})
         else:  # for pileup peak
             linename = "pileup_" + element.replace("-", "_")
-            param_name = linename + param_suffix  # as in lmfit Model
+            param_name = "_".join((linename, param_suffix))  # as in lmfit Model
             new_pos = PARAM_DEFAULTS[kind].copy()
             if constraint is not None:
                 self._element_strategy[param_name] = constraint
-- 
2.43.0


From 4bac0473c10ccb3bc99b1e87343bd504acd32e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:14 +0000
Subject: [PATCH 49/85] fix: assemble_models skips elements that are not
 activated at the incident energy

---
 skbeam/core/fitting/xrf_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 0087cdd..2cabe36 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1065,7 +1065,9 @@ class ModelSpectrum(object):
         self.mod = self.compton + self.elastic
 
         for element in self.elemental_lines:
-            self.mod += self.setup_element_model(element)
+            element_mod = self.setup_element_model(element)
+            if element_mod is not None:  # None if not activated at this energy
+                self.mod += element_mod
 
         # This is just a copy of the parameter list. Multiple occurrances.
         param_hints_elements = self._global_param_hints_elements_to_copy
-- 
2.43.0


From c2615cba8ab05d9c2e52daab2d61a4f0f706d181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:14 +0000
Subject: [PATCH 50/85] fix: fit_per_line_nnls without background subtraction

---
 skbeam/core/fitting/xrf_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 2cabe36..4f2f41d 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1521,7 +1521,7 @@ def fit_per_line_nnls(data, matv, param, use_snip):
             bg_sum = np.sum(bg)
             result, res = nnls_fit(y - bg, matv, weights=None)
         else:
-            result, res = nnls_fit(y - bg, matv, weights=None)
+            result, res = nnls_fit(y, matv, weights=None)
 
         sst = np.sum((y - np.mean(y)) ** 2)
         r2 = 1 - res / sst
-- 
2.43.0


From 5df03d294fa6ab0831545a1dbe44bdd75ddeb30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:14 +0000
Subject: [PATCH 51/85] fix: r squared of the pixel fits compares sums of
 squares

---
 skbeam/core/fitting/xrf_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 4f2f41d..d75cefd 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1524,7 +1524,8 @@ def fit_per_line_nnls(data, matv, param, use_snip):
             result, res = nnls_fit(y, matv, weights=None)
 
         sst = np.sum((y - np.mean(y)) ** 2)
-        r2 = 1 - res / sst
+        # nnls returns the norm of the residual
+        r2 = 1 - res**2 / sst
         result = list(result) + [bg_sum, r2]
         out.append(result)
     return np.array(out)
-- 
2.43.0


From cb58d55d61ada7c17f62454d2e18b27ee4fe349b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:14 +0000
Subject: [PATCH 52/85] fix: get_activated_lines lists all K lines, and only L
 lines for L

---
 skbeam/core/fitting/xrf_model.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index d75cefd..210d314 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1455,8 +1455,10 @@ def _get_activated_line(incident_energy, elemental_line):
         e = Element(element)
         if e.cs(incident_energy)["ka1"] == 0:
             return
-        for num, item in enumerate(e.emission_line.all[:4]):
+        for num, item in enumerate(e.emission_line.all):
             line_name = item[0]
+            if line_name not in K_TRANSITIONS:
+                continue
             if e.cs(incident_energy)[line_name] == 0:
                 continue
             line_list.append(str(element) + "_" + str(line_name))
@@ -1467,8 +1469,10 @@ def _get_activated_line(incident_energy, elemental_line):
         e = Element(element)
         if e.cs(incident_energy)["la1"] == 0:
             return
-        for num, item in enumerate(e.emission_line.all[4:-4]):
+        for num, item in enumerate(e.emission_line.all):
             line_name = item[0]
+            if line_name not in L_TRANSITIONS:
+                continue
             if e.cs(incident_energy)[line_name] == 0:
                 continue
             line_list.append(str(element) + "_" + str(line_name))
@@ -1479,8 +1483,10 @@ def _get_activated_line(incident_energy, elemental_line):
         e = Element(element)
         if e.cs(incident_energy)["ma1"] == 0:
             return
-        for num, item in enumerate(e.emission_line.all[-4:]):
+        for num, item in enumerate(e.emission_line.all):
             line_name = item[0]
+            if line_name not in M_TRANSITIONS:
+                continue
             if e.cs(incident_energy)[line_name] == 0:
                 continue
             line_list.append(str(element) + "_" + str(line_name))
-- 
2.43.0


From a9c3838314df0003c1956dd9b21d70bf60d374b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:14 +0000
Subject: [PATCH 53/85] fix: set_default under Python 3.11 and later

---
 skbeam/core/fitting/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/models.py b/skbeam/core/fitting/models.py
index 330ad4f..1687524 100644
--- a/skbeam/core/fitting/models.py
+++ b/skbeam/core/fitting/models.py
@@ -65,7 +65,7 @@ def set_default(model_name, func_name):
     func_name : function
         function name of physics peak
     """
-    paras = inspect.getargspec(func_name)
+    paras = inspect.getfullargspec(func_name)
 
     # the first argument is independent variable, also ignored
     # default values are not considered for fitting in this function
-- 
2.43.0


From db3072e8358bbc01a400bc90eea8dbdeeee503bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:38 +0000
Subject: [PATCH 54/85] fix: logical_sub with the first array as output

The first step overwrote x1 before the last one used it.
---
 skbeam/core/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/arithmetic.py b/skbeam/core/arithmetic.py
index f9144a8..089af0e 100644
--- a/skbeam/core/arithmetic.py
+++ b/skbeam/core/arithmetic.py
@@ -164,4 +164,4 @@ def logical_sub(x1, x2, out=None):
            [False, False, False, False, False],
            [ True, False,  True, False,  True]], dtype=bool)
     """
-    return logical_and(x1, logical_not(logical_and(x1, x2, out), out), out)
+    return logical_and(x1, logical_not(x2), out)
-- 
2.43.0


From e3858fee84a96c40327683a0455de893a8cf1fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:38 +0000
Subject: [PATCH 55/85] fix: subtract_reference_images of unsigned images does
 not wrap around

---
 skbeam/core/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 055bae3..b8c6845 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -457,7 +457,8 @@ def subtract_reference_images(imgs, is_reference):
             ref_imge = imgs
             continue
         # else, do the subtraction
-        corrected_image.append(imgs - ref_imge)
+        # (unsigned images must not wrap around where the reference is brighter)
+        corrected_image.append(np.subtract(imgs, ref_imge, dtype=np.result_type(imgs, ref_imge, np.int8)))
 
     # return the output as a list
     return list(corrected_image)
-- 
2.43.0


From 48bea54d0d8af87f93eadee0c3e7dac0a6ac7bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:38 +0000
Subject: [PATCH 56/85] fix: default bins of bin_grid include the pixels with
 the largest radii

---
 skbeam/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index b8c6845..63f9638 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -1252,7 +1252,7 @@ def bin_grid(image, r_array, pixel_sizes, statistic="mean", mask=None, bins=None
         mask = np.ones(image.shape, dtype=int).astype(bool)
     if bins is None:
         res = np.hypot(*pixel_sizes)
-        bins = np.arange(np.min(r_array) - res * 0.5, np.max(r_array) + res * 0.5, res)
+        bins = np.arange(np.min(r_array) - res * 0.5, np.max(r_array) + res, res)
 
     int_stat, bin_edge, bin_num = sts.binned_statistic(r_array[mask], image[mask], statistic=statistic, bins=bins)
 
-- 
2.43.0


From ed9fc29ae9f02eae65ff1ae6dc7c74783e9e8f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:38 +0000
Subject: [PATCH 57/85] fix: construct_circ_avg_image honours left and right

The default of left is now the value at the minimum radius, which is what the
function always did.
---
 skbeam/core/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/image.py b/skbeam/core/image.py
index cc8e8bf..3f14c44 100644
--- a/skbeam/core/image.py
+++ b/skbeam/core/image.py
@@ -101,7 +101,7 @@ def _corr_ax1(input_image):
     return np.histogram(est_by_row, bins=np.arange(0, dim + 1))
 
 
-def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_size=(1, 1), left=0, right=0):
+def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_size=(1, 1), left=None, right=0):
     """
     Constructs a 2D image from circular averaged data
     where radii are given in units of pixels.
@@ -169,7 +169,7 @@ def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_s
         center = (dims[0] - 1) / 2.0, (dims[1] - 1) / 2.0
 
     radial_val = utils.radial_grid(center, dims, pixel_size)
-    CIMG = np.interp(radial_val, radii, intensities, right=0)
+    CIMG = np.interp(radial_val, radii, intensities, left=left, right=right)
 
     return CIMG
 
-- 
2.43.0


From a41e5505305c22d255273a1acd7ad7667405d8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:38 +0000
Subject: [PATCH 58/85] fix: construct_rphi_avg_image does not modify image and
 angles of the caller

It also accepts a mask for integer images, and raises the intended ValueError
for a mask of the wrong shape when no output shape is given.
---
 skbeam/core/image.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/image.py b/skbeam/core/image.py
index 3f14c44..98e33a6 100644
--- a/skbeam/core/image.py
+++ b/skbeam/core/image.py
@@ -229,11 +229,11 @@ def construct_rphi_avg_image(radii, angles, image, mask=None, center=None, shape
                 raise ValueError(
                     "Mask shape ({}, {}) ".format(*mask.shape)
                     + "does not match expected"
-                    + " shape of ({},{})".format(*shape)
+                    + " shape of ({},{})".format(*image.shape)
                 )
             else:
                 raise ValueError("Mask not right dimensions." "Expected 2 got {}".format(mask.ndim))
-        image[np.where(mask == 0)] = np.nan
+        image = np.where(mask == 0, np.nan, image)
     if shape is None:
         if center is not None:
             raise ValueError(
@@ -254,7 +254,7 @@ def construct_rphi_avg_image(radii, angles, image, mask=None, center=None, shape
 
     # 1.a : subtract minimum
     anglemin = angles[0]
-    angles -= anglemin
+    angles = angles - anglemin
     # 1.b : modulo 2*pi
     angles = angles % (2 * np.pi)
     # 1.c : find any extra cross-overs and ignore them
-- 
2.43.0


From d882a9bd4b517459c278890536b917ab772101a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:38 +0000
Subject: [PATCH 59/85] fix: poisson_dist of integers does not overflow at
 large counts

---
 skbeam/core/fitting/lineshapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/fitting/lineshapes.py b/skbeam/core/fitting/lineshapes.py
index cf1c418..4898960 100644
--- a/skbeam/core/fitting/lineshapes.py
+++ b/skbeam/core/fitting/lineshapes.py
@@ -49,7 +49,7 @@ import logging
 import numpy as np
 import scipy.special
 from scipy import stats
-from scipy.special import gamma, gammaln
+from scipy.special import gammaln, xlogy
 
 logger = logging.getLogger(__name__)
 
@@ -497,5 +497,5 @@ def poisson_dist(bin_values, K):
         P(K) = \\frac{<K>^K}{K!}\\exp(-<K>)
     """
 
-    poisson_dist = np.exp(-K) * np.power(K, bin_values) / gamma(bin_values + 1)
+    poisson_dist = np.exp(xlogy(bin_values, K) - K - gammaln(bin_values + 1))
     return poisson_dist
-- 
2.43.0


From ea43a2c04aa9d9096e45d1ed72f6ac673bcb5bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:38 +0000
Subject: [PATCH 60/85] fix: peak filters and refinement without any candidate
 return empty arrays

---
 skbeam/core/feature.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/feature.py b/skbeam/core/feature.py
index 234724f..15a3700 100644
--- a/skbeam/core/feature.py
+++ b/skbeam/core/feature.py
@@ -136,6 +136,8 @@ def peak_refinement(x, y, cands, window, refine_function, refine_args=None):
         else:
             out_tmp.append(ret)
 
+    if not out_tmp:
+        return np.array([]), np.array([])
     return tuple([np.array(_) for _ in zip(*out_tmp)])
 
 
@@ -241,7 +243,7 @@ def filter_n_largest(y, cands, N):
     cands : array
         An array of the indices of up to the N largest candidates
     """
-    cands = np.asarray(cands)
+    cands = np.asarray(cands, dtype=int)
     N = int(N)
     if N <= 0:
         raise ValueError("The maximum number of peaks to return must " "be positive not {}".format(N))
@@ -290,7 +292,7 @@ def filter_peak_height(y, cands, thresh, window=5):
         if pk_hght > thresh:
             out_tmp.append(ind)
 
-    return np.array(out_tmp)
+    return np.array(out_tmp, dtype=int)
 
 
 # add our refinement functions as an attribute on peak_refinement
-- 
2.43.0


From 43b227a9ece7785f8f4969b314f42c4cba4c1be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:38 +0000
Subject: [PATCH 61/85] fix: refine_center moves rows and columns the right way
 round

The angle is measured from the column axis; the shifts of rows and columns
were exchanged.
---
 skbeam/core/calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/calibration.py b/skbeam/core/calibration.py
index 6b1b4a8..f5bbc56 100644
--- a/skbeam/core/calibration.py
+++ b/skbeam/core/calibration.py
@@ -227,7 +227,7 @@ def refine_center(
     # this is doing just one term of a Fourier series
     # note that we have to convert _back_ to pixels from real units
     # TODO do this with better integration/handle repeat better
-    col_shift = np.sum(np.sin(phi_centers) * mean_dr) * delta / (np.pi * pixel_size[1])
-    row_shift = np.sum(np.cos(phi_centers) * mean_dr) * delta / (np.pi * pixel_size[0])
+    col_shift = np.sum(np.cos(phi_centers) * mean_dr) * delta / (np.pi * pixel_size[1])
+    row_shift = np.sum(np.sin(phi_centers) * mean_dr) * delta / (np.pi * pixel_size[0])
 
     return tuple(np.array(calibrated_center) + np.array([row_shift, col_shift]))
-- 
2.43.0


From abd75763f7d8529d26b38cb12fa341fcfece1795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:38 +0000
Subject: [PATCH 62/85] fix: sgolay2d of unsigned images pads the borders
 without wrapping around

---
 skbeam/core/smoothing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skbeam/core/smoothing.py b/skbeam/core/smoothing.py
index 8cfc6d0..c048154 100644
--- a/skbeam/core/smoothing.py
+++ b/skbeam/core/smoothing.py
@@ -69,6 +69,9 @@ def sgolay2d(image, window_size, order, derivative=None):
 
     half_size = window_size // 2
 
+    # differences of unsigned pixels would wrap around
+    image = np.asarray(image, dtype=np.float64)
+
     # exponents of the polynomial.
     # p(x,y) = a0 + a1*x + a2*y + a3*x^2 + a4*y^2 + a5*x*y + ...
     # this line gives a list of two item tuple. Each tuple contains
-- 
2.43.0


From d55eca7c1f8bb35375c478349547a53b72748643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:32 +0000
Subject: [PATCH 63/85] fix: refuse an unknown statistic name instead of
 returning uninitialised memory

---
 skbeam/core/accumulators/binned_statistic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 8069d4c..9578595 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -338,6 +338,8 @@ class BinnedStatisticDD(object):
                 if k > 0:
                     self.result[j] = internal_statistic(vfs[i : i + k])
                 i += k
+        else:
+            raise ValueError("invalid statistic %r" % (statistic,))
 
         # Shape into a proper matrix
         self.result = self.result.reshape(np.sort(self.nbin))
-- 
2.43.0


From 16732022ac5e6a157cb6b745286e3f1fa06f9765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 64/85] fix: bin sums of integer pixels in floating point
 instead of wrapping around in the pixel type

---
 skbeam/core/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 63f9638..19d8c6e 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -564,7 +564,9 @@ def bin_1D(x, y, nx=None, min_x=None, max_x=None):
 
     # use a weighted histogram to get the bin sum
     bins = np.linspace(start=min_x, stop=max_x, num=nx + 1, endpoint=True)
-    val, _ = np.histogram(a=x, bins=bins, weights=y)
+    # (summed in floating point: small integer types would wrap around)
+    y = np.asarray(y)
+    val, _ = np.histogram(a=x, bins=bins, weights=y.astype(np.result_type(y, float)))
     # use an un-weighted histogram to get the counts
     count, _ = np.histogram(a=x, bins=bins)
     # return the three arrays
-- 
2.43.0


From d5ff4de142543ad720c05a6ba5f1f74fe42f8e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 65/85] fix: find the ring center of integer images without
 overflow in the autocorrelation

---
 skbeam/core/image.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/core/image.py b/skbeam/core/image.py
index 98e33a6..c47d47e 100644
--- a/skbeam/core/image.py
+++ b/skbeam/core/image.py
@@ -93,6 +93,8 @@ def _corr_ax1(input_image):
     bins : ndarray
         Bin edges for the vals histogram
     """
+    # correlate in floating point: integer pixels would wrap around
+    input_image = np.asarray(input_image, dtype=float)
     dim = input_image.shape[1]
     m_ones = np.ones(dim)
     norm_mask = np.correlate(m_ones, m_ones, mode="full")
-- 
2.43.0


From 25fd2d2a586e9dc2b9eadfa04f685d28391c7e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 66/85] fix: sum integer speckle images without wrapping around
 in the pixel type

---
 skbeam/core/speckle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index d043ce6..4dc670e 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -174,7 +174,8 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
             cur[0] = (1 + cur[0]) % timebin_num
             # read each frame
             # Put the image into the ring buffer.
-            buf[0, cur[0] - 1] = (np.ravel(img))[indices]
+            # (in floating point: sums of integer pixels would wrap around)
+            buf[0, cur[0] - 1] = np.asarray(np.ravel(img)[indices], dtype=float)
 
             _process(
                 num_roi,
-- 
2.43.0


From 3d7107366586727f87905223be5b808a70d688c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 67/85] fix: return the maximum counts as a plain number, so
 that bin edges derived from it do not wrap around

---
 skbeam/core/roi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index d7c5eec..343cffd 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -329,7 +329,8 @@ def roi_max_counts(images_sets, label_array):
     max_cts = 0
     for img_set in images_sets:
         for img in img_set:
-            max_cts = max(max_cts, ndimage.maximum(img, label_array))
+            # a plain number: counts derived from it must not wrap around
+            max_cts = max(max_cts, np.asarray(ndimage.maximum(img, label_array)).item())
     return max_cts
 
 
-- 
2.43.0


From 7c02d250a9f5c2e29ac4a0fee8534593096dc503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 68/85] fix: refine peaks of small integer data (the logarithm
 was taken in half precision)

---
 skbeam/core/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/feature.py b/skbeam/core/feature.py
index 15a3700..d3fcdb5 100644
--- a/skbeam/core/feature.py
+++ b/skbeam/core/feature.py
@@ -212,7 +212,7 @@ def refine_log_quadratic(x, y, Rval_thresh=None):
        interval
 
     """
-    beta, R2 = fit_quad_to_peak(x, np.log(y))
+    beta, R2 = fit_quad_to_peak(x, np.log(np.asarray(y, dtype=float)))
     if Rval_thresh is not None and R2 < Rval_thresh:
         raise PeakRejection()
 
-- 
2.43.0


From 4cbf833fe63cd83e5c735a3b4fd51b9e04597070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 69/85] fix: fit the largest peak of small integer spectra (the
 logarithm was taken in half precision)

---
 skbeam/core/spectroscopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/spectroscopy.py b/skbeam/core/spectroscopy.py
index 99c7bc8..bff59c0 100644
--- a/skbeam/core/spectroscopy.py
+++ b/skbeam/core/spectroscopy.py
@@ -135,7 +135,7 @@ def find_largest_peak(x, y, window=None):
     else:
         roi = slice(0, -1)
 
-    (w, x0, y0), r2 = fit_quad_to_peak(x[roi], np.log(y[roi]))
+    (w, x0, y0), r2 = fit_quad_to_peak(x[roi], np.log(np.asarray(y[roi], dtype=float)))
     return x0, np.exp(y0), 1 / np.sqrt(-2 * w)
 
 
-- 
2.43.0


From 9cc62a81947c2d362b229fcd6e3c98b1350e9cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 70/85] fix: medians of small integer data without wrapping
 around

---
 skbeam/core/stats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/core/stats.py b/skbeam/core/stats.py
index 71ae1eb..6b772d1 100644
--- a/skbeam/core/stats.py
+++ b/skbeam/core/stats.py
@@ -88,6 +88,8 @@ def statistics_1D(x, y, stat="mean", nx=None, min_x=None, max_x=None):
     # use a weighted histogram to get the bin sum
     bins = np.linspace(start=min_x, stop=max_x, num=nx + 1, endpoint=True)
 
+    # small integer types would wrap around in the median
+    y = np.asarray(y, dtype=float)
     val, _, _ = scipy.stats.binned_statistic(x, y, statistic=stat, bins=bins)
     # return the two arrays
     return bins, val
-- 
2.43.0


From 60161f257fcc32faeacef6bcaea7dcf8faa291c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 71/85] fix: weights of small integer types are not rooted in
 half precision

---
 skbeam/core/fitting/xrf_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 210d314..bc8cad6 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1332,6 +1332,7 @@ def nnls_fit(spectrum, expected_matrix, weights=None):
     .. note:: nnls is chosen as amplitude of each element should not be negative.
     """
     if weights is not None:
+        weights = np.asarray(weights, dtype=float)
         expected_matrix = np.transpose(np.multiply(np.transpose(expected_matrix), np.sqrt(weights)))
         spectrum = np.multiply(spectrum, np.sqrt(weights))
     return nnls(expected_matrix, spectrum)
-- 
2.43.0


From cb442a80a16e31fcd02494337f888dcad958c48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:05 +0000
Subject: [PATCH 72/85] fix: radial medians of small integer images without
 wrapping around

---
 skbeam/core/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 19d8c6e..4c68cc3 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -1256,7 +1256,9 @@ def bin_grid(image, r_array, pixel_sizes, statistic="mean", mask=None, bins=None
         res = np.hypot(*pixel_sizes)
         bins = np.arange(np.min(r_array) - res * 0.5, np.max(r_array) + res, res)
 
-    int_stat, bin_edge, bin_num = sts.binned_statistic(r_array[mask], image[mask], statistic=statistic, bins=bins)
+    # small integer types would wrap around in the median
+    values = np.asarray(image[mask], dtype=float)
+    int_stat, bin_edge, bin_num = sts.binned_statistic(r_array[mask], values, statistic=statistic, bins=bins)
 
     bin_centers = bin_edges_to_centers(bin_edge)
 
-- 
2.43.0


From 7c4f2bd3b080f1dc0c752187c526b1794616c133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 73/85] fix: peak profiles of integer channel numbers without
 wrapping around in the integer type

---
 skbeam/core/fitting/lineshapes.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/skbeam/core/fitting/lineshapes.py b/skbeam/core/fitting/lineshapes.py
index 4898960..b23f0ff 100644
--- a/skbeam/core/fitting/lineshapes.py
+++ b/skbeam/core/fitting/lineshapes.py
@@ -111,7 +111,7 @@ def lorentzian2(x, area, center, sigma):
         standard deviation
     """
 
-    return (area / (1 + ((x - center) / sigma) ** 2) ** 2) / (np.pi * sigma)
+    return (area / (1 + ((1.0 * x - center) / sigma) ** 2) ** 2) / (np.pi * sigma)
 
 
 def voigt(x, area, center, sigma, gamma=None):
@@ -135,7 +135,7 @@ def voigt(x, area, center, sigma, gamma=None):
     """
     if gamma is None:
         gamma = sigma
-    z = (x - center + 1j * gamma) / (sigma * s2)
+    z = (1.0 * x - center + 1j * gamma) / (sigma * s2)
     return area * scipy.special.wofz(z).real / (sigma * s2pi)
 
 
@@ -189,7 +189,7 @@ def gausssian_step(x, area, center, sigma, peak_e):
         (Practical Spectroscopy)", CRC Press, 2 edition, pp. 182, 2007.
     """
 
-    return area * scipy.special.erfc((x - center) / (np.sqrt(2) * sigma)) / (2.0 * peak_e)
+    return area * scipy.special.erfc((1.0 * x - center) / (np.sqrt(2) * sigma)) / (2.0 * peak_e)
 
 
 def gaussian_tail(x, area, center, sigma, gamma):
@@ -222,12 +222,12 @@ def gaussian_tail(x, area, center, sigma, gamma):
         (Practical Spectroscopy)", CRC Press, 2 edition, pp. 182, 2007.
     """
 
-    dx_neg = np.array(x) - center
+    dx_neg = 1.0 * np.array(x) - center
     dx_neg[dx_neg > 0] = 0
 
     temp_a = np.exp(dx_neg / (gamma * sigma))
 
-    v1 = scipy.special.erfc((x - center) / (np.sqrt(2) * sigma) + (1 / (gamma * np.sqrt(2))))
+    v1 = scipy.special.erfc((1.0 * x - center) / (np.sqrt(2) * sigma) + (1 / (gamma * np.sqrt(2))))
     v2 = 2 * gamma * sigma * np.exp(-0.5 / (gamma**2))
     counts = area * temp_a * (v1 / v2)
 
@@ -276,6 +276,7 @@ def elastic(
         elastic peak
     """
 
+    x = 1.0 * x
     x = e_offset + x * e_linear + x**2 * e_quadratic
 
     temp_val = 2 * np.sqrt(2 * np.log(2))
@@ -356,6 +357,7 @@ def compton(
         2003.
     """
 
+    x = 1.0 * x
     x = e_offset + x * e_linear + x**2 * e_quadratic
 
     # the rest-mass energy of an electron (511 keV)
-- 
2.43.0


From 41e62eb401328acd220f48886e3744ca28646c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 74/85] fix: count distributions at small integer bin values
 without wrapping around or losing precision

---
 skbeam/core/fitting/lineshapes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/core/fitting/lineshapes.py b/skbeam/core/fitting/lineshapes.py
index b23f0ff..0902921 100644
--- a/skbeam/core/fitting/lineshapes.py
+++ b/skbeam/core/fitting/lineshapes.py
@@ -466,6 +466,7 @@ def nbinom_dist(bin_values, K, M):
         vol 21, p 1288-1295, 2014.
 
     """
+    bin_values = 1.0 * bin_values
     co_eff = np.exp(gammaln(bin_values + M) - gammaln(bin_values + 1) - gammaln(M))
 
     nbinom = co_eff * np.power(M / (K + M), M) * np.power(K / (M + K), bin_values)
@@ -499,5 +500,6 @@ def poisson_dist(bin_values, K):
         P(K) = \\frac{<K>^K}{K!}\\exp(-<K>)
     """
 
+    bin_values = 1.0 * bin_values
     poisson_dist = np.exp(xlogy(bin_values, K) - K - gammaln(bin_values + 1))
     return poisson_dist
-- 
2.43.0


From 47b056a30ade37666e0e782166c3fd38251f3db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 75/85] fix: fluorescence peaks of small integer channel
 numbers without wrapping around

---
 skbeam/core/fitting/xrf_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index bc8cad6..6574ba3 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -154,6 +154,7 @@ def element_peak_xrf(
         temp_val = 2 * np.sqrt(2 * np.log(2))
         return np.sqrt((fwhm_offset / temp_val) ** 2 + center * epsilon * fwhm_fanoprime)
 
+    x = 1.0 * x
     x = e_offset + x * e_linear + x**2 * e_quadratic
 
     return (
-- 
2.43.0


From 793fa30f5898a8942df2a5f268baf54eba687c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:00 +0000
Subject: [PATCH 76/85] fix: fit the quadratic at small integer positions
 without wrapping around

---
 skbeam/core/fitting/funcs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skbeam/core/fitting/funcs.py b/skbeam/core/fitting/funcs.py
index 51eff98..6cab2e8 100644
--- a/skbeam/core/fitting/funcs.py
+++ b/skbeam/core/fitting/funcs.py
@@ -26,6 +26,7 @@ def fit_quad_to_peak(x, y):
 
     """
 
+    x = np.asarray(x, dtype=float)
     lenx = len(x)
 
     # some sanity checks
-- 
2.43.0


From c37893e00cb5816b7b79f4d300f127f139deaafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:00 +0000
Subject: [PATCH 77/85] fix: energy axis of small integer channel numbers
 without wrapping around

---
 skbeam/core/fitting/xrf_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 6574ba3..156b435 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1395,6 +1395,7 @@ def linear_spectrum_fitting(x, y, params, elemental_lines=None, weights=None):
     total_y = out * matv
     total_y = np.transpose(total_y)
 
+    x = 1.0 * x
     x_energy = (
         params["e_offset"]["value"] + params["e_linear"]["value"] * x + params["e_quadratic"]["value"] * x**2
     )
-- 
2.43.0


From 1610836c5ba765a058401af197d2c68617cc7e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:47 +0000
Subject: [PATCH 78/85] fix: count the largest value of integer positions near
 the limit of their type

---
 skbeam/core/accumulators/binned_statistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 9578595..0511d80 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -177,7 +177,7 @@ class BinnedStatisticDD(object):
             # Find which points are on the rightmost edge.
             on_edge = np.where(
                 (sample[:, i] >= self.edges[i][-1])
-                & (np.around(sample[:, i], decimal) == np.around(self.edges[i][-1], decimal))
+                & (np.around(1.0 * sample[:, i], decimal) == np.around(self.edges[i][-1], decimal))
             )[0]
             # Shift these points one bin to the left.
             Ncount[i][on_edge] -= 1
-- 
2.43.0


From 8a5e5c849e6309adb4ac372563ce454199fb545d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:47 +0000
Subject: [PATCH 79/85] fix: centers of integer bin edges without wrapping
 around

---
 skbeam/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 4c68cc3..fcd1f27 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -980,7 +980,7 @@ def bin_edges_to_centers(input_edges):
         A length N array giving the centers of the bins
     """
     input_edges = np.asarray(input_edges)
-    return (input_edges[:-1] + input_edges[1:]) * 0.5
+    return input_edges[:-1] * 0.5 + input_edges[1:] * 0.5
 
 
 # https://docs.python.org/2/library/itertools.html#recipes
-- 
2.43.0


From 3ef54ffb60eed97088614aa56a3176620371a976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:48 +0000
Subject: [PATCH 80/85] fix: negative binomial distribution of large counts
 without overflow

---
 skbeam/core/fitting/lineshapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/fitting/lineshapes.py b/skbeam/core/fitting/lineshapes.py
index 0902921..c93d8ea 100644
--- a/skbeam/core/fitting/lineshapes.py
+++ b/skbeam/core/fitting/lineshapes.py
@@ -467,9 +467,9 @@ def nbinom_dist(bin_values, K, M):
 
     """
     bin_values = 1.0 * bin_values
-    co_eff = np.exp(gammaln(bin_values + M) - gammaln(bin_values + 1) - gammaln(M))
+    log_co_eff = gammaln(bin_values + M) - gammaln(bin_values + 1) - gammaln(M)
 
-    nbinom = co_eff * np.power(M / (K + M), M) * np.power(K / (M + K), bin_values)
+    nbinom = np.exp(log_co_eff + M * np.log(M / (K + M)) + xlogy(bin_values, K / (M + K)))
     return nbinom
 
 
-- 
2.43.0


From 2a3d3c1448a74702cdf46e5aaa3f741d94027e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:18 +0000
Subject: [PATCH 81/85] fix: load AmiraMesh volumes that are one voxel wide

---
 skbeam/io/avizo_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/io/avizo_io.py b/skbeam/io/avizo_io.py
index f2d5bf4..9264a33 100644
--- a/skbeam/io/avizo_io.py
+++ b/skbeam/io/avizo_io.py
@@ -206,7 +206,8 @@ def _create_md_dict(clean_header):
                     resolution_list.append(0)
             # isotropy determination (isotropic res, or anisotropic res)
             if (
-                resolution_list[1] / resolution_list[0] > 0.99
+                resolution_list[0] != 0
+                and resolution_list[1] / resolution_list[0] > 0.99
                 and resolution_list[2] / resolution_list[0] > 0.99
                 and resolution_list[1] / resolution_list[0] < 1.01
                 and resolution_list[2] / resolution_list[0] < 1.01
-- 
2.43.0


From 2c8db22081e79b29c5c535c693887593d32ee258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:17 +0000
Subject: [PATCH 82/85] fix: xsvs probabilities of many bins are not squared in
 place

---
 skbeam/core/speckle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index 4dc670e..17d37fc 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -225,7 +225,10 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
         prob_k_all += (prob_k - prob_k_all) / (i + 1)
         prob_k_pow_all += (prob_k_pow - prob_k_pow_all) / (i + 1)
 
-    prob_k_std_dev = np.power((prob_k_pow_all - np.power(prob_k_all, 2)), 0.5)
+    # element by element: numpy may reuse (and so overwrite) the arrays held in
+    # an object array as temporaries of such an expression
+    for i, j in np.ndindex(prob_k_std_dev.shape):
+        prob_k_std_dev[i, j] = np.sqrt(prob_k_pow_all[i, j] - prob_k_all[i, j] ** 2)
 
     logger.info("Processing time for XSVS took %s seconds." "", (time.time() - start_time))
     return prob_k_all, prob_k_std_dev
-- 
2.43.0


From c8fa156b073810a476a4a6d321dc86b7a45466ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:43 +0000
Subject: [PATCH 83/85] fix: peak heights of signed integer data do not wrap
 around

---
 skbeam/core/feature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/feature.py b/skbeam/core/feature.py
index d3fcdb5..be8aefc 100644
--- a/skbeam/core/feature.py
+++ b/skbeam/core/feature.py
@@ -283,7 +283,8 @@ def filter_peak_height(y, cands, thresh, window=5):
         An array of the indices which pass the filter
 
     """
-    y = np.asarray(y)
+    # heights of signed integers would wrap around
+    y = np.asarray(y, dtype=float)
     out_tmp = deque()
     max_ind = len(y)
     for ind in cands:
-- 
2.43.0


From 660428558dda092efe1f1125f9564a0b50e758d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:43 +0000
Subject: [PATCH 84/85] fix: differences to reference images of signed integers
 do not wrap around

---
 skbeam/core/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index fcd1f27..df67f6e 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -457,8 +457,11 @@ def subtract_reference_images(imgs, is_reference):
             ref_imge = imgs
             continue
         # else, do the subtraction
-        # (unsigned images must not wrap around where the reference is brighter)
-        corrected_image.append(np.subtract(imgs, ref_imge, dtype=np.result_type(imgs, ref_imge, np.int8)))
+        # (integer images must not wrap around where the reference is brighter)
+        dtype = np.result_type(imgs, ref_imge)
+        if dtype.kind in "iu" and dtype.itemsize < 8:
+            dtype = np.dtype("i%d" % (2 * dtype.itemsize))
+        corrected_image.append(np.subtract(imgs, ref_imge, dtype=np.result_type(dtype, np.int8)))
 
     # return the output as a list
     return list(corrected_image)
-- 
2.43.0


From 263757e0d0e4a286cec6f7a757b69c6a82fa91d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:26 +0000
Subject: [PATCH 85/85] fix: one undefined or huge value in bin_1D spoiled the
 sums of all bins

---
 skbeam/core/utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index df67f6e..3548cd4 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -565,13 +565,21 @@ def bin_1D(x, y, nx=None, min_x=None, max_x=None):
     if nx is None:
         nx = int(max_x - min_x)
 
-    # use a weighted histogram to get the bin sum
     bins = np.linspace(start=min_x, stop=max_x, num=nx + 1, endpoint=True)
     # (summed in floating point: small integer types would wrap around)
     y = np.asarray(y)
-    val, _ = np.histogram(a=x, bins=bins, weights=y.astype(np.result_type(y, float)))
+    y = y.astype(np.result_type(y, float))
+    if np.shape(x) != y.shape:
+        raise ValueError("x and y must have the same shape")
     # use an un-weighted histogram to get the counts
     count, _ = np.histogram(a=x, bins=bins)
+    # (each bin is summed on its own: the weighted histogram takes differences
+    # of a running sum, where one nan or one huge value spoils all other bins)
+    x, y = np.ravel(x), np.ravel(y)
+    inside = (x >= bins[0]) & (x <= bins[-1])
+    val = np.zeros(len(bins), dtype=y.dtype)
+    np.add.at(val, np.searchsorted(bins[1:-1], x[inside], side="right"), y[inside])
+    val = val[:-1]
     # return the three arrays
     return bins, val, count
 
-- 
2.43.0

