From 44bad77bb4ac7824edb37333883aa86a69001061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:44 +0000
Subject: [PATCH 01/56] fix: clear per-thread grids with a thread-private index

The loop index was declared outside the parallel region and so shared by all
threads: elements of the freshly malloc'ed grids could stay uninitialised or be
written past their end, depending on the schedule.
---
 src/ctrans.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 61f7bc0..ac963e9 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -451,11 +451,12 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
 
     if((_d2out != NULL) && (_dout != NULL) && (_nout != NULL)){
 
-      // Clear the arrays ....
-      for(j=0;j<grid_size;j++){
-        _dout[j] = 0.0;
-        _d2out[j] = 0.0;
-        _nout[j] = 0;
+      // Clear the arrays .... (the index has to be private to the thread)
+      unsigned long k;
+      for(k=0;k<grid_size;k++){
+        _dout[k] = 0.0;
+        _d2out[k] = 0.0;
+        _nout[k] = 0;
       }
 
 #pragma omp for
-- 
2.43.0


From c459da45382e84012ef90702ac239a1c376629e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:44 +0000
Subject: [PATCH 02/56] fix: base the grid standard error on the accumulated
 counts

When accumulating into caller supplied arrays, voxels without a point in the
current batch got a standard error of 0 although they hold earlier data.
---
 src/ctrans.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index ac963e9..b0c664b 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -531,7 +531,7 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
   // Calculate the stderror
 
   for(j=0;j<grid_size;j++){
-    if(threadData[0].nout[j] == 0){
+    if(nout[j] == 0){
       stderror[j] = 0.0;
     } else {
       double var = (d2out[j] - pow(dout[j], 2) / nout[j]) / nout[j];
-- 
2.43.0


From 1eee7a5c64d4a29e98f28530bdf35dcab7a19dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:44 +0000
Subject: [PATCH 03/56] fix: raise MemoryError when ccdToQ cannot allocate its
 work array

Returning NULL without an exception surfaced as a SystemError.
---
 src/ctrans.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ctrans.c b/src/ctrans.c
index b0c664b..6c8da02 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -130,6 +130,7 @@ static PyObject* ccdToQ(PyObject *self, PyObject *args, PyObject *kwargs){
   // Now create the arrays for delta-gamma pairs
   delgam = (double*)malloc(nimages * ccd.size * sizeof(double) * 2);
   if(!delgam){
+    PyErr_NoMemory();
     goto cleanup;
   }
 
-- 
2.43.0


From 374eb2e371206781e9ca61c039efd3c97b54b23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:44 +0000
Subject: [PATCH 04/56] fix: parse ignore_nan of grid3d as the int it is stored
 in

The format wrote a double over an int on the stack.
---
 src/ctrans.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 6c8da02..0472d54 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -320,7 +320,7 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
   static char *kwlist[] = { "data", "xrange", "yrange", "zrange", "ignore_nan",
                             "gridout", "grid2out", "nout", NULL };
 
-  if(!PyArg_ParseTupleAndKeywords(args, kwargs, "O(ddd)(ddd)(lll)|dOOO", kwlist,
+  if(!PyArg_ParseTupleAndKeywords(args, kwargs, "O(ddd)(ddd)(lll)|iOOO", kwlist,
 				  &_I,
 				  &grid_start[0], &grid_start[1], &grid_start[2],
 				  &grid_stop[0], &grid_stop[1], &grid_stop[2],
-- 
2.43.0


From 255d1058599ac0f79ef439d1648e8ccfe653844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:44 +0000
Subject: [PATCH 05/56] fix: allocate per-thread data for one thread when built
 without OpenMP

With a maximum of 0 threads the table of partial grids had no entries, but
entry 0 was written and read.
---
 src/ctrans.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 0472d54..4054685 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -45,7 +45,7 @@
 #else
 
 #define omp_get_thread_num() 0
-#define omp_get_max_threads() 0
+#define omp_get_max_threads() 1
 #define omp_get_num_threads() 1
 
 #endif
-- 
2.43.0


From bc780ca7b119200c7b603fe4d5c0208a4c25cc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:07 +0000
Subject: [PATCH 06/56] fix: handle a failed allocation in one gridding thread

A thread that could not allocate its partial grids skipped the work-sharing loop
that the other threads were waiting in (a hang), and what had been allocated was
leaked.
---
 src/ctrans.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 4054685..6af0f48 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -450,7 +450,21 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
     _dout = (double *)malloc(sizeof(double) * grid_size);
     _nout = (unsigned long *)malloc(sizeof(unsigned long) * grid_size);
 
-    if((_d2out != NULL) && (_dout != NULL) && (_nout != NULL)){
+    // Hand the buffers over at once, so that they are freed on error too
+    threadData[thread_num].dout = _dout;
+    threadData[thread_num].d2out = _d2out;
+    threadData[thread_num].nout = _nout;
+
+    if((_d2out == NULL) || (_dout == NULL) || (_nout == NULL)){
+#pragma omp atomic write
+      retval = 1;
+    }
+
+    // All the threads have to agree on whether to go on: the loop below
+    // has to be met by all of them or by none
+#pragma omp barrier
+
+    if(!retval){
 
       // Clear the arrays .... (the index has to be private to the thread)
       unsigned long k;
@@ -497,12 +511,6 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
           }
         }
       }
-
-      threadData[thread_num].dout = _dout;
-      threadData[thread_num].d2out = _d2out;
-      threadData[thread_num].nout = _nout;
-    } else {
-      retval = 1;
     }
 
   } // pragma parallel
-- 
2.43.0


From 32e74a1cd460f548b7b9d986d71cb8b3ea6f38e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:07 +0000
Subject: [PATCH 07/56] fix: reject grid3d arrays whose shape does not match
 the grid

Accumulation arrays smaller than the grid were written past their end, and the
second dimension of 1-D data was read without checking that it exists.
---
 src/ctrans.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 6af0f48..5cfabad 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -334,11 +334,11 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
     goto error;
   }
 
-  data_size = PyArray_DIM(gridI, 0);
-  if(PyArray_DIM(gridI, 1) != 4){
+  if(PyArray_NDIM(gridI) != 2 || PyArray_DIM(gridI, 1) != 4){
     PyErr_SetString(PyExc_ValueError, "Dimension 1 of array must be 4");
     goto error;
   }
+  data_size = PyArray_DIM(gridI, 0);
 
   dims[0] = grid_nsteps[0];
   dims[1] = grid_nsteps[1];
@@ -371,6 +371,14 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
     goto error;
   }
 
+  // Arrays to accumulate in have to be as large as the grid
+  if(PyArray_SIZE(gridout) != dims[0] * dims[1] * dims[2] ||
+     PyArray_SIZE(grid2out) != PyArray_SIZE(gridout) ||
+     PyArray_SIZE(Nout) != PyArray_SIZE(gridout)){
+    PyErr_SetString(PyExc_ValueError, "gridout, grid2out and nout must have the shape of the grid");
+    goto error;
+  }
+
   stderror = (PyArrayObject*)PyArray_SimpleNew(3, dims, NPY_DOUBLE);
   if(!stderror){
     goto error;
-- 
2.43.0


From 1bce3f289df51bc0570e74db9bd1d36bc69ae78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:07 +0000
Subject: [PATCH 08/56] fix: keep the largest points inside the default bounds
 of grid3d

The spacing of a negative number is negative, and the spacing of a small maximum
is lost when a large minimum is subtracted: in both cases the points at the upper
edge were dropped.
---
 skbeam/core/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index d7a6821..282f790 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -912,7 +912,9 @@ def grid3d(
 
     # pad the upper edge by just enough to ensure that all of the
     # points are in-bounds with the binning rules: lo <= val < hi
-    qmax += np.spacing(qmax)
+    # (in units of the larger bound, so that the padding is not lost in the
+    # difference of the bounds and is positive for negative bounds as well)
+    qmax += 4 * np.spacing(np.maximum(np.abs(qmin), np.abs(qmax)))
 
     # check for non-default input
     for target, input_vals in ((dqn, (nx, ny, nz)), (qmin, (xmin, ymin, zmin)), (qmax, (xmax, ymax, zmax))):
-- 
2.43.0


From 25e8eac500256b14af3bb8f7abdd37c53df3f177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:03 +0000
Subject: [PATCH 09/56] fix: fit the spectrum itself in fit_per_line_nnls
 without background

---
 skbeam/core/fitting/xrf_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 691f997..2b7564a 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1519,7 +1519,7 @@ def fit_per_line_nnls(data, matv, param, use_snip):
             bg_sum = np.sum(bg)
             result, res = nnls_fit(y - bg, matv, weights=None)
         else:
-            result, res = nnls_fit(y - bg, matv, weights=None)
+            result, res = nnls_fit(y, matv, weights=None)
 
         sst = np.sum((y - np.mean(y)) ** 2)
         r2 = 1 - res / sst
-- 
2.43.0


From f973a4a2a032e07053accdec579c4bc577ddd548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:03 +0000
Subject: [PATCH 10/56] fix: release the process pool when fitting a row fails

---
 skbeam/core/fitting/xrf_model.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 2b7564a..80fad61 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1568,14 +1568,16 @@ def fit_pixel_multiprocess_nnls(exp_data, matv, param, use_snip=False):
     logger.info("cpu count: {}".format(num_processors_to_use))
     pool = multiprocessing.Pool(num_processors_to_use)
 
-    result_pool = [
-        pool.apply_async(_log_and_fit, (n, data, matv, param, use_snip)) for n, data in enumerate(exp_data)
-    ]
-
-    results = [r.get() for r in result_pool]
+    try:
+        result_pool = [
+            pool.apply_async(_log_and_fit, (n, data, matv, param, use_snip)) for n, data in enumerate(exp_data)
+        ]
 
-    pool.terminate()
-    pool.join()
+        results = [r.get() for r in result_pool]
+    finally:
+        # also when a row cannot be fitted or the caller is interrupted
+        pool.terminate()
+        pool.join()
 
     return np.array(results)
 
-- 
2.43.0


From 73881b490be7aefc4a5d32f04c5b5e6ed40478f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:53 +0000
Subject: [PATCH 11/56] fix: keep the correlation state intact when a frame
 cannot be used

---
 skbeam/core/correlation.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/correlation.py b/skbeam/core/correlation.py
index e5fcc57..3d46519 100644
--- a/skbeam/core/correlation.py
+++ b/skbeam/core/correlation.py
@@ -330,11 +330,15 @@ def lazy_one_time(image_iterable, num_levels, num_bufs, labels, internal_state=N
         # Compute the correlations for all higher levels.
         level = 0
 
+        # Get the ROI pixels first: an image without them must not change
+        # the state
+        pixels = np.asarray(np.ravel(image)[s.pixel_list], dtype=s.buf.dtype)
+
         # increment buffer
         s.cur[0] = (1 + s.cur[0]) % num_bufs
 
         # Put the ROI pixels into the ring buffer.
-        s.buf[0, s.cur[0] - 1] = np.ravel(image)[s.pixel_list]
+        s.buf[0, s.cur[0] - 1] = pixels
         buf_no = s.cur[0] - 1
         # Compute the correlations between the first level
         # (undownsampled) frames. This modifies G,
@@ -576,6 +580,10 @@ def lazy_two_time(labels, images, num_frames, num_bufs, num_levels=1, two_time_i
     s = two_time_internal_state
 
     for img in images:
+        # Get the ROI pixels first: an image without them must not change
+        # the state
+        pixels = np.asarray(np.ravel(img)[s.pixel_list], dtype=s.buf.dtype)
+
         s.cur[0] = (1 + s.cur[0]) % num_bufs  # increment buffer
 
         s.count_level[0] = 1 + s.count_level[0]
@@ -584,7 +592,7 @@ def lazy_two_time(labels, images, num_frames, num_bufs, num_levels=1, two_time_i
         s = s._replace(current_img_time=(s.current_img_time + 1))
 
         # Put the image into the ring buffer.
-        s.buf[0, s.cur[0] - 1] = (np.ravel(img))[s.pixel_list]
+        s.buf[0, s.cur[0] - 1] = pixels
 
         # Compute the two time correlations between the first level
         # (undownsampled) frames. two_time and img_per_level in place!
-- 
2.43.0


From b07feeaee8b56cb8aaaaf58b0dec9f5c34209415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:53 +0000
Subject: [PATCH 12/56] fix: let the correlation states be pickled

---
 skbeam/core/correlation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skbeam/core/correlation.py b/skbeam/core/correlation.py
index 3d46519..e61b02c 100644
--- a/skbeam/core/correlation.py
+++ b/skbeam/core/correlation.py
@@ -198,6 +198,11 @@ _two_time_internal_state = namedtuple(
     ],
 )
 
+# the names under which pickle looks for these classes
+correlation_results = results
+correlation_state = _internal_state
+two_time_correlation_state = _two_time_internal_state
+
 
 def _init_state_one_time(num_levels, num_bufs, labels):
     """Initialize a stateful namedtuple for the generator-based multi-tau
-- 
2.43.0


From f9fd320177d6c31669b0caa256fe60d3491cae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:53 +0000
Subject: [PATCH 13/56] fix: let threshold work on any iterable and leave the
 given mask alone

---
 skbeam/core/mask.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index 4298d02..10789da 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -104,9 +104,12 @@ def threshold(images, threshold, mask=None):
         below marked as 1.
         shape is (num_columns, num_rows) of the image
     """
-    if mask is None:
-        mask = np.ones_like(images[0])
+    if mask is not None:
+        # do not mark pixels in the mask of the caller
+        mask = np.array(mask)
     for im in images:
+        if mask is None:
+            mask = np.ones_like(im)
         bad_pixels = np.where(im >= threshold)
         if len(bad_pixels[0]) != 0:
             mask[bad_pixels] = 0
-- 
2.43.0


From daf35b66c3babb60935131ebd306684a343c087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:57 +0000
Subject: [PATCH 14/56] fix: count points just below the upper edge in the last
 histogram bin

The division could round up to the number of bins: an IndexError half-way
through a 1-D or 2-D fill, a write past the bins of an N-D one.
---
 skbeam/core/accumulators/histogram.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/accumulators/histogram.pyx b/skbeam/core/accumulators/histogram.pyx
index b4cbd54..8f94ea3 100644
--- a/skbeam/core/accumulators/histogram.pyx
+++ b/skbeam/core/accumulators/histogram.pyx
@@ -286,7 +286,10 @@ class Histogram:
 cdef long find_indices(coordnumtype pos, double low, double high, double binsize):
     if not (low <= pos < high):
         return -1
-    return int((pos - low) / binsize)
+    cdef long idx = int((pos - low) / binsize)
+    # just below high the division can round up to the number of bins
+    cdef long last = int((high - low) / binsize + 0.5) - 1
+    return idx if idx < last else last
 
 
 cdef void fillonecy(coordnumtype xval, wnumtype weight,
-- 
2.43.0


From 25acf2cbe3b0d22825ff454678aadf56e2aab560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:57 +0000
Subject: [PATCH 15/56] fix: fill N-D histograms correctly from strided
 coordinate arrays

The N-D loop walks flat memory, so strided views were misread (and read
past their end); arrays that are not 1-D are refused as in 1-D and 2-D.
---
 skbeam/core/accumulators/histogram.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skbeam/core/accumulators/histogram.pyx b/skbeam/core/accumulators/histogram.pyx
index 8f94ea3..12d352c 100644
--- a/skbeam/core/accumulators/histogram.pyx
+++ b/skbeam/core/accumulators/histogram.pyx
@@ -207,6 +207,11 @@ class Histogram:
         cdef int aint_count = 0
         cdef cnp.float64_t* afloat_ptr[MAX_DIMENSIONS + 1]
         cdef int afloat_count = 0
+        # the loop below steps through flat memory
+        for x in coords:
+            if x.ndim != 1:
+                raise ValueError("Coordinate arrays must be one-dimensional.")
+        coords = tuple(np.ascontiguousarray(x) for x in coords)
         # determine order of coordinate arrays according to their
         # numerical data type
         numtypes = [np.dtype(int), np.dtype(float)]
-- 
2.43.0


From 2472820a81c8f4b9ee64345ef61448c4b56ca16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:57 +0000
Subject: [PATCH 16/56] fix: keep the result of a binned statistic call local
 to the call

It was built up in an attribute, so concurrent and re-entrant calls on one
object mixed their results.
---
 skbeam/core/accumulators/binned_statistic.py | 32 ++++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 913870b..194dbef 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -287,27 +287,27 @@ class BinnedStatisticDD(object):
         if statistic is None:
             statistic = self.statistic
 
-        self.result = np.empty(self.nbin.prod(), float)
+        result = np.empty(self.nbin.prod(), float)
         if statistic == "mean":
-            self.result.fill(np.nan)
+            result.fill(np.nan)
             flatsum = np.bincount(self.xy, values)
             a = self.flatcount.nonzero()
-            self.result[a] = flatsum[a] / self.flatcount[a]
+            result[a] = flatsum[a] / self.flatcount[a]
         elif statistic == "std":
-            self.result.fill(0)
+            result.fill(0)
             flatsum = np.bincount(self.xy, values)
             flatsum2 = np.bincount(self.xy, values**2)
             a = self.flatcount.nonzero()
-            self.result[a] = np.sqrt(flatsum2[a] / self.flatcount[a] - (flatsum[a] / self.flatcount[a]) ** 2)
+            result[a] = np.sqrt(flatsum2[a] / self.flatcount[a] - (flatsum[a] / self.flatcount[a]) ** 2)
         elif statistic == "count":
-            self.result.fill(0)
+            result.fill(0)
             a = np.arange(len(self.flatcount))
-            self.result[a] = self.flatcount
+            result[a] = self.flatcount
         elif statistic == "sum":
-            self.result.fill(0)
+            result.fill(0)
             flatsum = np.bincount(self.xy, values)
             a = np.arange(len(flatsum))
-            self.result[a] = flatsum
+            result[a] = flatsum
         elif callable(statistic) or statistic == "median":
             if statistic == "median":
                 internal_statistic = np.median
@@ -322,31 +322,31 @@ class BinnedStatisticDD(object):
                 except Exception:
                     null = np.nan
                 np.seterr(**old)
-            self.result.fill(null)
+            result.fill(null)
 
             vfs = values[self.argsort_index]
             i = 0
             for j, k in enumerate(self.flatcount):
                 if k > 0:
-                    self.result[j] = internal_statistic(vfs[i : i + k])
+                    result[j] = internal_statistic(vfs[i : i + k])
                 i += k
 
         # Shape into a proper matrix
-        self.result = self.result.reshape(np.sort(self.nbin))
+        result = result.reshape(np.sort(self.nbin))
         ni = np.copy(self.ni)
         for i in np.arange(self.nbin.size):
             j = ni.argsort()[i]
-            self.result = self.result.swapaxes(i, j)
+            result = result.swapaxes(i, j)
             ni[i], ni[j] = ni[j], ni[i]
 
         # Remove outliers (indices 0 and -1 for each dimension).
         core = self.D * [slice(1, -1)]
-        self.result = self.result[tuple(core)]
+        result = result[tuple(core)]
 
-        if (self.result.shape != self.nbin - 2).any():
+        if (result.shape != self.nbin - 2).any():
             raise RuntimeError("Internal Shape Error")
 
-        return self.result
+        return result
 
 
 class BinnedStatistic1D(BinnedStatisticDD):
-- 
2.43.0


From 552ea84888702ad9f6e7d81a1fcc2129509b44a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:57 +0000
Subject: [PATCH 17/56] fix: refuse an unknown statistic given to a binned
 statistic call

It returned uninitialised memory.
---
 skbeam/core/accumulators/binned_statistic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 194dbef..fc667c4 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -330,6 +330,8 @@ class BinnedStatisticDD(object):
                 if k > 0:
                     result[j] = internal_statistic(vfs[i : i + k])
                 i += k
+        else:
+            raise ValueError("invalid statistic %r" % (statistic,))
 
         # Shape into a proper matrix
         result = result.reshape(np.sort(self.nbin))
-- 
2.43.0


From 523923e5bb19b7de20c5c0e5c0c26341e1dcd3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:57 +0000
Subject: [PATCH 18/56] fix: apply the mask of a binned statistic to a float
 copy of the sample

The (N, D) array of the caller was overwritten, and masked points of an
integer sample could be rounded back into the first bin.
---
 skbeam/core/accumulators/binned_statistic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index fc667c4..e752515 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -150,6 +150,11 @@ class BinnedStatisticDD(object):
 
         self.nbin = np.asarray(self.nbin)
 
+        if mask is not None:
+            # masked points are moved out of range: not in the caller's array,
+            # and not in an integer one, which would round them back
+            sample = np.array(sample, float)
+
         # Compute the bin number each sample falls into.
         Ncount = {}
         for i in np.arange(self.D):
-- 
2.43.0


From 04b7ede566e7d717e51d6671235b26fedc8f3c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:57 +0000
Subject: [PATCH 19/56] fix: keep points just below the last edge of a binned
 statistic in the last bin

They round to the edge like the points on it, but are in the last bin
already and were moved one bin too far.
---
 skbeam/core/accumulators/binned_statistic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index e752515..acad608 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -174,7 +174,10 @@ class BinnedStatisticDD(object):
             # Rounding precision
             decimal = int(-np.log10(dedges[i].min())) + 6
             # Find which points are on the rightmost edge.
-            on_edge = np.where(np.around(sample[:, i], decimal) == np.around(self.edges[i][-1], decimal))[0]
+            on_edge = np.where(
+                (sample[:, i] >= self.edges[i][-1])
+                & (np.around(sample[:, i], decimal) == np.around(self.edges[i][-1], decimal))
+            )[0]
             # Shift these points one bin to the left.
             Ncount[i][on_edge] -= 1
 
-- 
2.43.0


From d0cd78ebbc57b0b44a0dcbf39492ed99b2ecdb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:57 +0000
Subject: [PATCH 20/56] fix: do not return NaN as the standard deviation of
 equal values

The variance can be rounded to just below zero.
---
 skbeam/core/accumulators/binned_statistic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index acad608..abd27c3 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -306,7 +306,9 @@ class BinnedStatisticDD(object):
             flatsum = np.bincount(self.xy, values)
             flatsum2 = np.bincount(self.xy, values**2)
             a = self.flatcount.nonzero()
-            result[a] = np.sqrt(flatsum2[a] / self.flatcount[a] - (flatsum[a] / self.flatcount[a]) ** 2)
+            result[a] = np.sqrt(
+                np.maximum(flatsum2[a] / self.flatcount[a] - (flatsum[a] / self.flatcount[a]) ** 2, 0)
+            )
         elif statistic == "count":
             result.fill(0)
             a = np.arange(len(self.flatcount))
-- 
2.43.0


From 45616336bc9b58f534f39bba270742d6486e86a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:57 +0000
Subject: [PATCH 21/56] fix: accept any array_like of values in binned
 statistic calls

std, median and callables needed an ndarray.
---
 skbeam/core/accumulators/binned_statistic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index abd27c3..d3c0deb 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -294,6 +294,8 @@ class BinnedStatisticDD(object):
         """
         if statistic is None:
             statistic = self.statistic
+        if values is not None:
+            values = np.asarray(values)
 
         result = np.empty(self.nbin.prod(), float)
         if statistic == "mean":
-- 
2.43.0


From 99998af811e7c3adaaa576b0808bc1bc03fc1831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:57 +0000
Subject: [PATCH 22/56] fix: unflatten the bin map of dimensions with different
 numbers of bins

The wrong radix was used, and the dimensions came out in the order of
their bin counts.
---
 skbeam/core/accumulators/binned_statistic.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index d3c0deb..f80fe10 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -206,15 +206,10 @@ class BinnedStatisticDD(object):
         """
         (N,) = self.xy.shape
         binmap = np.zeros((self.D, N), dtype=int)
-        denominator = 1
-
-        for i in range(self.D):
-            ind = self.D - i - 1
-            subbinmap = self.xy // denominator
-            if i < self.D - 1:
-                subbinmap = subbinmap % self.nbin[self.ni[ind - 1]]
-            binmap[ind] = subbinmap
-            denominator *= self.nbin[self.ni[ind]]
+        # the dimensions are flattened in the order of self.ni
+        subbinmaps = np.unravel_index(self.xy, self.nbin[self.ni])
+        for i, subbinmap in zip(self.ni, subbinmaps):
+            binmap[i] = subbinmap
 
         return binmap
 
-- 
2.43.0


From 835e2760c06fabd879ff45cd5954a9dc6445b885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:51 +0000
Subject: [PATCH 23/56] fix: construct_rphi_avg_image leaves the caller's
 angles and image unchanged

---
 skbeam/core/image.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/image.py b/skbeam/core/image.py
index cc8e8bf..26bb322 100644
--- a/skbeam/core/image.py
+++ b/skbeam/core/image.py
@@ -233,7 +233,8 @@ def construct_rphi_avg_image(radii, angles, image, mask=None, center=None, shape
                 )
             else:
                 raise ValueError("Mask not right dimensions." "Expected 2 got {}".format(mask.ndim))
-        image[np.where(mask == 0)] = np.nan
+        # the caller's image stays as it is
+        image = np.where(mask == 0, np.nan, image)
     if shape is None:
         if center is not None:
             raise ValueError(
@@ -254,7 +255,7 @@ def construct_rphi_avg_image(radii, angles, image, mask=None, center=None, shape
 
     # 1.a : subtract minimum
     anglemin = angles[0]
-    angles -= anglemin
+    angles = angles - anglemin
     # 1.b : modulo 2*pi
     angles = angles % (2 * np.pi)
     # 1.c : find any extra cross-overs and ignore them
-- 
2.43.0


From 9b1df6731b892a12bdebfc9d5238f0436948e180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:51 +0000
Subject: [PATCH 24/56] fix: cdi_recon leaves the caller's initial sample
 unchanged

---
 skbeam/core/cdi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index 17ebdee..22a8f2e 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -318,6 +318,7 @@ def cdi_recon(
 
     diffracted_pattern = np.array(diffracted_pattern)  # diffraction data
     diffracted_pattern = np.fft.fftshift(diffracted_pattern)
+    sample_obj = np.array(sample_obj)  # updated in place below: not in the caller's array
 
     pi_modulus_flag = pi_modulus_flag.lower()
     real_operation = False
-- 
2.43.0


From 4376bdf01aebd3c91cba80fe221fa43b6a9d0479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:51 +0000
Subject: [PATCH 25/56] fix: cdi_recon calls the callback after every cb_step
 iterations

---
 skbeam/core/cdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index 22a8f2e..38da89a 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -380,7 +380,7 @@ def cdi_recon(
                     sup_error[n] = np.sum(sup_old)
                     sup_old = np.array(sup)
 
-        if cb_function and n_iterations % cb_step == 0:
+        if cb_function and (n + 1) % cb_step == 0:
             cb_function(sample_obj, obj_error, diff_error, sup_error)
 
         if n > start_avg * n_iterations:
-- 
2.43.0


From 561786ae20ee20da5a57e3dc20d08613d2b2ed13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:19 +0000
Subject: [PATCH 26/56] fix: refuse a grid without steps instead of writing
 past its buffers

---
 src/ctrans.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ctrans.c b/src/ctrans.c
index 5cfabad..8c19002 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -344,6 +344,11 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
   dims[1] = grid_nsteps[1];
   dims[2] = grid_nsteps[2];
 
+  if(dims[0] < 1 || dims[1] < 1 || dims[2] < 1){
+    PyErr_SetString(PyExc_ValueError, "The grid needs at least one step in every direction");
+    goto error;
+  }
+
   if(_dout == NULL){
     gridout = (PyArrayObject*)PyArray_ZEROS(3, dims, NPY_DOUBLE, 0);
   } else {
-- 
2.43.0


From 4fd668b2f86fa6ffe4bd64578504629814ab3ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:02 +0000
Subject: [PATCH 27/56] fix: xsvs and the DPC reconstruction leave the process'
 warning filters alone

---
 skbeam/core/dpc.py     | 9 ++++-----
 skbeam/core/speckle.py | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/skbeam/core/dpc.py b/skbeam/core/dpc.py
index acd8d97..5ede51f 100644
--- a/skbeam/core/dpc.py
+++ b/skbeam/core/dpc.py
@@ -39,7 +39,6 @@ Fourier shift fitting
 from __future__ import absolute_import, division, print_function
 
 import logging
-import warnings
 from collections import namedtuple
 
 import numpy as np
@@ -281,10 +280,10 @@ def recon(gx, gy, scan_xstep, scan_ystep, padding=0, weighting=0.5):
     kappax, kappay = np.meshgrid(ax, ay)
     div_v = kappax**2 * (1 - weighting) + kappay**2 * weighting
 
-    with warnings.catch_warnings():
-        # It appears that having nans in data arrays is normal mode of
-        #   operation for this function. So let's disable warnings.
-        warnings.filterwarnings("ignore", category=RuntimeWarning)
+    # It appears that having nans in data arrays is normal mode of
+    #   operation for this function. So let's disable warnings (in this thread only:
+    #   the warning filters belong to the whole process).
+    with np.errstate(all="ignore"):
         c = -1j * (kappax * tx * (1 - weighting) + kappay * ty * weighting) / div_v
     c = np.fft.ifftshift(np.where(div_v == 0, 0, c))
 
diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index 5d62378..4ea0376 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -48,7 +48,6 @@ from __future__ import absolute_import, division, print_function
 
 import logging
 import time
-import warnings
 
 import numpy as np
 
@@ -276,10 +275,10 @@ def _process(
 
     for j, label in enumerate(u_labels):
         roi_data = buf[level, buf_no][labels == label]
-        with warnings.catch_warnings():
-            # It appears that having nans in ``roi_data`` and ``spe_hist`` is normal mode of
-            #   operation for this function. So let's disable warnings.
-            warnings.filterwarnings("ignore", category=RuntimeWarning)
+        # It appears that having nans in ``roi_data`` and ``spe_hist`` is normal mode of
+        #   operation for this function. So let's disable warnings (in this thread only:
+        #   the warning filters belong to the whole process).
+        with np.errstate(all="ignore"):
             spe_hist, bin_edges = np.histogram(roi_data, bins=bin_edges, density=True)
         spe_hist = np.nan_to_num(spe_hist)
         prob_k[level, j] += (spe_hist - prob_k[level, j]) / (img_per_level[level] - track_bad[level])
-- 
2.43.0


From 663aac98f019a1e26f4522a64d0bc1a9835ff75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:13 +0000
Subject: [PATCH 28/56] fix: binned statistics of overlapping callers leave the
 process' warning filters as they were

---
 skbeam/core/accumulators/binned_statistic.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index f80fe10..7226826 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -36,12 +36,15 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from __future__ import absolute_import, division, print_function
 
+import threading
 import warnings
 
 import numpy as np
 
 from ..utils import angle_grid, bin_edges_to_centers, radial_grid
 
+_warnings_lock = threading.RLock()
+
 
 class BinnedStatisticDD(object):
     std_ = ("mean", "median", "count", "sum", "std")
@@ -320,15 +323,14 @@ class BinnedStatisticDD(object):
                 internal_statistic = np.median
             else:
                 internal_statistic = statistic
-            with warnings.catch_warnings():
+            # the warning filters belong to the whole process: one thread at a time
+            with _warnings_lock, warnings.catch_warnings(), np.errstate(invalid="ignore"):
                 # Numpy generates a warnings for mean/std/... with empty list
                 warnings.filterwarnings("ignore", category=RuntimeWarning)
-                old = np.seterr(invalid="ignore")
                 try:
                     null = internal_statistic([])
                 except Exception:
                     null = np.nan
-                np.seterr(**old)
             result.fill(null)
 
             vfs = values[self.argsort_index]
-- 
2.43.0


From ab17f088b96d0db47f52c15ec8d6c02643246269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:49 +0000
Subject: [PATCH 29/56] fix: position, width and ratio of a pileup peak get the
 names the spectrum model reads

---
 skbeam/core/fitting/xrf_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 80fad61..404861f 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -535,7 +535,7 @@ class ParamController(object):
             self.params.update({param_name: new_pos})
         else:  # for pileup peak
             linename = "pileup_" + element.replace("-", "_")
-            param_name = linename + param_suffix  # as in lmfit Model
+            param_name = "_".join((linename, param_suffix))  # as in lmfit Model
             new_pos = PARAM_DEFAULTS[kind].copy()
             if constraint is not None:
                 self._element_strategy[param_name] = constraint
-- 
2.43.0


From 62169b00cd8ac852fc6af9eb37576aaae9dc887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:49 +0000
Subject: [PATCH 30/56] fix: lines that are not activated do not prevent
 assembling the spectrum model

---
 skbeam/core/fitting/xrf_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 404861f..ff2abe8 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1065,7 +1065,9 @@ class ModelSpectrum(object):
         self.mod = self.compton + self.elastic
 
         for element in self.elemental_lines:
-            self.mod += self.setup_element_model(element)
+            element_mod = self.setup_element_model(element)
+            if element_mod is not None:  # the line is activated at this energy
+                self.mod += element_mod
 
         # This is just a copy of the parameter list. Multiple occurrances.
         param_hints_elements = self._global_param_hints_elements_to_copy
-- 
2.43.0


From ebf076eb0420e2504848236b7aafa900cf152190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:06 +0000
Subject: [PATCH 31/56] fix: get_para returns a copy of the default parameters

---
 skbeam/core/fitting/base/parameter_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/fitting/base/parameter_data.py b/skbeam/core/fitting/base/parameter_data.py
index 3f78935..38cc317 100644
--- a/skbeam/core/fitting/base/parameter_data.py
+++ b/skbeam/core/fitting/base/parameter_data.py
@@ -43,6 +43,8 @@
 ########################################################################
 from __future__ import absolute_import, division, print_function
 
+import copy
+
 """
 Parameter dictionary are included for xrf fitting.
 Element data not included.
@@ -280,6 +282,6 @@ def get_para():
     """More to be added here.
     The para_dict will be updated
     based on different algorithms.
-    Use copy for dict.
+    Every call returns a copy.
     """
-    return default_param
+    return copy.deepcopy(default_param)
-- 
2.43.0


From 8cfe70e3df5be0825af25290e5c896e00add8aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:12 +0000
Subject: [PATCH 32/56] fix: get_activated_lines returns all activated lines of
 the series, whatever the number of lines before it

---
 skbeam/core/fitting/xrf_model.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index ff2abe8..a3e275a 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1455,8 +1455,10 @@ def _get_activated_line(incident_energy, elemental_line):
         e = Element(element)
         if e.cs(incident_energy)["ka1"] == 0:
             return
-        for num, item in enumerate(e.emission_line.all[:4]):
+        for num, item in enumerate(e.emission_line.all):
             line_name = item[0]
+            if not line_name.startswith("k"):
+                continue
             if e.cs(incident_energy)[line_name] == 0:
                 continue
             line_list.append(str(element) + "_" + str(line_name))
@@ -1467,8 +1469,10 @@ def _get_activated_line(incident_energy, elemental_line):
         e = Element(element)
         if e.cs(incident_energy)["la1"] == 0:
             return
-        for num, item in enumerate(e.emission_line.all[4:-4]):
+        for num, item in enumerate(e.emission_line.all):
             line_name = item[0]
+            if not line_name.startswith("l"):
+                continue
             if e.cs(incident_energy)[line_name] == 0:
                 continue
             line_list.append(str(element) + "_" + str(line_name))
@@ -1479,8 +1483,10 @@ def _get_activated_line(incident_energy, elemental_line):
         e = Element(element)
         if e.cs(incident_energy)["ma1"] == 0:
             return
-        for num, item in enumerate(e.emission_line.all[-4:]):
+        for num, item in enumerate(e.emission_line.all):
             line_name = item[0]
+            if not line_name.startswith("m"):
+                continue
             if e.cs(incident_energy)[line_name] == 0:
                 continue
             line_list.append(str(element) + "_" + str(line_name))
-- 
2.43.0


From 24567d9490ed26c69a87896f368a01354a940f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:03 +0000
Subject: [PATCH 33/56] fix: a powder save refused because of its arguments
 leaves an existing file alone

---
 skbeam/io/save_powder_output.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/skbeam/io/save_powder_output.py b/skbeam/io/save_powder_output.py
index cb4f804..501d447 100644
--- a/skbeam/io/save_powder_output.py
+++ b/skbeam/io/save_powder_output.py
@@ -43,6 +43,7 @@ from __future__ import absolute_import, division, print_function
 
 import logging
 import os
+from io import BytesIO
 
 import numpy as np
 
@@ -101,6 +102,13 @@ def save_output(tth, intensity, output_name, q_or_2theta, ext=".chi", err=None,
 
     _validate_input(tth, intensity, err, ext)
 
+    # an existing file is only replaced when there is something to replace it with
+    table = BytesIO()
+    if err is None:
+        np.savetxt(table, np.c_[tth, intensity])
+    else:
+        np.savetxt(table, np.c_[tth, intensity, err])
+
     file_path = _create_file_path(dir_path, output_name, ext)
 
     with open(file_path, "wb") as f:
@@ -113,10 +121,7 @@ def save_output(tth, intensity, output_name, q_or_2theta, ext=".chi", err=None,
         _encoding_writer(f, _HEADER.format(n_pts=len(tth), out_name=output_name, des=des))
         new_line = "\n"
         _encoding_writer(f, new_line)
-        if err is None:
-            np.savetxt(f, np.c_[tth, intensity])
-        else:
-            np.savetxt(f, np.c_[tth, intensity, err])
+        f.write(table.getvalue())
 
 
 def _encoding_writer(f, _HEADER):
@@ -160,8 +165,6 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
 
     _validate_input(tth, intensity, err, ext)
 
-    file_path = _create_file_path(dir_path, output_name, ext)
-
     max_intensity = 999999
     log_scale = np.floor(np.log10(max_intensity / np.max(intensity)))
     log_scale = min(log_scale, 0)
@@ -238,6 +241,9 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
     lines[-1] = "%-80s" % lines[-1]
     rv = "\r\n".join(lines) + "\r\n"
 
+    # an existing file is only replaced when there is something to replace it with
+    file_path = _create_file_path(dir_path, output_name, ext)
+
     with open(file_path, "wt") as f:
         f.write(rv)
 
-- 
2.43.0


From 7de2d456c423ca788497e14cd0b5cfa28cd7ad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:03 +0000
Subject: [PATCH 34/56] fix: the GSAS writer scales intensities and their
 errors alike, and not the angles

---
 skbeam/io/save_powder_output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/io/save_powder_output.py b/skbeam/io/save_powder_output.py
index 501d447..2dd6de1 100644
--- a/skbeam/io/save_powder_output.py
+++ b/skbeam/io/save_powder_output.py
@@ -214,7 +214,7 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
             0,
         )
         lines.append("%-80s" % l_bank)
-        l_recs = ["%8.0f%8.0f" % (ii, ee * scale) for ii, ee in zip(intensity, err)]
+        l_recs = ["%8.0f%8.0f" % (ii * scale, ee * scale) for ii, ee in zip(intensity, err)]
         for i in range(0, len(l_recs), 5):
             lines.append("".join(l_recs[i : i + 5]))
     elif mode == "FXYE":
@@ -230,7 +230,7 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
         )
         lines.append("%-80s" % l_bank)
         l_recs = [
-            "%22.10f%22.10f%24.10f" % (xx * scale, yy * scale, ee * scale)
+            "%22.10f%22.10f%24.10f" % (xx, yy * scale, ee * scale)
             for xx, yy, ee in zip(tth, intensity, err)
         ]
         for i in range(len(l_recs)):
-- 
2.43.0


From 333ad7d463115650ee2be4a62554706ab1a58bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:39 +0000
Subject: [PATCH 35/56] fix: the GSAS reader returns the data points of the
 file, no padding, and refuses incomplete files

---
 skbeam/io/gsas_file_reader.py | 65 +++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 10 deletions(-)

diff --git a/skbeam/io/gsas_file_reader.py b/skbeam/io/gsas_file_reader.py
index 642a0a8..5c8eb22 100644
--- a/skbeam/io/gsas_file_reader.py
+++ b/skbeam/io/gsas_file_reader.py
@@ -112,8 +112,12 @@ def _get_fxye_data(file):
     err = []
 
     with open(file, "r") as fi:
-        S = fi.readlines()[2:]
-        for line in S:
+        S = fi.readlines()[1:]
+
+        # number of data values(two theta or intensity)
+        nch = float(S[0].split()[2])
+
+        for line in S[1:]:
             vals = line.split()
 
             tth.append(float(vals[0]))
@@ -130,6 +134,7 @@ def _get_fxye_data(file):
             else:
                 err.append(0.0)
 
+    _check_complete(len(tth), nch)
     return [np.array(tth), np.array(intensity), np.array(err)]
 
 
@@ -163,9 +168,15 @@ def _get_esd_data(file):
         start = float(S[0].split()[5]) / 100.0
         step = float(S[0].split()[6]) / 100.0
 
+        # number of data values(two theta or intensity)
+        nch = float(S[0].split()[2])
+
         j = 0
         for line in S[1:]:
             for i in range(0, 80, 16):
+                if j >= nch:
+                    break
+                _check_field(line, i + 16)
                 xi = start + step * j
                 yi = _sfloat(line[i : i + 8])
                 ei = _sfloat(line[i + 8 : i + 16])
@@ -181,6 +192,7 @@ def _get_esd_data(file):
                 else:
                     err.append(0.0)
                 j += 1
+    _check_complete(len(tth), nch)
     return [np.array(tth), np.array(intensity), np.array(err)]
 
 
@@ -220,6 +232,9 @@ def _get_std_data(file):
         j = 0
         for line in S[1:]:
             for i in range(0, 80, 8):
+                if j >= nch:
+                    break
+                _check_field(line, i + 8)
                 xi = start + step * j
                 ni = max(_sint(line[i : i + 2]), 1)
                 yi = max(_sfloat(line[i + 2 : i + 8]), 0.0)
@@ -228,15 +243,15 @@ def _get_std_data(file):
                 else:
                     yi = 0.0
                     vi = 0.0
-                if j < nch:
-                    tth.append(xi)
-                    if vi <= 0.0:
-                        intensity.append(0.0)
-                        err.append(0.0)
-                    else:
-                        intensity.append(yi)
-                        err.append(1.0 / vi)
+                tth.append(xi)
+                if vi <= 0.0:
+                    intensity.append(0.0)
+                    err.append(0.0)
+                else:
+                    intensity.append(yi)
+                    err.append(1.0 / vi)
                 j += 1
+    _check_complete(len(tth), nch)
     return [np.array(tth), np.array(intensity), np.array(err)]
 
 
@@ -245,6 +260,36 @@ def _get_std_data(file):
 _func_look_up = {"STD": _get_std_data, "ESD": _get_esd_data, "FXYE": _get_fxye_data}
 
 
+def _check_complete(n_points, nch):
+    """
+    Refuse a file with fewer data points than its header announces
+
+    Parameters
+    ----------
+    n_points : int
+        number of data points found in the file
+    nch : int
+        number of data points according to the header
+    """
+    if n_points < nch:
+        raise ValueError("The GSAS file is incomplete: {} of {:.0f} data points".format(n_points, nch))
+
+
+def _check_field(line, end):
+    """
+    Refuse a field that the end of the file cuts short
+
+    Parameters
+    ----------
+    line : str
+        line of the file, only the last one can lack its end of line
+    end : int
+        column in which the field ends
+    """
+    if len(line) < end and not line.endswith("\n"):
+        raise ValueError("The GSAS file is incomplete: its last record is cut short")
+
+
 def _sfloat(S):
     """
     convert a string to a float, treating an all-blank string as zero
-- 
2.43.0


From f1ec5380d4b89ed8f61901c24d1a05024a942aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:39 +0000
Subject: [PATCH 36/56] fix: read_binary refuses files with less data than
 asked for instead of inventing zeros

---
 skbeam/io/binary.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skbeam/io/binary.py b/skbeam/io/binary.py
index 6788769..b3181a5 100644
--- a/skbeam/io/binary.py
+++ b/skbeam/io/binary.py
@@ -79,6 +79,11 @@ def read_binary(filename, nx, ny, nz, dtype_str, headersize):
         # read the entire file in as 1D list
         data = np.fromfile(file=opened_file, dtype=np.dtype(dtype_str), count=-1)
 
+    if data.size < nx * ny * nz:
+        raise ValueError(
+            "{} is too short: it holds {} of {} data elements".format(filename, data.size, nx * ny * nz)
+        )
+
     # reshape the array to 3D
     if nz != 1:
         data.resize(nx, ny, nz)
-- 
2.43.0


From 745b9464effc73bb8059e92b8c33aab26c63c6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:14 +0000
Subject: [PATCH 37/56] fix: reading an AmiraMesh file that ends inside its
 header fails instead of never returning

---
 skbeam/io/avizo_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/io/avizo_io.py b/skbeam/io/avizo_io.py
index 698ff0c..dff6099 100644
--- a/skbeam/io/avizo_io.py
+++ b/skbeam/io/avizo_io.py
@@ -30,6 +30,8 @@ def _read_amira(src_file):
     with open(os.path.normpath(src_file), "r") as input_file:
         while True:
             line = input_file.readline()
+            if not line:
+                raise ValueError("{} ends before its data section".format(src_file))
             am_header.append(line)
             if line == "# Data section follows\n":
                 input_file.readline()
-- 
2.43.0


From d86a4f9c5661f5f2cfa94404cd41a974f62400d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:37 +0000
Subject: [PATCH 38/56] fix: load_amiramesh reads binary and ASCII files
 (again) and refuses incomplete ones

---
 skbeam/io/avizo_io.py | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/skbeam/io/avizo_io.py b/skbeam/io/avizo_io.py
index dff6099..7d6a470 100644
--- a/skbeam/io/avizo_io.py
+++ b/skbeam/io/avizo_io.py
@@ -21,19 +21,19 @@ def _read_amira(src_file):
     am_header : list of strings
         This list contains all of the raw information contained in the
         AmiraMesh file header. Contains all of the raw header information
-    am_data : str
+    am_data : bytes
         A compiled string containing all of the image array data, that was
         stored in the source AmiraMesh data file. Contains the raw image data
     """
     am_header = []
     am_data = []
-    with open(os.path.normpath(src_file), "r") as input_file:
+    with open(os.path.normpath(src_file), "rb") as input_file:
         while True:
-            line = input_file.readline()
+            line = input_file.readline().decode("latin-1")
             if not line:
                 raise ValueError("{} ends before its data section".format(src_file))
             am_header.append(line)
-            if line == "# Data section follows\n":
+            if line.rstrip() == "# Data section follows":
                 input_file.readline()
                 break
         am_data = input_file.read()
@@ -50,8 +50,8 @@ def _amira_data_to_numpy(am_data, header_dict, flip_z=True):
 
     Parameters
     ----------
-    am_data : str
-        String object containing all of the image array data, formatted as IEEE
+    am_data : bytes
+        Bytes object containing all of the image array data, formatted as IEEE
         binary. Current dType options include:
             float
             short
@@ -87,27 +87,24 @@ def _amira_data_to_numpy(am_data, header_dict, flip_z=True):
     # Dictionary of the encoding types for AmiraMesh files
     am_format_dict = {"BINARY-LITTLE-ENDIAN": "<", "BINARY": ">", "ASCII": "unknown"}
     # Dictionary of the data types encountered so far in AmiraMesh files
-    am_dtype_dict = {"float": "f4", "short": "h4", "ushort": "H4", "byte": "b"}
-    # Had to split out the stripping of new line characters and conversion
-    # of the original string data based on whether source data is BINARY
-    # format or ASCII format. These format types require different stripping
-    # tools and different string conversion tools.
-    if header_dict["data_format"] == "BINARY-LITTLE-ENDIAN":
-        data_strip = am_data.strip("\n")
-        flt_values = np.fromstring(
-            data_strip, (am_format_dict[header_dict["data_format"]] + am_dtype_dict[header_dict["data_type"]])
-        )
+    am_dtype_dict = {"float": "f4", "short": "i2", "ushort": "u2", "byte": "b"}
+    am_dtype = am_dtype_dict[header_dict["data_type"]]
+    n_values = Zdim * Ydim * Xdim
+    # BINARY and ASCII formats require different conversion tools.
     if header_dict["data_format"] == "ASCII":
-        data_strip = am_data.translate(None, "\n")
-        string_list = data_strip.split(" ")
-        string_list = string_list[0 : (len(string_list) - 2)]
-        flt_values = np.array(string_list).astype(am_dtype_dict[header_dict["data_type"]])
+        flt_values = np.array(am_data.split()[:n_values]).astype(float).astype(am_dtype)
+    else:
+        am_dtype = np.dtype(am_format_dict[header_dict["data_format"]] + am_dtype)
+        n_bytes = len(am_data) // am_dtype.itemsize * am_dtype.itemsize
+        flt_values = np.frombuffer(am_data[:n_bytes], am_dtype)[:n_values].copy()
+    if flt_values.size < n_values:
+        raise ValueError("AmiraMesh data is incomplete: {} of {} values".format(flt_values.size, n_values))
     # Resize the 1D array to the correct ndarray dimensions
     # Note that resize is in-place whereas reshape is not
     flt_values.resize(Zdim, Ydim, Xdim)
     output = flt_values
     if flip_z:
-        output = flt_values[::-1, ..., ...]
+        output = flt_values[::-1, ...]
     return output
 
 
@@ -133,7 +130,8 @@ def _clean_amira_header(header_list):
     """
     clean_header = []
     for row in header_list:
-        split_header = filter(None, [word.translate(None, ',"') for word in row.strip("\n").split()])
+        split_header = [word.replace(",", "").replace('"', "") for word in row.strip("\n").split()]
+        split_header = [word for word in split_header if word]
         clean_header.append(split_header)
     return clean_header
 
-- 
2.43.0


From 743f8f8824a687ff6c8b3ced010a3b66c818e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:25 +0000
Subject: [PATCH 39/56] fix: load_netCDF reads volumes without a scale factor
 or with a scale factor of one

---
 skbeam/io/net_cdf_io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skbeam/io/net_cdf_io.py b/skbeam/io/net_cdf_io.py
index 6cd0671..4deccc6 100644
--- a/skbeam/io/net_cdf_io.py
+++ b/skbeam/io/net_cdf_io.py
@@ -66,10 +66,13 @@ def load_netCDF(file_name):
     from netCDF4 import Dataset
 
     with Dataset(os.path.normpath(file_name), "r") as src_file:
-        data = src_file.variables["VOLUME"]
+        volume = src_file.variables["VOLUME"]
         md_dict = src_file.__dict__
+        data = volume[:]
         # Check for voxel intensity scale factor and apply if value is present
-        data /= data.scale_factor if data.scale_factor != 1.0 else 1.0
+        scale_factor = getattr(volume, "scale_factor", 1.0)
+        if scale_factor != 1.0:
+            data = data / scale_factor
 
     # Accounts for specific case where z_pixel_size doesn't get assigned
     # even though dimensions are actuall isotropic. This occurs when
-- 
2.43.0


From 5ae42f6dcba5ec34213cd74a492c49ef675e64d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:43 +0000
Subject: [PATCH 40/56] fix: read_binary reports data it could not read instead
 of returning what was in memory

---
 skbeam/io/binary.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/skbeam/io/binary.py b/skbeam/io/binary.py
index b3181a5..2367954 100644
--- a/skbeam/io/binary.py
+++ b/skbeam/io/binary.py
@@ -35,6 +35,7 @@
 from __future__ import absolute_import, division, print_function
 
 import logging
+import os
 
 import numpy as np
 
@@ -77,12 +78,15 @@ def read_binary(filename, nx, ny, nz, dtype_str, headersize):
         header = opened_file.read(headersize)
 
         # read the entire file in as 1D list
-        data = np.fromfile(file=opened_file, dtype=np.dtype(dtype_str), count=-1)
+        # (with count=-1 numpy does not notice when it cannot read to the end)
+        dtype = np.dtype(dtype_str)
+        n_bytes = os.fstat(opened_file.fileno()).st_size - len(header)
+        n_items = n_bytes // dtype.itemsize
+        data = np.fromfile(file=opened_file, dtype=dtype, count=n_items)
 
-    if data.size < nx * ny * nz:
-        raise ValueError(
-            "{} is too short: it holds {} of {} data elements".format(filename, data.size, nx * ny * nz)
-        )
+    n_expected = max(n_items, nx * ny * nz)
+    if data.size < n_expected:
+        raise ValueError("{} is too short: read {} of {} data elements".format(filename, data.size, n_expected))
 
     # reshape the array to 3D
     if nz != 1:
-- 
2.43.0


From 5908b056de06c82a31a9ea7fa0fe2eeca600e4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:28 +0000
Subject: [PATCH 41/56] fix: fit2d_save refuses masks it cannot save before it
 removes an existing file, and saves integer masks

---
 skbeam/io/fit2d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skbeam/io/fit2d.py b/skbeam/io/fit2d.py
index 2fa6710..801ed2d 100644
--- a/skbeam/io/fit2d.py
+++ b/skbeam/io/fit2d.py
@@ -1,6 +1,7 @@
 from __future__ import division, print_function
 
 import fabio
+import numpy as np
 from fabio.fit2dmaskimage import Fit2dMaskImage
 
 from skbeam.io.save_powder_output import _create_file_path
@@ -18,6 +19,9 @@ def fit2d_save(mask, filename, dir_path=None):
     dir_path: str, optional
         Path to the destination file
     """
+    mask = np.asarray(mask, dtype=bool)
+    if mask.ndim != 2:
+        raise ValueError("A Fit2D mask has two dimensions, not {}".format(mask.ndim))
     saver = Fit2dMaskImage(data=~mask)
     saver.write(_create_file_path(dir_path, filename, ".msk"))
 
-- 
2.43.0


From cd240385b05ef80cf8e6752aec8640c7bfb7b22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:28 +0000
Subject: [PATCH 42/56] fix: fit2d_save reports a mask that did not fit on the
 disk

---
 skbeam/io/fit2d.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/skbeam/io/fit2d.py b/skbeam/io/fit2d.py
index 801ed2d..68f6839 100644
--- a/skbeam/io/fit2d.py
+++ b/skbeam/io/fit2d.py
@@ -1,5 +1,7 @@
 from __future__ import division, print_function
 
+import os
+
 import fabio
 import numpy as np
 from fabio.fit2dmaskimage import Fit2dMaskImage
@@ -23,7 +25,12 @@ def fit2d_save(mask, filename, dir_path=None):
     if mask.ndim != 2:
         raise ValueError("A Fit2D mask has two dimensions, not {}".format(mask.ndim))
     saver = Fit2dMaskImage(data=~mask)
-    saver.write(_create_file_path(dir_path, filename, ".msk"))
+    file_path = _create_file_path(dir_path, filename, ".msk")
+    saver.write(file_path)
+    # numpy, which fabio writes with, does not report everything that goes wrong
+    expected = 1024 + mask.shape[0] * ((mask.shape[1] + 31) // 32) * 4
+    if os.path.getsize(file_path) != expected:
+        raise IOError("{} could not be written completely".format(file_path))
 
 
 def read_fit2d_msk(filename):
-- 
2.43.0


From 77964de0a54847107f17fc913e3c89d973c4282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:13 +0000
Subject: [PATCH 43/56] fix: MD_dict keeps its values when something below one
 of them is asked for or assigned, and reading adds nothing

---
 skbeam/core/utils.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 282f790..f7a0d13 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -106,14 +106,12 @@ class MD_dict(MutableMapping):
         key_split = key.split(self._split)
         tmp = self._dict
         for k in key_split[:-1]:
-            try:
-                tmp = tmp[k]._dict
-            except Exception:
-                tmp[k] = type(self)()
-                tmp = tmp[k]._dict
+            # one step, so that nothing another thread puts there gets lost
+            tmp = tmp.setdefault(k, type(self)())
             if isinstance(tmp, md_value):
                 # TODO make message better
                 raise KeyError("trying to use a leaf node as a branch")
+            tmp = tmp._dict
 
         # if passed in an md_value, set it and return
         if isinstance(val, md_value):
@@ -128,29 +126,27 @@ class MD_dict(MutableMapping):
         try:
             # if the second element is a string or None, cast to named tuple
             if isinstance(val[1], string_types) or val[1] is None:
-                print("here")
                 tmp[key_split[-1]] = md_value(*val)
             # else, assume whole thing is the value with no units
             else:
                 tmp[key_split[-1]] = md_value(val, None)
         # catch any type errors from trying to index into non-indexable things
-        # or from trying to use iterables longer than 2
-        except TypeError:
+        # or from trying to use iterables longer than 2, and things that have
+        # no second element
+        except (TypeError, LookupError):
             tmp[key_split[-1]] = md_value(val, None)
 
     def __getitem__(self, key):
         key_split = key.split(self._split)
         tmp = self._dict
         for k in key_split[:-1]:
-            try:
-                tmp = tmp[k]._dict
-            except Exception:
-                tmp[k] = type(self)()
-                tmp = tmp[k]._dict
-
+            tmp = tmp.get(k, None)
+            if tmp is None:
+                return None
             if isinstance(tmp, md_value):
                 # TODO make message better
                 raise KeyError("trying to use a leaf node as a branch")
+            tmp = tmp._dict
 
         return tmp.get(key_split[-1], None)
 
-- 
2.43.0


From 518192d2bfe774de22060af432507d41e4a2d9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:13 +0000
Subject: [PATCH 44/56] fix: RCParamDict does not lose a name space that
 another thread makes at the same time

---
 skbeam/core/utils.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index f7a0d13..c546c56 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -238,12 +238,8 @@ class RCParamDict(MutableMapping):
         splt_key = key.split(self._delim, 1)
         # if more than one part, recurse
         if len(splt_key) > 1:
-            try:
-                tmp = self._dict[splt_key[0]]
-            except KeyError:
-                tmp = RCParamDict()
-                self._dict[splt_key[0]] = tmp
-
+            # one step, so that nothing another thread puts there gets lost
+            tmp = self._dict.setdefault(splt_key[0], RCParamDict())
             if not isinstance(tmp, RCParamDict):
                 raise KeyError("name space is borked")
 
-- 
2.43.0


From ad452494058ba62b7767c7e1656c8df857a401b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:42 +0000
Subject: [PATCH 45/56] fix: bad_to_nan_gen does not hand out one array for all
 bad images

---
 skbeam/core/mask.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index 10789da..1209292 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -70,13 +70,10 @@ def bad_to_nan_gen(images, bad):
         if image is bad it will convert to np.nan array otherwise no
         change to the array
     """
-    ret_val = None
     for n, im in enumerate(images):
         if n in bad:
-            if ret_val is None:
-                ret_val = np.empty(im.shape)
-                ret_val[:] = np.nan
-            yield ret_val
+            # a new array each time: it belongs to the consumer
+            yield np.full(im.shape, np.nan)
         else:
             yield im
 
-- 
2.43.0


From ddbb741fbe18d1a70b21f331288f06faba07e196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:42 +0000
Subject: [PATCH 46/56] fix: threshold does not change the masks it has handed
 out earlier

---
 skbeam/core/mask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index 1209292..ea2c05a 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -110,7 +110,8 @@ def threshold(images, threshold, mask=None):
         bad_pixels = np.where(im >= threshold)
         if len(bad_pixels[0]) != 0:
             mask[bad_pixels] = 0
-        yield mask
+        # a copy: masks handed out earlier stay as they were
+        yield mask.copy()
 
 
 def margin(img_shape, edge_size):
-- 
2.43.0


From 21705450edc0b3b8b915e9a856bd90e4cb4ccb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:29 +0000
Subject: [PATCH 47/56] fix: xsvs adds up frames of a narrow data type without
 overflow

---
 skbeam/core/speckle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index 4ea0376..2916231 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -173,7 +173,9 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
             cur[0] = (1 + cur[0]) % timebin_num
             # read each frame
             # Put the image into the ring buffer.
-            buf[0, cur[0] - 1] = (np.ravel(img))[indices]
+            # (as floats: the sums over longer integration times must not
+            # overflow the detector's data type)
+            buf[0, cur[0] - 1] = (np.ravel(img))[indices].astype(float)
 
             _process(
                 num_roi,
-- 
2.43.0


From 06e3133b65ba4b3f755405c1db5f88254be4115b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:02 +0000
Subject: [PATCH 48/56] fix: load_amiramesh reads volumes that are one voxel
 wide

---
 skbeam/io/avizo_io.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skbeam/io/avizo_io.py b/skbeam/io/avizo_io.py
index 7d6a470..006a453 100644
--- a/skbeam/io/avizo_io.py
+++ b/skbeam/io/avizo_io.py
@@ -204,11 +204,12 @@ def _create_md_dict(clean_header):
                 else:
                     resolution_list.append(0)
             # isotropy determination (isotropic res, or anisotropic res)
+            # (no division: a volume that is one voxel wide has no resolution)
             if (
-                resolution_list[1] / resolution_list[0] > 0.99
-                and resolution_list[2] / resolution_list[0] > 0.99
-                and resolution_list[1] / resolution_list[0] < 1.01
-                and resolution_list[2] / resolution_list[0] < 1.01
+                resolution_list[1] > 0.99 * resolution_list[0]
+                and resolution_list[2] > 0.99 * resolution_list[0]
+                and resolution_list[1] < 1.01 * resolution_list[0]
+                and resolution_list[2] < 1.01 * resolution_list[0]
             ):
                 md_dict["resolution"] = {"zyx_value": resolution_list[0], "type": "isotropic"}
             else:
-- 
2.43.0


From a3c15fb235820436079aa664553ee8adf8ff63f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:07 +0000
Subject: [PATCH 49/56] fix: mean_intensity takes a list of images, as
 documented, and label arrays without background

---
 skbeam/core/roi.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index c09be46..4db5b22 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -395,15 +395,14 @@ def mean_intensity(images, labeled_array, index=None):
         )
     # handle various input for `index`
     if index is None:
-        index = list(np.unique(labeled_array))
-        index.remove(0)
+        index = [i for i in np.unique(labeled_array) if i != 0]
     try:
         len(index)
     except TypeError:
         index = [index]
     # pre-allocate an array for performance
     # might be able to use list comprehension to make this faster
-    mean_intensity = np.zeros((images.shape[0], len(index)))
+    mean_intensity = np.zeros((len(images), len(index)))
     for n, img in enumerate(images):
         # use a mean that is mask-aware
         mean_intensity[n] = ndimage.mean(img, labeled_array, index=index)
-- 
2.43.0


From 85d28cb7ac6936051b854ebbcd5ccb305ade6e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:27 +0000
Subject: [PATCH 50/56] fix: grid3d takes a mask of zeros and ones as a mask,
 not as a list of indices

---
 skbeam/core/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index c546c56..b4d067d 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -921,7 +921,8 @@ def grid3d(
     # getting the intensity value for each pixel
     q = np.insert(q, 3, np.ravel(img_stack), axis=1)
     if binary_mask is not None:
-        q = q[np.ravel(binary_mask)]
+        # (a mask of zeros and ones must not be taken for a list of indices)
+        q = q[np.ravel(binary_mask).astype(bool)]
 
     # 3D grid of the data set
     # starting time for gridding
-- 
2.43.0


From b26f01fd114172c17afcb5271ef87d13f39b026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:27 +0000
Subject: [PATCH 51/56] fix: grid3d keeps intensities and finite points
 whatever the type of q and whichever other points are not finite

---
 skbeam/core/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index b4d067d..161cc9b 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -885,7 +885,8 @@ def grid3d(
             "".format(img_stack.shape, img_stack[0].shape, binary_mask.shape)
         )
 
-    q = np.atleast_2d(q)
+    # (as floats: the intensities are put beside q below)
+    q = np.atleast_2d(np.asarray(q, dtype=float))
     if q.ndim != 2:
         raise ValueError(
             "q.ndim must be a 2-D array of shape Nx3 array. "
@@ -898,8 +899,12 @@ def grid3d(
         )
 
     # set defaults for qmin, qmax, dq
-    qmin = np.min(q, axis=0)
-    qmax = np.max(q, axis=0)
+    # (points that are not finite lie in no box and must not push the others out)
+    finite = np.isfinite(q).all(axis=1)
+    if not finite.any():
+        finite[:] = True
+    qmin = np.min(q[finite], axis=0)
+    qmax = np.max(q[finite], axis=0)
     dqn = [_defaults["nx"], _defaults["ny"], _defaults["nz"]]
 
     # pad the upper edge by just enough to ensure that all of the
-- 
2.43.0


From 7b5ad09d2d6f82e3ef36cc7e2bbf9d7077dc20af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:10 +0000
Subject: [PATCH 52/56] fix: reconstruct_phase_from_partial_info works without
 negation and heeds scale=False

With negate=False and no pixel size the x gradient stayed None and the
reconstruction raised TypeError; scale=False was ignored although it is
documented to ignore pixel_size, focus_to_det and energy.
---
 skbeam/core/dpc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/dpc.py b/skbeam/core/dpc.py
index 5ede51f..a534582 100644
--- a/skbeam/core/dpc.py
+++ b/skbeam/core/dpc.py
@@ -520,7 +520,7 @@ def reconstruct_phase_from_partial_info(
         raise ValueError("weighting should be within the range of [0, 1]!")
     gx = None
     gy = dpc_state.gy
-    if pixel_size and focus_to_det:
+    if scale and pixel_size and focus_to_det:
         # Convert to wavelength
         lambda_ = 12.4e-4 / energy
         # pre-compute the scaling factor
@@ -532,6 +532,8 @@ def reconstruct_phase_from_partial_info(
             gx *= -1
         else:
             gx = dpc_state.gx * -1
+    elif gx is None:
+        gx = dpc_state.gx
     # Reconstruct the final phase image
     phase = recon(gx, gy, scan_xstep, scan_ystep, padding, weighting)
 
-- 
2.43.0


From 5aec0ac276e0fc13bfac2bf414e300c517664cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:10 +0000
Subject: [PATCH 53/56] fix: grid3d keeps the largest points when only the
 lower bound is given

The padding of the default upper bound was computed for the lower bound of
the data, and was lost in the difference when the caller's own lower bound
is larger in magnitude.
---
 skbeam/core/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 161cc9b..ca6355d 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -911,7 +911,8 @@ def grid3d(
     # points are in-bounds with the binning rules: lo <= val < hi
     # (in units of the larger bound, so that the padding is not lost in the
     # difference of the bounds and is positive for negative bounds as well)
-    qmax += 4 * np.spacing(np.maximum(np.abs(qmin), np.abs(qmax)))
+    low = [m if own is None else own for m, own in zip(qmin, (xmin, ymin, zmin))]
+    qmax += 4 * np.spacing(np.maximum(np.abs(low), np.abs(qmax)))
 
     # check for non-default input
     for target, input_vals in ((dqn, (nx, ny, nz)), (qmin, (xmin, ymin, zmin)), (qmax, (xmax, ymax, zmax))):
-- 
2.43.0


From 226a45d23a563d371508f9f4819931dbd0f825e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:02 +0000
Subject: [PATCH 54/56] fix: xsvs returns the density of large counts, not its
 square

With more than 32768 counts numpy evaluates np.power(prob_k_all, 2) in
place, element by element, so that xsvs returned squared probabilities.
---
 skbeam/core/speckle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index 2916231..5c74c0e 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -223,7 +223,8 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
             prob_k_all += (prob_k - prob_k_all) / (i + 1)
             prob_k_pow_all += (prob_k_pow - prob_k_pow_all) / (i + 1)
 
-    prob_k_std_dev = np.power((prob_k_pow_all - np.power(prob_k_all, 2)), 0.5)
+    # (np.power may work in place on large arrays that are elements of an array)
+    prob_k_std_dev = np.power((prob_k_pow_all - prob_k_all * prob_k_all), 0.5)
 
     logger.info("Processing time for XSVS took %s seconds." "", (time.time() - start_time))
     return prob_k_all, prob_k_std_dev
-- 
2.43.0


From 99cf771ea9e81f0e603a23ad7d884e4beaf6fc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:02 +0000
Subject: [PATCH 55/56] fix: xsvs goes through images that can be read only
 once before it looks for the largest count

Without max_cts the images are gone through twice; generators were used up
by the first pass, and xsvs returned zeros.
---
 skbeam/core/speckle.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index 5c74c0e..9b017c0 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -115,6 +115,11 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
 
     """
     if max_cts is None:
+        # the images are gone through twice: keep those of a source that can
+        # be gone through only once
+        image_sets = [
+            [np.array(img) for img in images] if iter(images) is images else images for images in image_sets
+        ]
         max_cts = roi.roi_max_counts(image_sets, label_array)
 
     # find the label's and pixel indices for ROI's
-- 
2.43.0


From 044a4524f2882870ce633ecd639435d917f96e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:47 +0000
Subject: [PATCH 56/56] fix: xsvs counts up to multiples of the largest count
 of 8 and 16 bit images

The largest count had the data type of the images, and the bin edges of
longer integration times overflowed it.
---
 skbeam/core/speckle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index 9b017c0..a9e1bc8 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -121,6 +121,8 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
             [np.array(img) for img in images] if iter(images) is images else images for images in image_sets
         ]
         max_cts = roi.roi_max_counts(image_sets, label_array)
+    # a Python number: multiples of it must not overflow the detector's data type
+    max_cts = np.asarray(max_cts).item()
 
     # find the label's and pixel indices for ROI's
     labels, indices = roi.extract_label_indices(label_array)
-- 
2.43.0

