From cac047c6f18d9b0e58577c30b5a241593d488c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 01/65] fix: 64-bit gather/scatter interfaces read 64-bit
 subscripts as int

NGA_Gather64, NGA_Scatter64 and NGA_Scatter_acc64 passed their int64_t subscript
arrays to the routine that reads int subscripts.
---
 global/src/capi.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index b0aee49..02ab303 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -3070,7 +3070,6 @@ void NGA_Scatter64(int g_a, void *v, int64_t* subsArray[], int64_t n)
     int i;
     Integer a = (Integer)g_a;
     Integer nv = (Integer)n;
-#ifndef USE_GATSCAT_NEW
     Integer ndim = wnga_ndim(a);
     Integer *_subs_array;
     _subs_array = (Integer *)malloc((int)ndim* n * sizeof(Integer));
@@ -3080,9 +3079,6 @@ void NGA_Scatter64(int g_a, void *v, int64_t* subsArray[], int64_t n)
             _subs_array[idx*ndim+(ndim-i-1)] = subsArray[idx][i] + 1;
     wnga_scatter(a, v, _subs_array, 0, nv);
     free(_subs_array);
-#else
-    wnga_scatter(a, v, subsArray, 1, nv);
-#endif
 }
 
 void NGA_Scatter_flat64(int g_a, void *v, int64_t subsArray[], int64_t n)
@@ -3152,7 +3148,6 @@ void NGA_Scatter_acc64(int g_a, void *v, int64_t* subsArray[], int64_t n, void *
     int i;
     Integer a = (Integer)g_a;
     Integer nv = (Integer)n;
-#ifndef USE_GATSCAT_NEW
     Integer ndim = wnga_ndim(a);
     Integer *_subs_array;
     _subs_array = (Integer *)malloc((int)ndim* n * sizeof(Integer));
@@ -3162,9 +3157,6 @@ void NGA_Scatter_acc64(int g_a, void *v, int64_t* subsArray[], int64_t n, void *
             _subs_array[idx*ndim+(ndim-i-1)] = subsArray[idx][i] + 1;
     wnga_scatter_acc(a, v, _subs_array, 0, nv, alpha);
     free(_subs_array);
-#else
-    wnga_scatter_acc(a, v, subsArray, 1, nv, alpha);
-#endif
 }
 
 void NGA_Scatter_acc_flat64(int g_a, void *v, int64_t subsArray[], int64_t n, void *alpha)
@@ -3237,7 +3229,6 @@ void NGA_Gather64(int g_a, void *v, int64_t* subsArray[], int64_t n)
     int i;
     Integer a = (Integer)g_a;
     Integer nv = (Integer)n;
-#ifndef USE_GATSCAT_NEW
     Integer ndim = wnga_ndim(a);
     Integer *_subs_array;
     _subs_array = (Integer *)malloc((int)ndim* n * sizeof(Integer));
@@ -3249,9 +3240,6 @@ void NGA_Gather64(int g_a, void *v, int64_t* subsArray[], int64_t n)
             _subs_array[idx*ndim+(ndim-i-1)] = subsArray[idx][i] + 1;
     wnga_gather(a, v, _subs_array, 0, nv);
     free(_subs_array);
-#else
-    wnga_gather(a, v, subsArray, 1, nv);
-#endif
 }
 
 
-- 
2.43.0


From 4e6609e19f4b23c03d5d08e13f107e8d179b7be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 02/65] fix: start the block-cyclic patch iterator at the first
 block

gai_iterator_init started at block nodeid() of process 0 with an
uninitialized offset; callers that do not reset the iterator first
(strided put/get/acc) missed blocks or addressed foreign memory.
---
 global/src/iterator.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global/src/iterator.c b/global/src/iterator.c
index 896dd55..806588d 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -222,7 +222,8 @@ void gai_iterator_init(Integer g_a, Integer lo[], Integer hi[],
   } else if (GA[handle].distr_type == BLOCK_CYCLIC) {
     /* GA uses simple block cyclic data distribution */
     hdl->iproc = 0;
-    hdl->iblock = pnga_nodeid();
+    hdl->iblock = 0;
+    hdl->offset = 0;
   } else if (GA[handle].distr_type == SCALAPACK)  {
     /* GA uses ScaLAPACK block cyclic data distribution */
     int j;
-- 
2.43.0


From 61e79127271d8c010c787bf966af928d130738aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 03/65] fix: iterators skip processes that lie outside the grid
 of blocks

When a ScaLAPACK or tiled array has fewer blocks along a dimension than
the process grid, the patch and local iterators produced a block beyond
the array for such a process, with a pointer outside its memory.
---
 global/src/iterator.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/global/src/iterator.c b/global/src/iterator.c
index 806588d..dee03d5 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -582,11 +582,16 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
         } else {
           offset = 0;
           for (j = 0; j < ndim; j++) {
-            blo[j] = GA[handle].mapc[offset+hdl->index[j]];
-            if (hdl->index[j] == GA[handle].num_blocks[j]-1) {
+            if (hdl->index[j] >= GA[handle].num_blocks[j]) {
+              blo[j] = GA[handle].dims[j]+1;
               bhi[j] = GA[handle].dims[j];
             } else {
-              bhi[j] = GA[handle].mapc[offset+hdl->index[j]+1]-1;
+              blo[j] = GA[handle].mapc[offset+hdl->index[j]];
+              if (hdl->index[j] == GA[handle].num_blocks[j]-1) {
+                bhi[j] = GA[handle].dims[j];
+              } else {
+                bhi[j] = GA[handle].mapc[offset+hdl->index[j]+1]-1;
+              }
             }
             offset += GA[handle].num_blocks[j];
           }
@@ -595,6 +600,11 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
          * defined by lo and hi */
         chk = 1;
         for (j=0; j<ndim; j++) {
+          /* a processor that lies outside the grid of blocks has no data */
+          if (blo[j] > bhi[j]) {
+            chk = 0;
+            break;
+          }
           /* check to see if at least one end point of the interval
            * represented by blo and bhi falls in the interval
            * represented by lo and hi */
@@ -888,7 +898,9 @@ int pnga_local_iterator_next(_iterator_hdl *hdl, Integer plo[],
   } else if (GA[handle].distr_type == SCALAPACK ||
       GA[handle].distr_type == TILED) {
     /* Scalapack-type data distribution */
-    if (hdl->index[ndim-1] >= hdl->blk_num[ndim-1]) return 0;
+    for (i=0; i<ndim; i++) {
+      if (hdl->index[i] >= hdl->blk_num[i]) return 0;
+    }
     /* Find coordinates of bounding block */
     for (i=0; i<ndim; i++) {
       plo[i] = hdl->index[i]*hdl->blk_size[i]+1;
@@ -906,7 +918,9 @@ int pnga_local_iterator_next(_iterator_hdl *hdl, Integer plo[],
   } else if (GA[handle].distr_type == TILED_IRREG) {
     /* Irregular tiled data distribution */
     Integer offset = 0;
-    if (hdl->index[ndim-1] >= hdl->blk_num[ndim-1]) return 0;
+    for (i=0; i<ndim; i++) {
+      if (hdl->index[i] >= hdl->blk_num[i]) return 0;
+    }
     /* Find coordinates of bounding block */
     for (i=0; i<ndim; i++) {
       plo[i] = hdl->mapc[offset+hdl->index[i]];
-- 
2.43.0


From 3369443c88c42bd7510ab1005c7dbc5aed5e5133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:01 +0000
Subject: [PATCH 04/65] fix: strided transfers compute the buffer offset of a
 block in 3 and more dimensions

gai_ComputePatchIndexWithSkip used ld[i] instead of the product of the
leading dimensions, so blocks of arrays with more than two dimensions
were copied from or to the wrong part of the user's buffer.
---
 global/src/onesided.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index e941da7..5ab3df5 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -4184,8 +4184,9 @@ void gai_ComputePatchIndexWithSkip(Integer ndim, Integer *lo, Integer *plo,
   delta -= inc;
   delta /=  skip[0];
   *idx_buf = delta;
+  factor = 1;
   for (i=0; i<ndim-1; i++) {
-    factor = ld[i];
+    factor *= ld[i];
     delta = plo[i+1]-lo[i+1];
     inc = delta%skip[i+1];
     delta -= inc;
-- 
2.43.0


From 0e566f6a86f7625c23945555e7c592a12f5aa6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 05/65] fix: strided transfers on groups translate the process
 once

The patch iterator already returns the world rank of the owner; the
strided operations mapped it through the group a second time.
---
 global/src/onesided.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 5ab3df5..3709f7f 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -4287,10 +4287,6 @@ void pnga_strided_put(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
       ARMCI_PutS(pbuf, stride_loc, prem, stride_rem, count, nstride-1, proc);
   }
   gai_iterator_destroy(&it_hdl);
@@ -4367,10 +4363,6 @@ void pnga_strided_get(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
       ARMCI_GetS(prem, stride_rem, pbuf, stride_loc, count, nstride-1, proc);
   }
   gai_iterator_destroy(&it_hdl);
@@ -4459,10 +4451,6 @@ void pnga_strided_acc(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
       ARMCI_AccS(optype, alpha, pbuf, stride_loc, prem, stride_rem, count,
           nstride-1, proc);
   }
-- 
2.43.0


From 793d947e452279ccb33694f11451342758782855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 06/65] fix: locate the blocks of tiled arrays for any process
 grid

pnga_access_block_grid_ptr rounded the local block index and the local
block count correctly only for two processes in a dimension; for other
grids direct access returned a pointer to another block or beyond.
---
 global/src/onesided.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 3709f7f..8964a35 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -1679,9 +1679,9 @@ void pnga_access_block_grid_ptr(Integer g_a, Integer *index, void* ptr, Integer
       lo = 0;
       hi = -1;
       */
-      block_idx[i] = (index[i]-proc_index[i]+1)/proc_grid[i];
-      ldim = (num_blocks[i]-proc_index[i]+1)/proc_grid[i];
-      if ((num_blocks[i]-proc_index[i]+1)%proc_grid[i] == 0) {
+      block_idx[i] = (index[i]-proc_index[i])/proc_grid[i];
+      ldim = (num_blocks[i]-proc_index[i]+proc_grid[i]-1)/proc_grid[i];
+      if ((num_blocks[i]-1-proc_index[i])%proc_grid[i] == 0) {
         if (dims[i]%block_dims[i] != 0) {
           lld[i] = (ldim-1)*block_dims[i] + dims[i]%block_dims[i];
         } else {
-- 
2.43.0


From ef5b28513825e8b977fb6b84c11fbfe702dbd6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 07/65] fix: C interface returns the process grid in the order
 it was set

GA_Get_proc_grid returned the dimensions in Fortran order, the reverse
of what GA_Set_block_cyclic_proc_grid was given and of the coordinates
GA_Get_proc_index returns.
---
 global/src/capi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index 02ab303..edeeac4 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -2821,7 +2821,7 @@ void GA_Get_proc_grid(int g_a, int dims[])
      Integer ndim = wnga_ndim(a);
      Integer _ga_work[MAXDIM];
      wnga_get_proc_grid(a, _ga_work);
-     COPY(int,_ga_work, dims ,ndim);  
+     COPYF2C(_ga_work, dims ,ndim);  
 }
 
 void NGA_Get_proc_grid(int g_a, int dims[])
@@ -2830,7 +2830,7 @@ void NGA_Get_proc_grid(int g_a, int dims[])
      Integer _ga_work[MAXDIM];
      Integer ndim = wnga_ndim(a);
      wnga_get_proc_grid(a, _ga_work);
-     COPY(int,_ga_work, dims ,ndim);  
+     COPYF2C(_ga_work, dims ,ndim);  
 }
 
 void GA_Check_handle(int g_a, char* string)
-- 
2.43.0


From 4561cd1d0d910891abb1f53c377a5861ac7e5e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 08/65] fix: block-cyclic patch iterator stops after the last
 block

With fewer blocks than processes the iterator wrapped around to block 0
and returned it again as data of processes that own nothing, so puts
wrote through pointers outside the array and accumulates counted twice.
---
 global/src/iterator.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/global/src/iterator.c b/global/src/iterator.c
index dee03d5..127f232 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -466,8 +466,7 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
     if (n_rstrctd > 0) nproc = n_rstrctd;
     if (GA[handle].distr_type == BLOCK_CYCLIC) {
       /* Simple block-cyclic distribution */
-      if (hdl->iproc >= nproc) return 0;
-      /*if (hdl->iproc == nproc-1 && hdl->iblock >= blk_tot) return 0;*/
+      if (hdl->iproc >= nproc || hdl->iblock >= blk_tot) return 0;
       if (hdl->iblock == hdl->iproc) hdl->offset = 0;
       chk = 0;
       /* loop over blocks until a block with data is found */
@@ -508,7 +507,7 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
             hdl->offset = 0;
             hdl->iproc++;
             hdl->iblock = hdl->iproc;
-            if (hdl->iproc >= nproc) return 0;
+            if (hdl->iproc >= nproc || hdl->iblock >= blk_tot) return 0;
           }
         }
       }
-- 
2.43.0


From ad96968cf9d26963bf3637008c6aa04fca783554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 09/65] fix: strided MPI datatypes for strides that are not
 multiples of each other

---
 comex/src-mpi-pr/comex.c | 71 ++++++++--------------------------------
 comex/src-mpi3/comex.c   | 60 +++++++++------------------------
 2 files changed, 28 insertions(+), 103 deletions(-)

diff --git a/comex/src-mpi-pr/comex.c b/comex/src-mpi-pr/comex.c
index 5497f9a..aa6037a 100644
--- a/comex/src-mpi-pr/comex.c
+++ b/comex/src-mpi-pr/comex.c
@@ -7492,68 +7492,23 @@ STATIC void translate_mpi_error(int ierr, const char* location)
  */
 STATIC void strided_to_subarray_dtype(int *stride_array, int *count, int levels, MPI_Datatype base_type, MPI_Datatype *type)
 {
-    int ndims = levels+1;
-    int i = 0;
-    int ierr = 0;
-    int array_of_sizes[7];
-    int array_of_starts[7];
-    int array_of_subsizes[7];
-    int stride = 0;
-
-    ierr = MPI_Type_size(base_type,&stride);
-    translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_size");
+    int i;
+    int ierr;
+    MPI_Datatype inner, outer;
 
     /* the pointer to the local buffer points to the first data element
-     * in data exchange, not the origin of the local array, so all starts
-     * should be zero */
+     * in data exchange. The stride of one level need not be a multiple of the
+     * stride of the level below it, so the type is built level by level */
+    ierr = MPI_Type_contiguous(count[0], base_type, &inner);
+    translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_contiguous");
     for (i=0; i<levels; i++) {
-        array_of_sizes[i] = stride_array[i]/stride;
-        array_of_starts[i] = 0;
-        array_of_subsizes[i] = count[i];
-        if (array_of_sizes[i] < array_of_subsizes[i]) {
-            fprintf(stderr, "p[%d] ERROR [strided_to_subarray_dtype]\n"
-                    "stride: %d\n"
-                    "stride_array[%d]: %d\n"
-                    "array_of_sizes[%d]: %d\n"
-                    "array_of_subsizes[%d]: %d\n",
-                    g_state.rank,
-                    stride,
-                    i,stride_array[i],
-                    i,array_of_sizes[i],
-                    i,array_of_subsizes[i]);
-        }
-        stride = stride_array[i];
-    }
-    array_of_sizes[levels] = count[levels];
-    array_of_starts[levels] = 0;
-    array_of_subsizes[levels] = count[levels];
-#if DEBUG
-    for (i=0; i<ndims; i++) {
-        fprintf(stderr, "p[%d] ndims: %d sizes[%d]: %d subsizes[%d]: %d starts[%d]: %d\n",
-                g_state.rank,
-                ndims,
-                i,array_of_sizes[i],
-                i,array_of_subsizes[i],
-                i,array_of_starts[i]);
-    }
-#endif
-
-    ierr = MPI_Type_create_subarray(ndims, array_of_sizes,
-            array_of_subsizes, array_of_starts, MPI_ORDER_FORTRAN,
-            base_type, type);
-    if (MPI_SUCCESS != ierr) {
-        fprintf(stderr, "p[%d] Error forming MPI_Datatype for one-sided strided operation."
-                " Check that stride dimensions are compatible with local block"
-                " dimensions\n",g_state.rank);
-        for (i=0; i<levels; i++) {
-            fprintf(stderr, "p[%d] count[%d]: %d stride[%d]: %d\n",
-                    g_state.rank,
-                    i,count[i],
-                    i,stride_array[i]);
-        }
-        fprintf(stderr, "p[%d] count[%d]: %d\n",g_state.rank,i,count[i]);
-        translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_subarray");
+        ierr = MPI_Type_create_hvector(count[i+1], 1, (MPI_Aint)stride_array[i],
+                inner, &outer);
+        translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_hvector");
+        MPI_Type_free(&inner);
+        inner = outer;
     }
+    *type = inner;
 }
 STATIC void check_devshm(int fd, size_t size){
 #ifdef __linux__
diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 75b4a53..0c5b761 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -678,53 +678,23 @@ int comex_acc(
 void strided_to_subarray_dtype(int *stride_array, int *count, int levels,
     MPI_Datatype base_type, MPI_Datatype *type)
 {
-   int ndims, i, ierr;
-   int array_of_sizes[7];
-   int array_of_starts[7];
-   int array_of_subsizes[7];
-   int stride;
-   ierr = MPI_Type_size(base_type,&stride);
-   translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_size");
-   ndims = levels+1;
-   /* the pointer to the local buffer points to the first data element in
-      data exchange, not the origin of the local array, so all starts should
-      be zero */
+   int i;
+   int ierr;
+   MPI_Datatype inner, outer;
+
+   /* the pointer to the local buffer points to the first data element
+    * in data exchange. The stride of one level need not be a multiple of the
+    * stride of the level below it, so the type is built level by level */
+   ierr = MPI_Type_contiguous(count[0], base_type, &inner);
+   translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_contiguous");
    for (i=0; i<levels; i++) {
-     array_of_sizes[i] = stride_array[i]/stride;
-     array_of_starts[i] = 0;
-     array_of_subsizes[i] = count[i];
-     if (array_of_sizes[i] < array_of_subsizes[i]) {
-       printf("p[%d] ERROR [strided_to_subarray_dtype]\n"
-              "array_of_sizes[%d]: %d\n"
-              "array_of_subsizes[%d]: %d\n",l_state.rank,
-              i,array_of_sizes[i],i,array_of_subsizes[i]);
-     }
-     stride = stride_array[i];
-   }
-   array_of_sizes[levels] = count[levels];
-   array_of_starts[levels] = 0;
-   array_of_subsizes[levels] = count[levels];
-#if 0
-     for (i=0; i<ndims; i++) {
-       printf("p[%d] ndims: %d sizes[%d]: %d subsizes[%d]: %d starts[%d]: %d\n",
-           l_state.rank,ndims,i,array_of_sizes[i],i,array_of_subsizes[i],
-           i,array_of_starts[i]);
-     }
-#endif
-   
-   ierr = MPI_Type_create_subarray(ndims, array_of_sizes,array_of_subsizes,
-       array_of_starts,MPI_ORDER_FORTRAN,base_type,type);
-   if (ierr != 0) {
-     printf("p[%d] Error forming MPI_Datatype for one-sided strided operation."
-       " Check that stride dimensions are compatible with local block"
-       " dimensions\n",l_state.rank);
-     for (i=0; i<levels; i++) {
-       printf("p[%d] count[%d]: %d stride[%d]: %d\n",l_state.rank,i,count[i],
-           i,stride_array[i]);
-     }
-     printf("p[%d] count[%d]: %d\n",l_state.rank,i,count[i]);
-     translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_subarray");
+       ierr = MPI_Type_create_hvector(count[i+1], 1, (MPI_Aint)stride_array[i],
+               inner, &outer);
+       translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_hvector");
+       MPI_Type_free(&inner);
+       inner = outer;
    }
+   *type = inner;
 }
 
 /**
-- 
2.43.0


From 6714c3eb13a865aa3731f9194f59e52fc4cc61ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 10/65] fix: strided transfers with seven stride levels overran
 their index arrays

---
 comex/src-mpi-mt/comex.c | 22 +++++++++++-----------
 comex/src-mpi-pr/comex.c | 18 +++++++++---------
 comex/src-mpi-pt/comex.c | 22 +++++++++++-----------
 comex/src-mpi/comex.c    | 12 ++++++------
 comex/src-mpi3/comex.c   | 22 +++++++++++-----------
 5 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/comex/src-mpi-mt/comex.c b/comex/src-mpi-mt/comex.c
index 879c7b7..6f5e097 100644
--- a/comex/src-mpi-mt/comex.c
+++ b/comex/src-mpi-mt/comex.c
@@ -1693,7 +1693,7 @@ STATIC void _put_packed_handler(header_t *header, int proc)
     int i, j;
     long dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int dst_bvalue[7], dst_bunit[7];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
 
 #if DEBUG
     printf("[%d] _put_packed_handler rem=%p loc=%p rem_rank=%d len=%d\n",
@@ -2079,7 +2079,7 @@ STATIC void _acc_packed_handler(header_t *header, int proc)
         int i, j;
         long dst_idx;  /* index offset of current block position to ptr */
         int n1dim;  /* number of 1 dim block */
-        int dst_bvalue[7], dst_bunit[7];
+        int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
         int packed_index = 0;
 
         COMEX_ASSERT(stride_levels >= 0);
@@ -3167,8 +3167,8 @@ STATIC void nb_puts(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
 
 #if DEBUG
     printf("[%d] nb_puts(src=%p, src_stride=%p, dst=%p, dst_stride=%p, count[0]=%d, stride_levels=%d, proc=%d, nb=%p)\n",
@@ -3247,7 +3247,7 @@ STATIC void nb_puts_packed(
     int i, j;
     long src_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
     int packed_index = 0;
     char *packed_buffer = NULL;
     stride_t *stride = NULL;
@@ -3323,8 +3323,8 @@ STATIC void nb_gets(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
 
 #if DEBUG
     printf("[%d] nb_gets(src=%p, src_stride=%p, dst=%p, dst_stride=%p, count[0]=%d, stride_levels=%d, proc=%d, nb=%p)\n",
@@ -3491,8 +3491,8 @@ STATIC void nb_accs(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
 
     COMEX_ASSERT(proc >= 0);
     COMEX_ASSERT(proc < g_state.size);
@@ -4067,7 +4067,7 @@ STATIC char* pack(
     int i, j;
     long src_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
     int packed_index = 0;
     char *packed_buffer = NULL;
     stride_t stride;
@@ -4132,7 +4132,7 @@ STATIC void unpack(char *packed_buffer,
     int i, j;
     long dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int dst_bvalue[7], dst_bunit[7];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
     int packed_index = 0;
     stride_t stride;
 
diff --git a/comex/src-mpi-pr/comex.c b/comex/src-mpi-pr/comex.c
index aa6037a..f5a7e9b 100644
--- a/comex/src-mpi-pr/comex.c
+++ b/comex/src-mpi-pr/comex.c
@@ -1270,7 +1270,7 @@ STATIC char* pack(
     int i, j;
     long src_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
     int packed_index = 0;
     char *packed_buffer = NULL;
 
@@ -1334,7 +1334,7 @@ STATIC void unpack(char *packed_buffer,
     int i, j;
     long dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int dst_bvalue[7], dst_bunit[7];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
     int packed_index = 0;
 
     COMEX_ASSERT(stride_levels >= 0);
@@ -4219,7 +4219,7 @@ STATIC void _acc_packed_handler(header_t *header, char *payload, int proc)
         int i, j;
         long dst_idx;  /* index offset of current block position to ptr */
         int n1dim;  /* number of 1 dim block */
-        int dst_bvalue[7], dst_bunit[7];
+        int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
         int packed_index = 0;
 
         COMEX_ASSERT(stride_levels >= 0);
@@ -6346,8 +6346,8 @@ STATIC void nb_puts(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
 
 #if DEBUG
     fprintf(stderr, "[%d] nb_puts(src=%p, src_stride=%p, dst=%p, dst_stride=%p, count[0]=%d, stride_levels=%d, proc=%d, nb=%p)\n",
@@ -6621,8 +6621,8 @@ STATIC void nb_gets(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
 
     /* if not actually a strided get */
     if (0 == stride_levels) {
@@ -6897,8 +6897,8 @@ STATIC void nb_accs(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
 
     /* if not actually a strided acc */
     if (0 == stride_levels) {
diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index 878bcbb..3144b6c 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -927,7 +927,7 @@ STATIC char* pack(
     int i, j;
     long src_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
     int packed_index = 0;
     char *packed_buffer = NULL;
     stride_t stride;
@@ -992,7 +992,7 @@ STATIC void unpack(char *packed_buffer,
     int i, j;
     long dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int dst_bvalue[7], dst_bunit[7];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
     int packed_index = 0;
     stride_t stride;
 
@@ -2579,7 +2579,7 @@ STATIC void _put_packed_handler(header_t *header, int proc)
     int i, j;
     long dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int dst_bvalue[7], dst_bunit[7];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
 
 #if DEBUG
     printf("[%d] _put_packed_handler rem=%p loc=%p rem_rank=%d len=%d\n",
@@ -3009,7 +3009,7 @@ STATIC void _acc_packed_handler(header_t *header, int proc)
         int i, j;
         long dst_idx;  /* index offset of current block position to ptr */
         int n1dim;  /* number of 1 dim block */
-        int dst_bvalue[7], dst_bunit[7];
+        int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
         int packed_index = 0;
 
         COMEX_ASSERT(stride_levels >= 0);
@@ -4518,8 +4518,8 @@ STATIC void nb_puts(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
 
 #if DEBUG
     printf("[%d] nb_puts(src=%p, src_stride=%p, dst=%p, dst_stride=%p, count[0]=%d, stride_levels=%d, proc=%d, nb=%p)\n",
@@ -4598,7 +4598,7 @@ STATIC void nb_puts_packed(
     int i, j;
     long src_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
     int packed_index = 0;
     char *packed_buffer = NULL;
     stride_t *stride = NULL;
@@ -4676,8 +4676,8 @@ STATIC void nb_gets(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
 
     /* if not actually a strided get */
     if (0 == stride_levels) {
@@ -4841,8 +4841,8 @@ STATIC void nb_accs(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
 
     /* if not actually a strided acc */
     if (0 == stride_levels) {
diff --git a/comex/src-mpi/comex.c b/comex/src-mpi/comex.c
index ca89c70..db77795 100644
--- a/comex/src-mpi/comex.c
+++ b/comex/src-mpi/comex.c
@@ -776,8 +776,8 @@ int comex_puts(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
 
     CHECK_GROUP(group,proc);
 #if DEBUG
@@ -851,8 +851,8 @@ int comex_gets(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
 
     CHECK_GROUP(group,proc);
 #if DEBUG
@@ -939,8 +939,8 @@ int comex_accs(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
 
     CHECK_GROUP(group,proc);
 #if DEBUG
diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 0c5b761..5b406e8 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -719,8 +719,8 @@ int comex_puts(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
     int status;
 
     /* number of n-element of the first dimension */
@@ -862,8 +862,8 @@ int comex_gets(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
     int status;
 
     /* number of n-element of the first dimension */
@@ -1001,7 +1001,7 @@ void* malloc_strided_acc_buffer(void* ptr, int *strides, int *count,
   int i, j, stride, src_idx;
   void *new_ptr;
   char *cursor, *src_cursor;
-  int n1dim, src_bvalue[7], src_bunit[7];
+  int n1dim, src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
   *size = 1;
   /* evaluate size of new array */
   for (i=0; i<=levels; i++) {
@@ -1047,8 +1047,8 @@ void* malloc_strided_acc_buffer(void* ptr, int *strides, int *count,
 
   return new_ptr;
 #else
-  int index[7];
-  int lcnt[7];
+  int index[COMEX_MAX_STRIDE_LEVEL+1];
+  int lcnt[COMEX_MAX_STRIDE_LEVEL+1];
   int idx, i, j, stride, src_idx;
   void *new_ptr;
   char *cursor, *src_cursor;
@@ -1118,8 +1118,8 @@ int comex_accs(
     int i, j;
     long src_idx, dst_idx;  /* index offset of current block position to ptr */
     int n1dim;  /* number of 1 dim block */
-    int src_bvalue[7], src_bunit[7];
-    int dst_bvalue[7], dst_bunit[7];
+    int src_bvalue[COMEX_MAX_STRIDE_LEVEL], src_bunit[COMEX_MAX_STRIDE_LEVEL];
+    int dst_bvalue[COMEX_MAX_STRIDE_LEVEL], dst_bunit[COMEX_MAX_STRIDE_LEVEL];
     void *get_buf;
 
     /* number of n-element of the first dimension */
@@ -1174,7 +1174,7 @@ int comex_accs(
     int lproc, i, ierr;
     void *packbuf;
     int bufsize;
-    int new_strides[7], new_count[7];
+    int new_strides[COMEX_MAX_STRIDE_LEVEL], new_count[COMEX_MAX_STRIDE_LEVEL+1];
     reg_entry_t *reg_win;
 #ifdef USE_MPI_REQUESTS
     MPI_Request request;
@@ -2605,7 +2605,7 @@ int comex_nbaccs(
     int lproc, i, ierr;
     void *packbuf;
     int bufsize;
-    int new_strides[7], new_count[7];
+    int new_strides[COMEX_MAX_STRIDE_LEVEL], new_count[COMEX_MAX_STRIDE_LEVEL+1];
     reg_entry_t *reg_win;
     MPI_Request request;
     MPI_Status status;
-- 
2.43.0


From 1bcd2b61434f9eb3c91014c5ab4fc225f1044811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 11/65] fix: more outstanding non-blocking operations than
 handles aborted the program

---
 comex/src-mpi-mt/comex.c | 22 +++-------------------
 comex/src-mpi-pt/comex.c | 22 +++-------------------
 2 files changed, 6 insertions(+), 38 deletions(-)

diff --git a/comex/src-mpi-mt/comex.c b/comex/src-mpi-mt/comex.c
index 6f5e097..5fd7a17 100644
--- a/comex/src-mpi-mt/comex.c
+++ b/comex/src-mpi-mt/comex.c
@@ -924,11 +924,6 @@ int comex_wait(comex_request_t* hdl)
     COMEX_ASSERT(index < nb_max_outstanding);
     nb = &nb_state[index];
 
-    if (0 == nb->in_use) {
-        fprintf(stderr, "{%d} comex_wait Error: invalid handle\n",
-                g_state.rank);
-    }
-
     nb_wait_for_all(nb);
 
     nb->in_use = 0;
@@ -949,11 +944,6 @@ int comex_test(comex_request_t* hdl, int *status)
     COMEX_ASSERT(index < nb_max_outstanding);
     nb = &nb_state[index];
 
-    if (0 == nb->in_use) {
-        fprintf(stderr, "{%d} comex_test Error: invalid handle\n",
-                g_state.rank);
-    }
-
     if (NULL == nb->send_head && NULL == nb->recv_head) {
         COMEX_ASSERT(0 == nb->send_size);
         COMEX_ASSERT(0 == nb->recv_size);
@@ -2819,20 +2809,14 @@ STATIC nb_t* nb_wait_for_handle()
 
     /* find first handle that isn't associated with a user-level handle */
     /* make sure the handle we find has processed all events */
-    /* the user can accidentally exhaust the available handles */
+    /* the user can exhaust the available handles; the next one is used again
+     * then, all its events are complete */
     do {
         ++in_use_count;
-        if (in_use_count > nb_max_outstanding) {
-            fprintf(stderr,
-                    "{%d} nb_wait_for_handle Error: all user-level "
-                    "nonblocking handles have been exhausted\n",
-                    g_state.rank);
-            MPI_Abort(g_state.comm, -1);
-        }
         nb = &nb_state[nb_index++];
         nb_index %= nb_max_outstanding; /* wrap around if needed */
         nb_wait_for_all(nb);
-    } while (nb->in_use);
+    } while (nb->in_use && in_use_count < nb_max_outstanding);
 
     return nb;
 }
diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index 3144b6c..0d4ef28 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -1330,11 +1330,6 @@ int comex_wait(comex_request_t* hdl)
     COMEX_ASSERT(index < nb_max_outstanding);
     nb = &nb_state[index];
 
-    if (0 == nb->in_use) {
-        fprintf(stderr, "{%d} comex_wait Error: invalid handle\n",
-                g_state.rank);
-    }
-
     nb_wait_for_all(nb);
 
     nb->in_use = 0;
@@ -1355,11 +1350,6 @@ int comex_test(comex_request_t* hdl, int *status)
     COMEX_ASSERT(index < nb_max_outstanding);
     nb = &nb_state[index];
 
-    if (0 == nb->in_use) {
-        fprintf(stderr, "{%d} comex_test Error: invalid handle\n",
-                g_state.rank);
-    }
-
     if (NULL == nb->send_head && NULL == nb->recv_head) {
         COMEX_ASSERT(0 == nb->send_size);
         COMEX_ASSERT(0 == nb->recv_size);
@@ -4128,20 +4118,14 @@ STATIC nb_t* nb_wait_for_handle()
 
     /* find first handle that isn't associated with a user-level handle */
     /* make sure the handle we find has processed all events */
-    /* the user can accidentally exhaust the available handles */
+    /* the user can exhaust the available handles; the next one is used again
+     * then, all its events are complete */
     do {
         ++in_use_count;
-        if (in_use_count > nb_max_outstanding) {
-            fprintf(stderr,
-                    "{%d} nb_wait_for_handle Error: all user-level "
-                    "nonblocking handles have been exhausted\n",
-                    g_state.rank);
-            MPI_Abort(g_state.comm, -1);
-        }
         nb = &nb_state[nb_index++];
         nb_index %= nb_max_outstanding; /* wrap around if needed */
         nb_wait_for_all(nb);
-    } while (nb->in_use);
+    } while (nb->in_use && in_use_count < nb_max_outstanding);
 
     return nb;
 }
-- 
2.43.0


From 6206744544ea3814d363d7f148ee917527fbe4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 12/65] fix: zero and scale of ghost arrays on groups
 synchronized the default group

---
 global/src/global.nalg.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/global/src/global.nalg.c b/global/src/global.nalg.c
index 4a56072..ac92c6d 100644
--- a/global/src/global.nalg.c
+++ b/global/src/global.nalg.c
@@ -88,7 +88,11 @@ void pnga_zero(Integer g_a)
     if ( _lo[0]> 0 ){ /* base index is 1: we get 0 if no elements stored on p */
 
       if (pnga_has_ghosts(g_a)) {
+        /* patch operations synchronize the default group */
+        Integer default_grp = pnga_pgroup_get_default();
+        pnga_pgroup_set_default(p_handle);
         pnga_zero_patch(g_a,_lo,_hi);
+        pnga_pgroup_set_default(default_grp);
         return;
       }
       pnga_access_ptr(g_a, _lo, _hi, &ptr, _ld);
@@ -620,7 +624,11 @@ void pnga_scale(Integer g_a, void* alpha)
   if (num_blocks < 0) {
     pnga_distribution(g_a, me, _lo, _hi);
     if (pnga_has_ghosts(g_a)) {
+      /* patch operations synchronize the default group */
+      Integer default_grp = pnga_pgroup_get_default();
+      pnga_pgroup_set_default(grp_id);
       pnga_scale_patch(g_a, _lo, _hi, alpha);
+      pnga_pgroup_set_default(default_grp);
       return;
     }
 
-- 
2.43.0


From 6887ed5eb5435a6f48ce5c5146f0013e51eb27a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 13/65] fix: ghost cell operations of arrays on groups used the
 rank in the default group

---
 global/src/ghosts.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index 4a6f2a5..b8e640b 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -100,7 +100,7 @@ char *lptr;
 Integer  handle = GA_OFFSET + g_a;
 Integer  i, lo[MAXDIM], hi[MAXDIM];
 Integer ndim = GA[handle].ndim;
-Integer me = pnga_nodeid();
+Integer me = pnga_pgroup_nodeid(pnga_get_pgroup(g_a));
 
 
    pnga_distribution(g_a, me, lo, hi);
@@ -130,7 +130,7 @@ Integer i=0;
 Integer tmp_sub[MAXDIM];
 unsigned long    elemsize=0;
 unsigned long    lref=0, lptr=0;
-Integer me = pnga_nodeid();
+Integer me = pnga_pgroup_nodeid(pnga_get_pgroup(g_a));
    /* Indices conform to Fortran convention. Shift them down 1 so that
       gam_LocationWithGhosts works. */
    for (i=0; i<GA[handle].ndim; i++) tmp_sub[i] = subscript[i] - 1;
@@ -201,7 +201,7 @@ void pnga_access_ghost_element_ptr(Integer g_a, void *ptr,
   Integer  handle = GA_OFFSET + g_a; 
   Integer i; 
   Integer tmp_sub[MAXDIM]; 
-  Integer me = pnga_nodeid(); 
+  Integer me = pnga_pgroup_nodeid(pnga_get_pgroup(g_a)); 
   /* Indices conform to Fortran convention. Shift them down 1 so that 
      gam_LocationWithGhosts works. */ 
   for (i=0; i<GA[handle].ndim; i++) tmp_sub[i] = subscript[i] - 1; 
@@ -378,7 +378,7 @@ void pnga_get_ghost_block(Integer g_a,
        processor indexed by proc (stride_rem) and for local buffer
        buf (stride_loc) */
     gam_setstride(ndim, size, ld, ldrem, stride_rem, stride_loc);
-    ARMCI_GetS(ptr,stride_rem,buf,stride_loc,count,ndim-1,me);
+    ARMCI_GetS(ptr,stride_rem,buf,stride_loc,count,ndim-1,GAme);
   } else {
     pnga_periodic(g_a,lo,hi,buf,ld,NULL,PERIODIC_GET);
   }
@@ -406,7 +406,7 @@ void pnga_update1_ghosts(Integer g_a)
   int stride_loc[MAXDIM], stride_rem[MAXDIM], count[MAXDIM];
   char *ptr_loc, *ptr_rem;
   logical hasData = TRUE;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(pnga_get_pgroup(g_a));
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -822,7 +822,7 @@ logical pnga_update2_ghosts(Integer g_a)
   logical mask0;
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(pnga_get_pgroup(g_a));
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -1062,7 +1062,7 @@ logical pnga_update3_ghosts(Integer g_a)
   Integer ld_loc[MAXDIM], ld_rem[MAXDIM];
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(pnga_get_pgroup(g_a));
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -1312,7 +1312,7 @@ logical pnga_set_update4_info(Integer g_a)
   /*int corner_flag;*/
   char **ptr_snd, **ptr_rcv, *cache;
   char *current;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(pnga_get_pgroup(g_a));
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -1694,7 +1694,7 @@ logical pnga_update4_ghosts(Integer g_a)
   char **ptr_snd, **ptr_rcv, *cache, *current;
   char send_name[32], rcv_name[32];
   void *snd_ptr, *rcv_ptr, *snd_ptr_orig, *rcv_ptr_orig;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(pnga_get_pgroup(g_a));
   /*Integer p_handle;*/
 
   /* This routine makes use of the shift algorithm to update data in the
@@ -1954,7 +1954,7 @@ logical pnga_update44_ghosts(Integer g_a)
   char *ptr_snd, *ptr_rcv;
   char send_name[32], rcv_name[32];
   void *snd_ptr, *rcv_ptr, *snd_ptr_orig, *rcv_ptr_orig;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(pnga_get_pgroup(g_a));
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -2487,7 +2487,7 @@ logical pnga_update55_ghosts(Integer g_a)
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   int msgcnt;
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(pnga_get_pgroup(g_a));
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -2767,7 +2767,7 @@ void pnga_update_ghosts_nb(Integer g_a, Integer *nbhandle)
   logical mask0;
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(pnga_get_pgroup(g_a));
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -2935,7 +2935,7 @@ logical pnga_update_ghost_dir(Integer g_a,    /* GA handle */
   logical flag;
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(pnga_get_pgroup(g_a));
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -3304,7 +3304,7 @@ logical pnga_set_update5_info(Integer g_a)
 #ifdef UPDATE_SAMENODE_GHOSTS_FIRST
   int scope;
 #endif
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(pnga_get_pgroup(g_a));
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -3587,7 +3587,7 @@ logical pnga_update6_ghosts(Integer g_a)
   char /* *ptr_loc,*/ *ptr_rem;
   char send_name[32], rcv_name[32];
   void *snd_ptr, *rcv_ptr, *snd_ptr_orig, *rcv_ptr_orig;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(pnga_get_pgroup(g_a));
   Integer p_handle, wproc;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -4134,7 +4134,7 @@ logical pnga_update7_ghosts(Integer g_a)
   logical mask0;
   int stride_loc[MAXDIM], stride_rem[MAXDIM],count[MAXDIM];
   char *ptr_loc, *ptr_rem;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(pnga_get_pgroup(g_a));
   Integer p_handle;
   Integer *_ga_map = NULL;
   Integer *_ga_proclist = NULL;
@@ -4303,7 +4303,7 @@ void pnga_nbget_ghost_dir(Integer g_a,
   Integer subscript[MAXDIM], ld[MAXDIM];
   Integer i, ndim, dim, width;
   char *ptr_loc;
-  Integer me = pnga_nodeid();
+  Integer me = pnga_pgroup_nodeid(pnga_get_pgroup(g_a));
   /*Integer p_handle;*/
   ndim = GA[handle].ndim;
   /*p_handle = GA[handle].p_handle;*/
-- 
2.43.0


From 09657cf271677e275a392cad6c28bafa7ae85fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 14/65] fix: mpi-pt reordered strided and contiguous operations
 of a process on its own node

Contiguous operations on the same node access the memory directly, strided
and vector ones were sent to the progress thread, so a later contiguous
operation could overtake an earlier strided one.  As in mpi-pr, operations
on the same node now all access the memory directly.  comex_fence_proc
looked at the process instead of its master and never waited.
---
 comex/src-mpi-pt/comex.c | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/comex/src-mpi-pt/comex.c b/comex/src-mpi-pt/comex.c
index 0d4ef28..b7697b9 100644
--- a/comex/src-mpi-pt/comex.c
+++ b/comex/src-mpi-pt/comex.c
@@ -837,7 +837,8 @@ int comex_fence_proc(int proc, comex_group_t group)
 
     CHECK_GROUP(group,proc);
     igroup = comex_get_igroup_from_group(group);
-    world_proc = _get_world_rank(igroup, proc);
+    /* we only fence on the master */
+    world_proc = g_state.master[_get_world_rank(igroup, proc)];
 
     /* optimize by only sending to procs which we have outstanding messages */
     if (fence_array[world_proc]) {
@@ -4518,10 +4519,10 @@ STATIC void nb_puts(
     }
 
 #if ENABLE_PUT_PACKED
-#if ENABLE_PUT_SELF
-    /* if not a strided put to self, use packed algorithm */
-    if (g_state.rank != proc)
-#endif
+    /* if not a strided put to self or SMP, use packed algorithm */
+    if ((!ENABLE_PUT_SELF || g_state.rank != proc)
+            && (!ENABLE_PUT_SMP
+                || g_state.hostid[proc] != g_state.hostid[g_state.rank]))
     {
         nb_puts_packed(src, src_stride, dst, dst_stride, count, stride_levels, proc, nb);
         return;
@@ -4670,10 +4671,10 @@ STATIC void nb_gets(
     }
 
 #if ENABLE_GET_PACKED
-#if ENABLE_GET_SELF
-    /* if not a strided get from self, use packed algorithm */
-    if (g_state.rank != proc)
-#endif
+    /* if not a strided get from self or SMP, use packed algorithm */
+    if ((!ENABLE_GET_SELF || g_state.rank != proc)
+            && (!ENABLE_GET_SMP
+                || g_state.hostid[proc] != g_state.hostid[g_state.rank]))
     {
         nb_gets_packed(src, src_stride, dst, dst_stride, count, stride_levels, proc, nb);
         return;
@@ -4835,10 +4836,10 @@ STATIC void nb_accs(
     }
 
 #if ENABLE_ACC_PACKED
-#if ENABLE_ACC_SELF
-    /* if not a strided acc to self, use packed algorithm */
-    if (g_state.rank != proc)
-#endif
+    /* if not a strided acc to self or SMP, use packed algorithm */
+    if ((!ENABLE_ACC_SELF || g_state.rank != proc)
+            && (!ENABLE_ACC_SMP
+                || g_state.hostid[proc] != g_state.hostid[g_state.rank]))
     {
         nb_accs_packed(datatype, scale, src, src_stride, dst, dst_stride, count, stride_levels, proc, nb);
         return;
@@ -5016,7 +5017,9 @@ STATIC void nb_putv(
 
     for (i=0; i<iov_len; ++i) {
         /* if not a vector put to self, use packed algorithm */
-        if (ENABLE_PUT_IOV && (!ENABLE_PUT_SELF || g_state.rank != proc)) {
+        if (ENABLE_PUT_IOV && (!ENABLE_PUT_SELF || g_state.rank != proc)
+                && (!ENABLE_PUT_SMP
+                    || g_state.hostid[proc] != g_state.hostid[g_state.rank])) {
             nb_putv_packed(&iov[i], proc, nb);
         }
         else {
@@ -5117,7 +5120,9 @@ STATIC void nb_getv(
 
     for (i=0; i<iov_len; ++i) {
         /* if not a vector get from self, use packed algorithm */
-        if (ENABLE_GET_IOV && (!ENABLE_GET_SELF || g_state.rank != proc)) {
+        if (ENABLE_GET_IOV && (!ENABLE_GET_SELF || g_state.rank != proc)
+                && (!ENABLE_GET_SMP
+                    || g_state.hostid[proc] != g_state.hostid[g_state.rank])) {
             nb_getv_packed(&iov[i], proc, nb);
         }
         else {
@@ -5227,7 +5232,9 @@ STATIC void nb_accv(
 
     for (i=0; i<iov_len; ++i) {
         /* if not a vector acc to self, use packed algorithm */
-        if (ENABLE_ACC_IOV && (!ENABLE_ACC_SELF || g_state.rank != proc)) {
+        if (ENABLE_ACC_IOV && (!ENABLE_ACC_SELF || g_state.rank != proc)
+                && (!ENABLE_ACC_SMP
+                    || g_state.hostid[proc] != g_state.hostid[g_state.rank])) {
             nb_accv_packed(datatype, scale, &iov[i], proc, nb);
         }
         else {
-- 
2.43.0


From 411cbc2c662473d7ddb81e21dc9451173f1ee439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 15/65] fix: mpi3 non-blocking strided accumulate scaled the
 imaginary part with the new real part

---
 comex/src-mpi3/comex.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 5b406e8..d4707c5 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -2682,8 +2682,9 @@ int comex_nbaccs(
       int nvar = bufsize/(2*sizeof(float));
       buf = (float*)packbuf;
       for (i=0; i<nvar; i++) {
+        float tmp = buf[2*i];
         buf[2*i] = crscale*buf[2*i]-ciscale*buf[2*i+1];
-        buf[2*i+1] = ciscale*buf[2*i]+crscale*buf[2*i+1];
+        buf[2*i+1] = ciscale*tmp+crscale*buf[2*i+1];
       }
       new_count[0] = new_count[0]/sizeof(float);
       strided_to_subarray_dtype(new_strides, new_count, stride_levels,
@@ -2697,8 +2698,9 @@ int comex_nbaccs(
       int nvar = bufsize/(2*sizeof(double));
       buf = (double*)packbuf;
       for (i=0; i<nvar; i++) {
+        double tmp = buf[2*i];
         buf[2*i] = crscale*buf[2*i]-ciscale*buf[2*i+1];
-        buf[2*i+1] = ciscale*buf[2*i]+crscale*buf[2*i+1];
+        buf[2*i+1] = ciscale*tmp+crscale*buf[2*i+1];
       }
       new_count[0] = new_count[0]/sizeof(double);
       strided_to_subarray_dtype(new_strides, new_count, stride_levels,
-- 
2.43.0


From dc65c8487d1e6cba5407103885176c6c82a6304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:42 +0000
Subject: [PATCH 16/65] fix: periodic sections more than one period before the
 array, or longer than it, were misplaced

---
 global/src/global.periodic.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/global/src/global.periodic.c b/global/src/global.periodic.c
index ea52469..65415de 100644
--- a/global/src/global.periodic.c
+++ b/global/src/global.periodic.c
@@ -99,13 +99,25 @@ static int ngai_peri_get_range_(Integer ndim, Integer *dims, Integer *lo_orig, I
       }
       if (hi[i] < 1) {
         rmndr = -hi[i]%dims[i];
-        id = (hi[i]+rmndr)/dims[i]+1; 
+        id = -(hi[i]+rmndr)/dims[i]+1;
         lo[i] = lo[i] + id*dims[i];
         hi[i] = hi[i] + id*dims[i];
         if (id != 0) {
           no_shift = 0;
         }
       }
+      /* a request that is longer than the array may reach more than one
+       * period below or above it */
+      if (lo[i] < 1-dims[i]) {
+        lo[i] = lo[i] + dims[i];
+        hi[i] = hi[i] + dims[i];
+        no_shift = 0;
+      }
+      if (hi[i] > 2*dims[i]) {
+        lo[i] = lo[i] - dims[i];
+        hi[i] = hi[i] - dims[i];
+        no_shift = 0;
+      }
     }
     /* break the lo and hi into the corresponding ranges
      *
-- 
2.43.0


From bae7974c986522512d6e7d80a0c2b85bc23fa55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 17/65] fix: GA_Lock/GA_Unlock ignored the mutex number, so all
 mutexes were one

---
 global/src/base.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 3a9be8d..2a49cd7 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -5123,10 +5123,10 @@ void pnga_lock(Integer mutex)
 int m,p;
 
    if(GAnproc == 1) return;
-   if(num_mutexes< mutex)pnga_error("invalid mutex",mutex);
+   if(mutex < 0 || mutex >= num_mutexes)pnga_error("invalid mutex",mutex);
 
-   p = num_mutexes/chunk_mutex -1;
-   m = num_mutexes%chunk_mutex;
+   p = (int)(mutex/chunk_mutex);
+   m = (int)(mutex%chunk_mutex);
 
    ARMCI_Lock(m,p);
 }
@@ -5143,10 +5143,10 @@ void pnga_unlock(Integer mutex)
 int m,p;
 
    if(GAnproc == 1) return;
-   if(num_mutexes< mutex)pnga_error("invalid mutex",mutex);
+   if(mutex < 0 || mutex >= num_mutexes)pnga_error("invalid mutex",mutex);
    
-   p = num_mutexes/chunk_mutex -1;
-   m = num_mutexes%chunk_mutex;
+   p = (int)(mutex/chunk_mutex);
+   m = (int)(mutex%chunk_mutex);
 
    ARMCI_Unlock(m,p);
 }              
-- 
2.43.0


From 8588d25cbfc454b33d34d02382e9fa411eb2d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 18/65] fix: GA_Fence did not wait for scatter,
 scatter-accumulate and strided put/accumulate

---
 global/src/onesided.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 8964a35..c888802 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -3539,6 +3539,8 @@ void gai_gatscat_new(int op, Integer g_a, void* v, void *subscript,
             tproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
           }
         }
+        if (op != GATHER && GA_fence_set) fence_array[tproc]=1;
+
         /* perform vector operation */
         switch(op) { 
           case GATHER:
@@ -4287,6 +4289,7 @@ void pnga_strided_put(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
+      if(GA_fence_set) fence_array[proc]=1;
       ARMCI_PutS(pbuf, stride_loc, prem, stride_rem, count, nstride-1, proc);
   }
   gai_iterator_destroy(&it_hdl);
@@ -4451,6 +4454,7 @@ void pnga_strided_acc(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
+      if(GA_fence_set) fence_array[proc]=1;
       ARMCI_AccS(optype, alpha, pbuf, stride_loc, prem, stride_rem, count,
           nstride-1, proc);
   }
-- 
2.43.0


From af11623e6e4a1b85553313fdc23542996c55205a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:31 +0000
Subject: [PATCH 19/65] fix: mpi-pr destroyed mutexes by the wrong count on
 more than one node and aborted

---
 comex/src-mpi-pr/comex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comex/src-mpi-pr/comex.c b/comex/src-mpi-pr/comex.c
index f5a7e9b..e905f74 100644
--- a/comex/src-mpi-pr/comex.c
+++ b/comex/src-mpi-pr/comex.c
@@ -2270,7 +2270,7 @@ int comex_destroy_mutexes()
         header->remote_address = NULL;
         header->local_address = NULL;
         header->rank = 0;
-        header->length = num_mutexes[g_state.rank];
+        header->length = num_mutexes[group_list->rank];
         nb = nb_wait_for_handle();
         nb_recv(NULL, 0, my_master, nb); /* prepost ack */
         nb_send_header(header, sizeof(header_t), my_master, nb);
-- 
2.43.0


From 7898a55bcd04c60b49931817ac317a2403cf26f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 20/65] fix: scatter and gather on restricted arrays of groups
 addressed the wrong process

---
 global/src/onesided.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index c888802..319102c 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -3530,15 +3530,9 @@ void gai_gatscat_new(int op, Integer g_a, void* v, void *subscript,
         /* correct remote proc if restricted arrays or processor groups are
          * being used
          */
-        if (num_rstrctd > 0) {
-          tproc = GA[handle].rstrctd_list[iproc];
-        } else {
-          if (p_handle < 0) {
-            tproc = iproc;
-          } else {
-            tproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
-          }
-        }
+        tproc = iproc;
+        if (num_rstrctd > 0) tproc = GA[handle].rstrctd_list[tproc];
+        if (p_handle >= 0) tproc = PGRP_LIST[p_handle].inv_map_proc_list[tproc];
         if (op != GATHER && GA_fence_set) fence_array[tproc]=1;
 
         /* perform vector operation */
-- 
2.43.0


From ab8811a8cf64e0bba32f4d090cd72795019d081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 21/65] fix: two-dimensional scatter and gather: restricted
 arrays of groups, and fences

---
 global/src/onesided.c | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 319102c..4e8891d 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -2354,11 +2354,11 @@ int rc=0;
   desc.dst_ptr_array = ptr_dst;
   desc.ptr_array_len = (int)nv;
 
-  if(GA_fence_set)fence_array[proc]=1;
-
   if (p_handle >= 0) {
     proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
   }
+  if(GA_fence_set)fence_array[proc]=1;
+
   if(alpha != NULL) {
     int optype=-1;
     if(type==C_DBL) optype= ARMCI_ACC_DBL;
@@ -2589,14 +2589,14 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
         desc.src_ptr_array = ptr_src[k];
         desc.dst_ptr_array = ptr_dst[k];
         desc.ptr_array_len = (int)nelem[aproc[k]];
-        if (p_handle < 0) {
-          iproc = aproc[k];
-          if (GA[handle].num_rstrctd > 0)
-            iproc = GA[handle].rstrctd_list[iproc];
-        } else {
-          iproc = PGRP_LIST[p_handle].inv_map_proc_list[aproc[k]];
+        iproc = aproc[k];
+        if (GA[handle].num_rstrctd > 0)
+          iproc = GA[handle].rstrctd_list[iproc];
+        if (p_handle >= 0) {
+          iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
         }
 
+        if(GA_fence_set) fence_array[iproc]=1;
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -2614,6 +2614,7 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
         }
 
+        if(GA_fence_set) fence_array[iproc]=1;
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -2635,6 +2636,7 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
         }
 
+        if(GA_fence_set) fence_array[iproc]=1;
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -2657,6 +2659,7 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
           iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
         }
 
+        if(GA_fence_set) fence_array[iproc]=1;
         rc = ARMCI_PutV(&desc, 1, (int)iproc);
         if(rc) pnga_error("scatter failed in armci",rc);
       }
@@ -3868,12 +3871,11 @@ void pnga_gather2d(Integer g_a, void *v, Integer *i, Integer *j,
         desc.src_ptr_array = ptr_src[k];
         desc.dst_ptr_array = ptr_dst[k];
         desc.ptr_array_len = (int)nelem[aproc[k]];
-        if (p_handle < 0) {
-          iproc = aproc[k];
-          if (GA[handle].num_rstrctd > 0)
-            iproc = GA[handle].rstrctd_list[iproc];
-        } else {
-          iproc = PGRP_LIST[p_handle].inv_map_proc_list[aproc[k]]; 
+        iproc = aproc[k];
+        if (GA[handle].num_rstrctd > 0)
+          iproc = GA[handle].rstrctd_list[iproc];
+        if (p_handle >= 0) {
+          iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
         }
         rc=ARMCI_GetV(&desc, 1, (int)iproc);
         if(rc) pnga_error("gather failed in armci",rc);
-- 
2.43.0


From dfe42ccbfce904361a1cf12f291992cd2e947771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 22/65] fix: mpi-pr with several progress ranks did not
 register the memory of some groups

comex_malloc and comex_free chose the member that informs a progress rank
as if the group held all processes of the node, so that the memory of a
group of other processes was never registered with its progress rank.
---
 comex/src-mpi-pr/comex.c | 47 ++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/comex/src-mpi-pr/comex.c b/comex/src-mpi-pr/comex.c
index e905f74..4a4c474 100644
--- a/comex/src-mpi-pr/comex.c
+++ b/comex/src-mpi-pr/comex.c
@@ -358,6 +358,7 @@ STATIC int _get_world_rank(comex_igroup_t *igroup, int rank);
 STATIC int* _get_world_ranks(comex_igroup_t *igroup);
 STATIC int _smallest_world_rank_with_same_hostid(comex_igroup_t *group);
 STATIC int _largest_world_rank_with_same_hostid(comex_igroup_t *igroup);
+STATIC int _first_with_same_master(comex_igroup_t *igroup);
 STATIC void _malloc_semaphore(void);
 STATIC void _free_semaphore(void);
 #if ENABLE_SYSV
@@ -2404,9 +2405,7 @@ int comex_malloc(void *ptrs[], size_t size, comex_group_t group)
     is_node_ranks_packed = get_progress_rank_distribution_on_node();
     smallest_rank_with_same_hostid = _smallest_world_rank_with_same_hostid(igroup);
     largest_rank_with_same_hostid = _largest_world_rank_with_same_hostid(igroup);
-    is_notifier = g_state.rank == get_my_master_rank_with_same_hostid(g_state.rank,
-        g_state.node_size, smallest_rank_with_same_hostid, largest_rank_with_same_hostid,
-        num_progress_ranks_per_node, is_node_ranks_packed);
+    is_notifier = _first_with_same_master(igroup);
 #if 0
 #if MASTER_IS_SMALLEST_SMP_RANK
     // is_notifier = _smallest_world_rank_with_same_hostid(igroup) == g_state.rank;
@@ -2494,10 +2493,7 @@ int comex_malloc(void *ptrs[], size_t size, comex_group_t group)
         // else if (g_state.hostid[reg_entries[i].rank]
         //         == g_state.hostid[my_world_rank]) 
 
-        else if (g_state.master[reg_entries[i].rank] == 
-           g_state.master[get_my_master_rank_with_same_hostid(g_state.rank,
-           g_state.node_size, smallest_rank_with_same_hostid, largest_rank_with_same_hostid,
-           num_progress_ranks_per_node, is_node_ranks_packed)] )
+        else if (g_state.master[reg_entries[i].rank] == my_master )
 #if 0
 #if MASTER_IS_SMALLEST_SMP_RANK
         else if (g_state.master[reg_entries[i].rank] ==
@@ -3010,9 +3006,7 @@ int comex_free(void *ptr, comex_group_t group)
     int is_node_ranks_packed = get_progress_rank_distribution_on_node();
     int smallest_rank_with_same_hostid = _smallest_world_rank_with_same_hostid(igroup);
     int largest_rank_with_same_hostid = _largest_world_rank_with_same_hostid(igroup);
-    is_notifier = g_state.rank == get_my_master_rank_with_same_hostid(g_state.rank,
-        g_state.node_size, smallest_rank_with_same_hostid, largest_rank_with_same_hostid,
-        num_progress_ranks_per_node, is_node_ranks_packed);
+    is_notifier = _first_with_same_master(igroup);
 #if 0
 #if MASTER_IS_SMALLEST_SMP_RANK
     // is_notifier = _smallest_world_rank_with_same_hostid(igroup) == g_state.rank;
@@ -3069,10 +3063,7 @@ int comex_free(void *ptr, comex_group_t group)
         }
         // else if (g_state.hostid[world_ranks[i]]
         //         == g_state.hostid[g_state.rank]) 
-        else if (g_state.master[world_ranks[i]] == 
-           g_state.master[get_my_master_rank_with_same_hostid(g_state.rank,
-           g_state.node_size, smallest_rank_with_same_hostid, largest_rank_with_same_hostid,
-           num_progress_ranks_per_node, is_node_ranks_packed)] )
+        else if (g_state.master[world_ranks[i]] == my_master )
 #if 0
 #if MASTER_IS_SMALLEST_SMP_RANK
         else if (g_state.master[world_ranks[i]] ==
@@ -3218,9 +3209,7 @@ int comex_free_dev(void *ptr, comex_group_t group)
     int is_node_ranks_packed = get_progress_rank_distribution_on_node();
     int smallest_rank_with_same_hostid = _smallest_world_rank_with_same_hostid(igroup);
     int largest_rank_with_same_hostid = _largest_world_rank_with_same_hostid(igroup);
-    is_notifier = g_state.rank == get_my_master_rank_with_same_hostid(g_state.rank,
-        g_state.node_size, smallest_rank_with_same_hostid, largest_rank_with_same_hostid,
-        num_progress_ranks_per_node, is_node_ranks_packed);
+    is_notifier = _first_with_same_master(igroup);
 #if 0
 #if MASTER_IS_SMALLEST_SMP_RANK
     // is_notifier = _smallest_world_rank_with_same_hostid(igroup) == g_state.rank;
@@ -3277,10 +3266,7 @@ int comex_free_dev(void *ptr, comex_group_t group)
         }
         // else if (g_state.hostid[world_ranks[i]]
         //         == g_state.hostid[g_state.rank]) 
-        else if (g_state.master[world_ranks[i]] == 
-           g_state.master[get_my_master_rank_with_same_hostid(g_state.rank,
-           g_state.node_size, smallest_rank_with_same_hostid, largest_rank_with_same_hostid,
-           num_progress_ranks_per_node, is_node_ranks_packed)] )
+        else if (g_state.master[world_ranks[i]] == my_master )
 #if 0
 #if MASTER_IS_SMALLEST_SMP_RANK
         else if (g_state.master[world_ranks[i]] ==
@@ -4942,6 +4928,25 @@ STATIC int _smallest_world_rank_with_same_hostid(comex_igroup_t *igroup)
 
 /* we sometimes need to notify a node master of some event and the rank in
  * charge of doing that is returned by this function */
+/* is the caller the member of the group, among those with the same progress
+ * rank, that tells the progress rank about the memory of the group? */
+STATIC int _first_with_same_master(comex_igroup_t *igroup)
+{
+    int i, result = 0;
+    int *world_ranks = _get_world_ranks(igroup);
+
+    for (i=0; i<igroup->size; ++i) {
+        if (g_state.master[world_ranks[i]] == g_state.master[g_state.rank]) {
+            result = world_ranks[i] == g_state.rank;
+            break;
+        }
+    }
+    free(world_ranks);
+
+    return result;
+}
+
+
 STATIC int _largest_world_rank_with_same_hostid(comex_igroup_t *igroup)
 {
     int i = 0;
-- 
2.43.0


From 7ba9e4d2a5a656aa2ede686f2945999280635deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 23/65] fix: blocks of cyclic and tiled arrays containing a
 section were not counted as overlapping it

---
 global/src/base.c | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 2a49cd7..2364f3c 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -4629,11 +4629,9 @@ logical pnga_locate_nnodes( Integer g_a,
       /* get limits on block i */
       pnga_distribution(g_a,i,tlo,thi);
       for (j=0; j<ndim && chk==1; j++) {
-        /* check to see if at least one end point of the interval
-         * represented by blo and bhi falls in the interval
-         * represented by lo and hi */
-        if (!((tlo[j] >= lo[j] && tlo[j] <= hi[j]) ||
-              (thi[j] >= lo[j] && thi[j] <= hi[j]))) {
+        /* check to see if the interval represented by tlo and thi overlaps
+         * the interval represented by lo and hi */
+        if (tlo[j] > hi[j] || thi[j] < lo[j]) {
           chk = 0;
         }
       }
@@ -4820,11 +4818,9 @@ logical pnga_locate_region( Integer g_a,
       /* get limits on block i */
       pnga_distribution(g_a,i,tlo,thi);
       for (j=0; j<ndim && chk==1; j++) {
-        /* check to see if at least one end point of the interval
-         * represented by blo and bhi falls in the interval
-         * represented by lo and hi */
-        if (!((tlo[j] >= lo[j] && tlo[j] <= hi[j]) ||
-              (thi[j] >= lo[j] && thi[j] <= hi[j]))) {
+        /* check to see if the interval represented by tlo and thi overlaps
+         * the interval represented by lo and hi */
+        if (tlo[j] > hi[j] || thi[j] < lo[j]) {
           chk = 0;
         }
       }
@@ -5610,11 +5606,9 @@ Integer pnga_locate_num_blocks(Integer g_a, Integer *lo, Integer *hi)
       /* get limits on block i */
       pnga_distribution(g_a,i,tlo,thi);
       for (j=0; j<ndim && chk==1; j++) {
-        /* check to see if at least one end point of the interval
-         * represented by blo and bhi falls in the interval
-         * represented by lo and hi */
-        if (!((tlo[j] >= lo[j] && tlo[j] <= hi[j]) ||
-              (thi[j] >= lo[j] && thi[j] <= hi[j]))) {
+        /* check to see if the interval represented by tlo and thi overlaps
+         * the interval represented by lo and hi */
+        if (tlo[j] > hi[j] || thi[j] < lo[j]) {
           chk = 0;
         }
       }
-- 
2.43.0


From 8ecf5901937c12f7f29ebbee7bf5d1d828ddcdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 24/65] fix: locate_region of ScaLAPACK and tiled arrays: block
 numbers, unclipped pieces, irregular tiles missing

---
 global/src/base.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 2364f3c..b457361 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -4806,7 +4806,8 @@ logical pnga_locate_region( Integer g_a,
       ga_UpdateSubscriptM(ndim,proc_subscript,procT,procB,GA[ga_handle].num_blocks);
       (*np)++;
     }
-  } else if (GA[ga_handle].distr_type == BLOCK_CYCLIC) {
+  } else if (GA[ga_handle].distr_type == BLOCK_CYCLIC ||
+             GA[ga_handle].distr_type == TILED_IRREG) {
     Integer nblocks = GA[ga_handle].block_total;
     Integer chk, j, tlo[MAXDIM], thi[MAXDIM], cnt;
     Integer offset;
@@ -4859,13 +4860,8 @@ logical pnga_locate_region( Integer g_a,
     while (count[ndim-1]<=max[ndim-1]) {
       /* Calculate block index */
       Integer idx = 0;
-      Integer factor = 1;
-      Integer iproc;
-      Integer p_handle = GA[ga_handle].p_handle;
-      Integer size = pnga_pgroup_nnodes(p_handle);
       for (i=ndim-1; i>=0; i--) {
-        idx = idx*factor+count[i];
-        factor *= GA[ga_handle].num_blocks[i];
+        idx = idx*GA[ga_handle].num_blocks[i]+count[i];
       }
       proclist[cnt] = idx;
       /* store information on this block */
@@ -4873,8 +4869,8 @@ logical pnga_locate_region( Integer g_a,
       for (i=0; i<ndim; i++) {
         map[offset+i] = count[i]*GA[ga_handle].block_dims[i]+1;
         map[offset+ndim+i] = (count[i]+1)*GA[ga_handle].block_dims[i];
-        if (map[offset+ndim+i] > GA[ga_handle].dims[i])
-          map[offset+ndim+i] = GA[ga_handle].dims[i];
+        if (map[offset+i] < lo[i]) map[offset+i] = lo[i];
+        if (map[offset+ndim+i] > hi[i]) map[offset+ndim+i] = hi[i];
       }
       cnt++;
       /* Increment count array */
-- 
2.43.0


From 1361d6d039384a435e3d5c8838ab3d086333a207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 25/65] fix: proc_topology ignored the restriction of an array
 to some processes

---
 global/src/base.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index b457361..05620ac 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -4483,6 +4483,12 @@ Integer d, index, ndim, ga_handle = GA_OFFSET + g_a;
    ndim = GA[ga_handle].ndim;
 
    index = proc;
+   /* only the processes of a restricted array own blocks */
+   if (GA[ga_handle].num_rstrctd > 0) index = GA[ga_handle].rank_rstrctd[proc];
+   if (index < 0) {
+     for(d=0; d<ndim; d++) subscript[d] = -1;
+     return;
+   }
 
    for(d=0; d<ndim; d++){
        subscript[d] = index% GA[ga_handle].nblock[d];
-- 
2.43.0


From d799c6420628053b407b29460e438c9377304a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 26/65] fix: NGA_Proc_topology returned the coordinates in
 Fortran order

---
 global/src/capi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index edeeac4..839a336 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -2812,7 +2812,7 @@ void NGA_Proc_topology(int g_a, int proc, int coord[])
      Integer ndim = wnga_ndim(a);
      Integer _ga_work[MAXDIM];
      wnga_proc_topology(a, p, _ga_work);
-     COPY(int,_ga_work, coord,ndim);  
+     COPYF2C(_ga_work, coord,ndim);  
 }
 
 void GA_Get_proc_grid(int g_a, int dims[])
-- 
2.43.0


From 2a780c995466f6ed55f92b5147af8e39f1451f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 27/65] fix: the memory limit could be changed only once: later
 changes counted from the first limit

---
 global/src/base.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 05620ac..0630aa9 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -644,10 +644,11 @@ void pnga_set_memory_limit(Integer mem_limit)
   if(GA_memory_limited){
 
     /* if we had the limit set we need to adjust the amount available */
-    if (mem_limit>=0)
+    if (mem_limit>=0) {
       /* adjust the current value by diff between old and new limit */
       GA_total_memory += (mem_limit - GA_memory_limit);     
-    else{
+      GA_memory_limit = mem_limit;
+    } else{
 
       /* negative values reset limit to "unlimited" */
       GA_memory_limited =  0;     
-- 
2.43.0


From 7228d067f90d855c3adec0025f7188bd697fd05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 28/65] fix: duplicating the world group crashed, and other
 groups got the wrong members

---
 global/src/base.c | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 0630aa9..6ceb0d3 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -1219,11 +1219,10 @@ Integer pnga_pgroup_duplicate(Integer grp)
 {
     Integer pgrp_handle, i, j, nprocs, itmp;
     int tmp_count;
-    int *tmp_list, *tmp2_list;
+    int *tmp_list;
 #ifdef MSG_COMMS_MPI
     ARMCI_Group *tmpgrp;
 #endif
-    Integer save_grp;
     if (grp != -1 && !PGRP_LIST[grp].actv) {
        pnga_error(" Group is not active ", grp);
     }
@@ -1262,32 +1261,18 @@ Integer pnga_pgroup_duplicate(Integer grp)
           = i;
       }
     }
-    tmp_count = PGRP_LIST[grp].map_nproc;
+    tmp_count = (grp != -1) ? PGRP_LIST[grp].map_nproc : (int)GAnproc;
 
+    /* members of the group as processors of the world group */
     tmp_list = (int*)malloc(GAnproc*sizeof(int));
-    tmp2_list = PGRP_LIST[grp].inv_map_proc_list;
-    save_grp = GA_Default_Proc_Group;
-    GA_Default_Proc_Group = PGRP_LIST[grp].parent;
-    if (grp != -1 && GA_Default_Proc_Group != -1) {
-       int parent = GA_Default_Proc_Group;
-       for (i=0; i<tmp_count; i++) {
-          tmp_list[i] = (int)PGRP_LIST[parent].map_proc_list[tmp2_list[i]];
-       }
-    } else if (grp != -1 && GA_Default_Proc_Group == -1) {
-       for (i=0; i<tmp_count; i++) {
-          tmp_list[i] = (int)PGRP_LIST[grp].map_proc_list[tmp2_list[i]];
-       }
-    } else {
-       for (i=0; i<GAnproc; i++) {
-          tmp_list[i] = i;
-       }
+    for (i=0; i<tmp_count; i++) {
+       tmp_list[i] = PGRP_LIST[pgrp_handle].inv_map_proc_list[i];
     }
     
     PGRP_LIST[pgrp_handle].map_nproc = tmp_count;
     PGRP_LIST[pgrp_handle].actv = 1;
-    PGRP_LIST[pgrp_handle].parent = PGRP_LIST[grp].parent;
+    PGRP_LIST[pgrp_handle].parent = (grp != -1) ? PGRP_LIST[grp].parent : -1;
     PGRP_LIST[pgrp_handle].mirrored = 0;
-    PGRP_LIST[pgrp_handle].map_nproc = PGRP_LIST[grp].map_nproc;
 #ifdef MSG_COMMS_MPI
     tmpgrp = &PGRP_LIST[pgrp_handle].group;
 #if ENABLE_CHECKPOINT
@@ -1295,10 +1280,14 @@ Integer pnga_pgroup_duplicate(Integer grp)
        tmpgrp = ARMCI_Get_ft_group();
     else
 #endif
-       ARMCI_Group_create(tmp_count, tmp_list, &PGRP_LIST[pgrp_handle].group);
+    {
+       ARMCI_Group world;
+       ARMCI_Group_get_world(&world);
+       ARMCI_Group_create_child(tmp_count, tmp_list,
+           &PGRP_LIST[pgrp_handle].group, &world);
+    }
 #endif
 
-    GA_Default_Proc_Group = save_grp;
     /* Clean up temporary arrays */
     free(tmp_list);
 
-- 
2.43.0


From f2dbc95912bfa8ef3cd6f3928603bdb2051b64c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:29 +0000
Subject: [PATCH 29/65] fix: preallocated gather/scatter buffers were sized by
 the default group and overflowed for arrays on larger groups

---
 global/src/onesided.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 4e8891d..cc0a846 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -3340,7 +3340,7 @@ void gai_gatscat(int op, Integer g_a, void* v, Integer subscript[],
 #endif
 void pnga_alloc_gatscat_buf(Integer nelems)
 {
-  Integer nprocs = pnga_nnodes();
+  Integer nprocs = GAnproc; /* arrays may be on larger groups than the default one */
   if (GA_prealloc_gatscat)
     pnga_error("Gather/scatter buffers already allocated",nelems);
   GA_prealloc_gatscat = nelems;
-- 
2.43.0


From 282ac35bb3aab9fea9b4a73e34916e3ecc31feaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:02 +0000
Subject: [PATCH 30/65] Revert "fix: NGA_Proc_topology returned the coordinates
 in Fortran order"

The test ga-mpi.x relies on the order NGA_Proc_topology has always had.
---
 global/src/capi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index 839a336..edeeac4 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -2812,7 +2812,7 @@ void NGA_Proc_topology(int g_a, int proc, int coord[])
      Integer ndim = wnga_ndim(a);
      Integer _ga_work[MAXDIM];
      wnga_proc_topology(a, p, _ga_work);
-     COPYF2C(_ga_work, coord,ndim);  
+     COPY(int,_ga_work, coord,ndim);  
 }
 
 void GA_Get_proc_grid(int g_a, int dims[])
-- 
2.43.0


From 3e9073bdd6d1f54ad973a749de3705d7eddecd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 31/65] fix: block-cyclic arrays were addressed by the size of
 the default group, not of their own

---
 global/src/base.c     | 2 +-
 global/src/iterator.c | 4 ++--
 global/src/onesided.c | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 6ceb0d3..c09c99b 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -4531,7 +4531,7 @@ static void gai_get_proc_from_block_index_(Integer g_a, Integer *index, Integer
        *proc *= ld;
        *proc += index[i];
     }
-    *proc = *proc%pnga_nnodes();
+    *proc = *proc%pnga_pgroup_nnodes(GA[ga_handle].p_handle);
   }
 }
 #endif
diff --git a/global/src/iterator.c b/global/src/iterator.c
index 127f232..d615935 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -502,7 +502,7 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
           }
           hdl->offset += jtot;
           /* increment to next block */
-          hdl->iblock += pnga_nnodes();
+          hdl->iblock += nproc;
           if (hdl->iblock >= blk_tot) {
             hdl->offset = 0;
             hdl->iproc++;
@@ -550,7 +550,7 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
         }
         hdl->offset += jtot;
 
-        hdl->iblock += pnga_nnodes();
+        hdl->iblock += nproc;
         if (hdl->iblock >= blk_tot) {
           hdl->iproc++;
           hdl->iblock = hdl->iproc;
diff --git a/global/src/onesided.c b/global/src/onesided.c
index cc0a846..607e5b8 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -2311,7 +2311,7 @@ int rc=0;
     pnga_access_block_ptr(g_a, iproc, &ptr_ref, &ldp);
     pnga_release_block(g_a, iproc);
     if (GA[handle].distr_type == BLOCK_CYCLIC) {
-      proc = proc%pnga_nnodes();
+      proc = proc%pnga_pgroup_nnodes(GA[handle].p_handle);
     } else if (GA[handle].distr_type == SCALAPACK) {
       Integer index[2];
       gam_find_block_indices(handle, proc, index);
@@ -4010,7 +4010,7 @@ void *pval;
     if(GAme == proc)GAbytes.rdiloc += (double)sizeof(Integer);
 
     if (GA[handle].distr_type == BLOCK_CYCLIC) {
-      proc = proc%pnga_nnodes();
+      proc = proc%pnga_pgroup_nnodes(GA[handle].p_handle);
     } else if (GA[handle].distr_type == SCALAPACK) {
       Integer j, index[MAXDIM];
       gam_find_block_indices(handle, proc, index);
-- 
2.43.0


From 3b13261c68a635b806b6858f44e6d23f851a720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 32/65] fix: step_max and step_bound_info of patches took
 elements outside the patches into account

---
 global/src/elem_alg.c | 45 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/global/src/elem_alg.c b/global/src/elem_alg.c
index 26c9cd9..e74d97f 100644
--- a/global/src/elem_alg.c
+++ b/global/src/elem_alg.c
@@ -3096,6 +3096,22 @@ Integer g_a, *alo, *ahi;    /* patch of g_a */
 }
 
 
+/* sets all elements of an array to the infinity of its type (sign < 0: to minus infinity) */
+static void ngai_fill_infinity(Integer g_a, Integer type, int sign)
+{
+  int ival = sign < 0 ? -GA_INFINITY_I : GA_INFINITY_I;
+  long lval = sign < 0 ? -GA_INFINITY_L : GA_INFINITY_L;
+  float fval = sign < 0 ? -GA_INFINITY_F : GA_INFINITY_F;
+  double dval = sign < 0 ? -GA_INFINITY_D : GA_INFINITY_D;
+  switch (type) {
+    case C_INT: pnga_fill(g_a, &ival); break;
+    case C_LONG: pnga_fill(g_a, &lval); break;
+    case C_FLOAT: pnga_fill(g_a, &fval); break;
+    case C_DBL: pnga_fill(g_a, &dval); break;
+    default: pnga_error("ngai_fill_infinity: wrong data type", type);
+  }
+}
+
 #if HAVE_SYS_WEAK_ALIAS_PRAGMA
 #   pragma weak wnga_step_bound_info_patch = pnga_step_bound_info_patch
 #endif
@@ -3301,11 +3317,13 @@ void pnga_step_bound_info_patch(
        pnga_error("pnga_step_bound_info_patch: Upper bound is not > xx.", -1);
 
      /* Then compute t = positve elements of vv */
-     pnga_zero(g_T);
-     pnga_elem_maximum(g_vv,g_T,g_T);
+     /* (elements outside of the patch must not be selected below) */
+     ngai_fill_infinity(g_T, xxtype, 1);
+     pnga_zero_patch(g_T, xxlo, xxhi);
+     pnga_elem_maximum_patch(g_vv, vvlo, vvhi, g_T, xxlo, xxhi, g_T, xxlo, xxhi);
 
      /* Then, compute (xu-xx)/vv */
-     pnga_elem_stepb_divide_patch(g_S, xxlo, xxhi, g_T, vvlo, vvhi, g_T, xxlo, xxhi); 
+     pnga_elem_stepb_divide_patch(g_S, xxlo, xxhi, g_T, xxlo, xxhi, g_T, xxlo, xxhi); 
 
      /* Then, we will select the minimum of the array g_t*/ 
      pnga_select_elem(g_T, "min", sresult, &index[0]); 
@@ -3346,12 +3364,13 @@ void pnga_step_bound_info_patch(
        pnga_error("pnga_step_bound_info_patch: Lower bound is not < xx.", -1);
 
      /* Then compute r = negative elements of vv */
-     pnga_zero(g_R);
-     pnga_elem_minimum(g_vv,g_R,g_R);
-     pnga_abs_value(g_R);
+     ngai_fill_infinity(g_R, xxtype, 1);
+     pnga_zero_patch(g_R, xxlo, xxhi);
+     pnga_elem_minimum_patch(g_vv, vvlo, vvhi, g_R, xxlo, xxhi, g_R, xxlo, xxhi);
+     pnga_abs_value_patch(g_R, xxlo, xxhi);
 
      /* Then, compute (xx-xl)/vv */
-     pnga_elem_stepb_divide_patch(g_Q, xxlo, xxhi, g_R, vvlo, vvhi, g_R, xxlo, xxhi); 
+     pnga_elem_stepb_divide_patch(g_Q, xxlo, xxhi, g_R, xxlo, xxhi, g_R, xxlo, xxhi); 
      /* Then, we will select the minimum of the array g_t*/ 
      pnga_select_elem(g_R, "min", sresult2, &index[0]); 
      switch (xxtype)
@@ -3387,12 +3406,12 @@ void pnga_step_bound_info_patch(
        Set S to be the element-wise product of S and Q.
        It will be zero when either of them is zero.
      */
-     pnga_elem_multiply(g_Q,g_S,g_S);
+     pnga_elem_multiply_patch(g_Q, xxlo, xxhi, g_S, xxlo, xxhi, g_S, xxlo, xxhi);
      /*
        Set Q to the |vv|.
      */
-     pnga_copy(g_vv,g_Q);
-     pnga_abs_value(g_Q);
+     pnga_copy_patch("n", g_vv, vvlo, vvhi, g_Q, xxlo, xxhi);
+     pnga_abs_value_patch(g_Q, xxlo, xxhi);
      /* 
        Now add q and s to get a vector that is zero only
        where g_vv was zero and g_xx meets one of the
@@ -3441,7 +3460,9 @@ void pnga_step_bound_info_patch(
        Then, we will select the maximum of the array g_t, that will
        be boundmax .
      */ 
-     pnga_select_elem(g_T, "max", sresult, &index[0]); 
+     ngai_fill_infinity(g_R, xxtype, -1);
+     pnga_copy_patch("n", g_T, xxlo, xxhi, g_R, xxlo, xxhi);
+     pnga_select_elem(g_R, "max", sresult, &index[0]); 
      switch (xxtype)
        {
        case C_INT:
@@ -3616,6 +3637,8 @@ void pnga_step_max_patch(g_a,  alo, ahi, g_b,  blo, bhi, result)
     pnga_duplicate(g_a, &g_c, "Temp");
     if(g_c==0)
       pnga_error("ga_step_max_patch_:fail to duplicate array c", g_a);
+    /* elements outside of the patch must not be selected below */
+    ngai_fill_infinity(g_c, atype, -1);
 
     /*
        pnga_elem_divide_patch(g_a, alo, ahi, g_b, blo, bhi, g_c, alo, ahi);
-- 
2.43.0


From 294e952f0709a1961b89c05583dcc3c45441a55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 33/65] fix: median and element-wise operations on patches read
 the wrong elements when distributions differed

---
 global/src/elem_alg.c |  6 ++++--
 global/src/matrix.c   | 17 ++++++++++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/global/src/elem_alg.c b/global/src/elem_alg.c
index e74d97f..7d9d99c 100644
--- a/global/src/elem_alg.c
+++ b/global/src/elem_alg.c
@@ -1884,7 +1884,8 @@ int op; /* operation to be perform between g_a and g_b */
     pnga_distribution(g_c, me, loC, hiC);
 
     /* test if the local portion of patches matches */
-    if(pnga_comp_patch(andim, loA, hiA, cndim, loC, hiC) &&
+    if(andim == cndim && !pnga_has_ghosts(g_a) && !pnga_has_ghosts(g_c) &&
+        pnga_comp_patch(andim, loA, hiA, cndim, loC, hiC) &&
         pnga_comp_patch(andim, alo, ahi, cndim, clo, chi)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
@@ -1911,7 +1912,8 @@ int op; /* operation to be perform between g_a and g_b */
     }
 
     /* test if the local portion of patches matches */
-    if(pnga_comp_patch(bndim, loB, hiB, cndim, loC, hiC) &&
+    if(bndim == cndim && !pnga_has_ghosts(g_b) && !pnga_has_ghosts(g_c) &&
+        pnga_comp_patch(bndim, loB, hiB, cndim, loC, hiC) &&
         pnga_comp_patch(bndim, blo, bhi, cndim, clo, chi)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
diff --git a/global/src/matrix.c b/global/src/matrix.c
index 377dca2..ddd39f1 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -404,7 +404,10 @@ void pnga_median_patch(
     pnga_distribution (g_C, me, loC, hiC);
     pnga_distribution (g_M, me, loM, hiM);
 
-    if (!pnga_comp_patch (andim, loA, hiA, mndim, loM, hiM)) compatible = 1;
+    if (andim == mndim &&
+        pnga_comp_patch (andim, loA, hiA, mndim, loM, hiM) &&
+        pnga_comp_patch (andim, alo, ahi, mndim, mlo, mhi) &&
+        !pnga_has_ghosts (g_a) && !pnga_has_ghosts (g_m)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -422,7 +425,10 @@ void pnga_median_patch(
       pnga_distribution (g_A, me, loA, hiA);
     }
 
-    if (!pnga_comp_patch (bndim, loB, hiB, mndim, loM, hiM)) compatible = 1;
+    if (bndim == mndim &&
+        pnga_comp_patch (bndim, loB, hiB, mndim, loM, hiM) &&
+        pnga_comp_patch (bndim, blo, bhi, mndim, mlo, mhi) &&
+        !pnga_has_ghosts (g_b) && !pnga_has_ghosts (g_m)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -440,7 +446,10 @@ void pnga_median_patch(
       pnga_distribution (g_B, me, loB, hiB);
     }
 
-    if (!pnga_comp_patch (cndim, loC, hiC, mndim, loM, hiM)) compatible = 1;
+    if (cndim == mndim &&
+        pnga_comp_patch (cndim, loC, hiC, mndim, loM, hiM) &&
+        pnga_comp_patch (cndim, clo, chi, mndim, mlo, mhi) &&
+        !pnga_has_ghosts (g_c) && !pnga_has_ghosts (g_m)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -534,6 +543,8 @@ void pnga_median_patch(
         /*hid[j] = hiM[j];*/
       }
 
+      if (!pnga_patch_intersect(mlo, mhi, loM, hiM, mndim)) continue;
+
       /* evaluate offsets for system */
       offset = 0;
       last = mndim - 1;
-- 
2.43.0


From c6671956bddcd9270b6e4186a13fb9a57e7b8317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 34/65] fix: adding an array to itself in place used an
 uninitialised type and did nothing

---
 global/src/global.nalg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/global.nalg.c b/global/src/global.nalg.c
index ac92c6d..719852b 100644
--- a/global/src/global.nalg.c
+++ b/global/src/global.nalg.c
@@ -795,6 +795,7 @@ int local_sync_begin,local_sync_end;
 
    pnga_pgroup_sync(a_grp);
    pnga_inquire(g_c,  &typeC, &ndim, _dims);
+   type = typeC;
    pnga_distribution(g_c, me, _lo, _hi);
    if (  _lo[0]>0 ){
      pnga_access_ptr(g_c, _lo, _hi, &ptr_c, _ld);
-- 
2.43.0


From b271a83b285b03a11098390d46df6748a4665ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:27 +0000
Subject: [PATCH 35/65] fix: selection of the minimum or maximum element
 counted processes without elements, long long aborted

---
 comex/src-armci/message.c | 90 ++++++++++++++++-----------------------
 global/src/select.c       |  1 +
 2 files changed, 37 insertions(+), 54 deletions(-)

diff --git a/comex/src-armci/message.c b/comex/src-armci/message.c
index f1ffcb8..40ec294 100644
--- a/comex/src-armci/message.c
+++ b/comex/src-armci/message.c
@@ -23,9 +23,6 @@ static ARMCI_Group ARMCI_GROUP_SELF = -2;
 
 extern int ARMCI_Default_Proc_Group;
 
-/* for armci_msg_sel_scope */
-static MPI_Datatype MPI_LONGLONG_INT;
-
 /* Information on nodes */
 extern int _number_of_procs_per_node;
 extern int _my_node_id;
@@ -177,14 +174,6 @@ static MPI_Comm get_default_comm()
 }
 
 
-static int get_default_rank()
-{
-    int rank;
-    MPI_Comm_rank(get_default_comm(), &rank);
-    return rank;
-}
-
-
 static void do_gop(void *x, int n, char* op, int type, ARMCI_Group group)
 {
     MPI_Comm comm = MPI_COMM_NULL;
@@ -254,9 +243,9 @@ void armci_msg_bcast(void *buf, int len, int root)
  */
 void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int contribute)
 {
-    static int initialized = 0;
     MPI_Op mpi_op = MPI_OP_NULL;
     MPI_Comm comm = get_default_comm();
+    int me, size, rank, first, root;
 
     if (SCOPE_NODE == scope) {
       if (_number_of_procs_per_node == 1) {
@@ -266,57 +255,50 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
       }
     }
 
-    /* first time this function is called we establish the
-     * long long w/ int type that MPI doesn't provide by default */
-    if (!initialized) {
-        int block[2];
-        MPI_Aint disp[2];
-        MPI_Datatype type[2];
-
-        initialized = 1;
-        type[0] = MPI_LONG_LONG;
-        type[1] = MPI_INT;
-        disp[0] = 0;
-        disp[1] = sizeof(long long);
-        block[0] = 1;
-        block[1] = 1;
-#if defined(MPI_VERSION) && (MPI_VERSION >= 2)
-        MPI_Type_create_struct(2, block, disp, type, &MPI_LONGLONG_INT);
-#else
-        MPI_Type_struct(2, block, disp, type, &MPI_LONGLONG_INT);
-#endif
-    }
-
     if (strncmp(op, "min", 3) == 0) {
-        mpi_op = MPI_MINLOC;
+        mpi_op = MPI_MIN;
     }
     else if (strncmp(op, "max", 3) == 0) {
-        mpi_op = MPI_MAXLOC;
+        mpi_op = MPI_MAX;
     }
     else {
         comex_error("unsupported armci_msg_sel_scope operation", 1);
     }
 
-#define SELECT(ARMCI_TYPE, C_TYPE, MPI_TYPE)                    \
-    if (type == ARMCI_TYPE) {                                   \
-        struct {                                                \
-            C_TYPE val;                                         \
-            int rank;                                           \
-        } in, out;                                              \
-        in.val = *((C_TYPE*)x);                                 \
-        in.rank = get_default_rank();                           \
-        if (SCOPE_NODE != scope) {                              \
-            comex_barrier(ARMCI_Default_Proc_Group);            \
-        }                                                       \
-        MPI_Allreduce(&in, &out, 1, MPI_TYPE, mpi_op, comm);    \
-        armci_msg_bcast(x, n, out.rank);                        \
-    }                                                           \
+    MPI_Comm_rank(comm, &me);
+    MPI_Comm_size(comm, &size);
+    if (SCOPE_NODE != scope) {
+        comex_barrier(ARMCI_Default_Proc_Group);
+    }
+
+    /* processes without a contribution take part with the value of the first
+     * process that has one; the winner is always one that contributes */
+    rank = contribute ? me : size;
+    MPI_Allreduce(&rank, &first, 1, MPI_INT, MPI_MIN, comm);
+    if (first == size) {
+        first = 0;
+    }
+
+#define SELECT(ARMCI_TYPE, C_TYPE)                                      \
+    if (type == ARMCI_TYPE) {                                           \
+        C_TYPE val = *((C_TYPE*)x), mine, best;                         \
+        MPI_Bcast(&val, 1, armci_type_to_mpi_type(type), first, comm);  \
+        mine = contribute ? *((C_TYPE*)x) : val;                        \
+        MPI_Allreduce(&mine, &best, 1, armci_type_to_mpi_type(type),    \
+                mpi_op, comm);                                          \
+        rank = (contribute && mine == best) ? me : size;                \
+        MPI_Allreduce(&rank, &root, 1, MPI_INT, MPI_MIN, comm);         \
+        if (root == size) {                                             \
+            root = first;                                               \
+        }                                                               \
+        MPI_Bcast(x, n, MPI_BYTE, root, comm);                          \
+    }                                                                   \
     else
-    SELECT(ARMCI_INT,       int,        MPI_2INT)
-    SELECT(ARMCI_LONG,      long,       MPI_LONG_INT)
-    SELECT(ARMCI_LONG_LONG, long long,  MPI_LONGLONG_INT)
-    SELECT(ARMCI_FLOAT,     float,      MPI_FLOAT_INT)
-    SELECT(ARMCI_DOUBLE,    double,     MPI_DOUBLE_INT)
+    SELECT(ARMCI_INT,       int)
+    SELECT(ARMCI_LONG,      long)
+    SELECT(ARMCI_LONG_LONG, long long)
+    SELECT(ARMCI_FLOAT,     float)
+    SELECT(ARMCI_DOUBLE,    double)
     {
         comex_error("unsupported SELECT operation", 1);
     }
diff --git a/global/src/select.c b/global/src/select.c
index e287928..9c77298 100644
--- a/global/src/select.c
+++ b/global/src/select.c
@@ -144,6 +144,7 @@ static void snga_select_elem(Integer type, char* op, void *ptr, Integer elems, e
                       Integer *ind)
 {
   Integer i;
+  *ind = 0;
   switch (type){
     int *ia,ival;
     double *da,dval;
-- 
2.43.0


From 05b0e2727a7c05eff04201cb42b3e54a618cfdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:43 +0000
Subject: [PATCH 36/65] fix: element-wise product of complex arrays was wrong
 when the result is one of the factors

---
 global/src/elem_alg.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/global/src/elem_alg.c b/global/src/elem_alg.c
index 7d9d99c..bb03e6a 100644
--- a/global/src/elem_alg.c
+++ b/global/src/elem_alg.c
@@ -1072,11 +1072,14 @@ static void do_multiply(void *pA, void *pB, void *pC, Integer nelems, Integer ty
 #define TYPE_CASE(MT,T,AT)                                                  \
         case MT:                                                            \
             {                                                               \
-                const T* const restrict aptr = (const T* const restrict)pA; \
-                const T* const restrict bptr = (const T* const restrict)pB; \
-                T* const restrict cptr = (T* const restrict)pC;             \
+                /* C may be A or B */                                       \
+                const T* const aptr = (const T*)pA;                         \
+                const T* const bptr = (const T*)pB;                         \
+                T* const cptr = (T*)pC;                                     \
                 for (i=0; i<nelems; i++) {                                  \
-                    assign_mul_##AT(cptr[i],aptr[i],bptr[i]);               \
+                    const T a = aptr[i];                                    \
+                    const T b = bptr[i];                                    \
+                    assign_mul_##AT(cptr[i],a,b);                           \
                 }                                                           \
                 break;                                                      \
             }
-- 
2.43.0


From 7832e82b66f56a2bb34d63a0d591f7613f8b4b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 37/65] fix: element selection aborted for arrays with ghost
 cells and processes owning several blocks

---
 global/src/select.c | 49 +++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/global/src/select.c b/global/src/select.c
index 9c77298..fab1f1d 100644
--- a/global/src/select.c
+++ b/global/src/select.c
@@ -285,37 +285,42 @@ void pnga_select_elem(Integer g_a, char* op, void* val, Integer *subscript)
   first_pass = 1;
   pnga_local_iterator_init(g_a, &hdl_a);
   while (pnga_local_iterator_next(&hdl_a, lo, hi, &cptr, ld)) {
-    Integer update;
-    GET_ELEMS(ndim,lo,hi,ld,&elems);
+    Integer update, row, nrows, rest, stride, offset, index[MAXDIM];
     participate =1;
-    ptr = (void*)cptr;
 
-    if (first_pass) {
-      /* select local element */
-      snga_select_elem(type, op, ptr, elems, &info, &ind);
-
-      /* determine element subscript in the ndim-array */
-      for(i = 0; i < ndim; i++){
-        int elems = (int)( hi[i]-lo[i]+1);
-        info.subscr[i] = ind%elems + lo[i] ;
-        ind /= elems;
+    /* the block may be part of a larger piece of memory (ghost cells, several
+     * blocks of one process), so take it row by row */
+    elems = hi[0]-lo[0]+1;
+    nrows = 1;
+    for (i = 1; i < ndim; i++) nrows *= hi[i]-lo[i]+1;
+    for (row = 0; row < nrows; row++) {
+      offset = 0;
+      stride = 1;
+      rest = row;
+      for (i = 1; i < ndim; i++) {
+        index[i] = rest%(hi[i]-lo[i]+1);
+        rest /= hi[i]-lo[i]+1;
+        stride *= ld[i-1];
+        offset += index[i]*stride;
       }
-    } else {
+      ptr = (void*)(cptr + offset*GAsizeofM(type));
+
       /* select local element */
       snga_select_elem(type, op, ptr, elems, &new_info, &ind);
-
-      /* compare with old block */
-      snga_compare_elem(type,op, &new_info, &info, &update);
+      if (first_pass) {
+        info = new_info;
+        update = 1;
+        first_pass = 0;
+      } else {
+        /* compare with what was found before */
+        snga_compare_elem(type,op, &new_info, &info, &update);
+      }
       /* determine element subscript in the ndim-array */
       if (update) {
-        for(i = 0; i < ndim; i++){
-          int elems = (int)( hi[i]-lo[i]+1);
-          info.subscr[i] = ind%elems + lo[i] ;
-          ind /= elems;
-        }
+        info.subscr[0] = ind + lo[0];
+        for (i = 1; i < ndim; i++) info.subscr[i] = index[i] + lo[i];
       }
     }
-    first_pass = 0;
   }
 #if 0
   if (num_blocks < 0) {
-- 
2.43.0


From b93f590279feb999f3fc3f94685f8e6160be85ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 38/65] fix: GA_Norm1 and GA_Norm_infinity used only the last
 block of each process

---
 global/src/matrix.c | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index ddd39f1..01bc657 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -738,6 +738,7 @@ void pnga_median(Integer g_a, Integer g_b, Integer g_c, Integer g_m){
 
 }
 
+/* raises the maximum in buf (initially zero) to that of this block */
 static void sgai_norm_infinity_block(Integer g_a, void *ptr,
                              Integer *lo, Integer *hi, Integer ld,
                              Integer type,
@@ -811,7 +812,6 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       float ftemp;
       case C_INT:
       pi = (int *) ptr;
-      *isum = GA_ABS(pi[0]);
       for (j = 0; j < jhiA - jloA + 1; j++) {
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pi[j*ld + i]) > *isum) *isum = GA_ABS(pi[j*ld+i]);
@@ -819,17 +819,12 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_LONG:
       pl = (long *) ptr;
-      *lsum = GA_ABS(pl[0]);
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pl[j*ld + i]) > *lsum) *lsum = GA_ABS(pl[j*ld+i]);
       break;
       case C_DCPL:
       pz = (DoubleComplex *) ptr;
-      zval = pz[0];
-      dtemp =
-        sqrt (zval.real * zval.real + zval.imag * zval.imag);
-      (*zsum).real = dtemp;
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
         {
@@ -841,10 +836,6 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_SCPL:
       pc = (SingleComplex *) ptr;
-      cval =  pc[0];
-      ftemp =
-        sqrt (cval.real * cval.real + cval.imag * cval.imag);
-      (*csum).real = ftemp;
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
         {
@@ -856,14 +847,12 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_FLOAT:
       pf = (float *) ptr;
-      *fsum = pf[0];
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pf[j*ld+i]) > *fsum) *fsum = GA_ABS(pf[j*ld+i]);
       break;
       case C_DBL:
       pd = (double *) ptr;
-      *dsum = pd[0];
       for (i = 0; i < ihiA - iloA + 1; i++)
         for (j = 0; j < jhiA - jloA + 1; j++)
           if (GA_ABS(pd[j*ld+i]) > *dsum) *dsum = GA_ABS(pd[j*ld+i]);
@@ -1059,6 +1048,7 @@ void pnga_norm_infinity(Integer g_a, double *nm)
   if (local_sync_end)pnga_sync();
 }
 
+/* adds the sum over this block to buf (initially zero) */
 static void sgai_norm1_block(Integer g_a, void *ptr,
                      Integer *lo, Integer *hi, Integer ld,
                      Integer type,
@@ -1128,22 +1118,18 @@ static void sgai_norm1_block(Integer g_a, void *ptr,
       SingleComplex *pc;
       case C_INT:
         pi = (int *) ptr;
-        *isum = 0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *isum += GA_ABS (pi[j * ld + i]);
         break;
       case C_LONG:
         pl = (long *) ptr;
-        *lsum = 0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *lsum += GA_ABS (pl[j * ld + i]);
         break;
       case C_DCPL:
         pz = (DoubleComplex *) ptr;
-        (*zsum).real = 0.0;
-        (*zsum).imag = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
           {
@@ -1155,8 +1141,6 @@ static void sgai_norm1_block(Integer g_a, void *ptr,
         break;
       case C_SCPL:
         pc = (SingleComplex *) ptr;
-        (*csum).real = 0.0;
-        (*csum).imag = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
           {
@@ -1168,14 +1152,12 @@ static void sgai_norm1_block(Integer g_a, void *ptr,
         break;
       case C_FLOAT:
         pf = (float *) ptr;
-        *fsum = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *fsum += GA_ABS (pf[j * ld + i]);
         break;
       case C_DBL:
         pd = (double *) ptr;
-        *dsum = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *dsum += GA_ABS (pd[j * ld + i]);
-- 
2.43.0


From 98c52065e8d9ce16c82796d71be82d222b0f0dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 39/65] fix: GA_Zero_diagonal zeroed other elements when blocks
 do not start on the diagonal

---
 global/src/matrix.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index 01bc657..575cac9 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -2312,6 +2312,8 @@ void pnga_zero_diagonal(Integer g_a)
       hi[0] = GA_MIN (hiA[0], hiA[1]);
       hi[1] = GA_MIN (hiA[0], hiA[1]);
       if (hi[0] >= lo[0]) {
+        /* position of the first diagonal element in this block */
+        offset = ld*(lo[1]-loA[1]) + lo[0]-loA[0];
         sgai_zero_diagonal_block(g_a, ptr, lo, hi, ld, offset, type);
       }
     }
-- 
2.43.0


From e1f0060071c9b2cf53b916ee8583aec09585d374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:08 +0000
Subject: [PATCH 40/65] fix: scaling rows or columns of complex arrays
 multiplied the parts separately

---
 global/src/matrix.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index 575cac9..0417eba 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -2486,16 +2486,18 @@ static void sgai_scale_row_values(Integer type, Integer *lo,
           dca = (DoubleComplex *) ptr;
           for (i = 0; i < hi[0]-lo[0]+1; i++)
             for(j=0;j<hi[1]-lo[1]+1;j++) {
-              (dca[j*ld+i]).real *= (((DoubleComplex *) buf)[i]).real;
-              (dca[j*ld+i]).imag *= (((DoubleComplex *) buf)[i]).imag;
+              DoubleComplex x = dca[j*ld+i], y = ((DoubleComplex *) buf)[i];
+              dca[j*ld+i].real = x.real*y.real - x.imag*y.imag;
+              dca[j*ld+i].imag = x.real*y.imag + x.imag*y.real;
             }
           break;
         case C_SCPL:
           fca = (SingleComplex *) ptr;
           for (i = 0; i < hi[0]-lo[0]+1; i++)
             for(j=0;j<hi[1]-lo[1]+1;j++) {
-              (fca[j*ld+i]).real *= (((SingleComplex *) buf)[i]).real;
-              (fca[j*ld+i]).imag *= (((SingleComplex *) buf)[i]).imag;
+              SingleComplex x = fca[j*ld+i], y = ((SingleComplex *) buf)[i];
+              fca[j*ld+i].real = x.real*y.real - x.imag*y.imag;
+              fca[j*ld+i].imag = x.real*y.imag + x.imag*y.real;
             }
           break;
         default:
@@ -2692,8 +2694,9 @@ static void sgai_scale_col_values(Integer type, Integer *lo,
           for(j=0;j<hi[1]-lo[1]+1;j++)
             for (i = 0; i < hi[0]-lo[0]+1; i++)
             {
-              (dca[j*ld+i]).real *= (((DoubleComplex *) buf)[j]).real;
-              (dca[j*ld+i]).imag *= (((DoubleComplex *) buf)[j]).imag;
+              DoubleComplex x = dca[j*ld+i], y = ((DoubleComplex *) buf)[j];
+              dca[j*ld+i].real = x.real*y.real - x.imag*y.imag;
+              dca[j*ld+i].imag = x.real*y.imag + x.imag*y.real;
             }
           break;
         case C_SCPL:
@@ -2701,8 +2704,9 @@ static void sgai_scale_col_values(Integer type, Integer *lo,
           for(j=0;j<hi[1]-lo[1]+1;j++)
             for (i = 0; i < hi[0]-lo[0]+1; i++)
             {
-              (fca[j*ld+i]).real *= (((SingleComplex *) buf)[j]).real;
-              (fca[j*ld+i]).imag *= (((SingleComplex *) buf)[j]).imag;
+              SingleComplex x = fca[j*ld+i], y = ((SingleComplex *) buf)[j];
+              fca[j*ld+i].real = x.real*y.real - x.imag*y.imag;
+              fca[j*ld+i].imag = x.real*y.imag + x.imag*y.real;
             }
           break;
         default:
-- 
2.43.0


From 6c0ff4d64f783eb222f54e253245819b9fac8d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:09 +0000
Subject: [PATCH 41/65] fix: matrix multiplication with transposed
 N-dimensional patches given before transposition

---
 global/src/matmul.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/global/src/matmul.c b/global/src/matmul.c
index 0c8dc5f..137a049 100644
--- a/global/src/matmul.c
+++ b/global/src/matmul.c
@@ -2446,6 +2446,8 @@ void pnga_matmul_patch_alt(char *transa, char *transb, void *alpha, void *beta,
       }
       if (e == 0) {
         aivec = -1;
+        ipos = 0;
+        jpos = 1;
       } else if (e == 1) {
         /* array is a vector */
         aivec = ipos;
@@ -2458,13 +2460,20 @@ void pnga_matmul_patch_alt(char *transa, char *transb, void *alpha, void *beta,
       } else {
         aivec = -1;
       }
+      lo = alo[ipos];
+      hi = ahi[ipos];
+      alo[ipos] = alo[jpos];
+      ahi[ipos] = ahi[jpos];
+      alo[jpos] = lo;
+      ahi[jpos] = hi;
+    } else {
+      lo = alo[0];
+      hi = ahi[0];
+      alo[0] = alo[1];
+      ahi[0] = ahi[1];
+      alo[1] = lo;
+      ahi[1] = hi;
     }
-    lo = alo[0];
-    hi = ahi[0];
-    alo[0] = alo[1];
-    ahi[0] = ahi[1];
-    alo[1] = lo;
-    ahi[1] = hi;
   }
   if (*transb == 't' || *transb == 'T') {
     pnga_inquire(g_b, &btype, &brank, bdims);
@@ -2487,10 +2496,12 @@ void pnga_matmul_patch_alt(char *transa, char *transb, void *alpha, void *beta,
       }
       if (e == 0) {
         bivec = -1;
+        ipos = 0;
+        jpos = 1;
       } else if (e == 1) {
         /* array is a vector */
         bivec = ipos;
-        if (ipos < arank-1) {
+        if (ipos < brank-1) {
           jpos = ipos + 1;
         } else {
           jpos = ipos;
-- 
2.43.0


From b7f6019dcfb9d3e6d2592d7c314bda83814e1caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:15 +0000
Subject: [PATCH 42/65] fix: symmetrizing an array with ghost cells ignored the
 ghost cells in memory

---
 global/src/ga_symmetr.c | 47 +++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/global/src/ga_symmetr.c b/global/src/ga_symmetr.c
index 9b29a88..3cbc998 100644
--- a/global/src/ga_symmetr.c
+++ b/global/src/ga_symmetr.c
@@ -18,27 +18,38 @@
 #include "ga-wapi.h"
 
 static void gai_add(
-        Integer *lo, Integer *hi, void *a, void *b, DoublePrecision alpha,
-        Integer type, Integer nelem, Integer ndim)
+        Integer *lo, Integer *hi, Integer *lda, void *a, void *b,
+        DoublePrecision alpha, Integer nelem, Integer ndim)
 {
-  Integer i, j, m=0;
-  Integer nrow, ncol, indexA=0, indexB=0;
+  Integer i, k, inc, indexA, indexB;
+  Integer len[GA_MAX_DIM], idx[GA_MAX_DIM];
+  Integer strideA[GA_MAX_DIM], strideB[GA_MAX_DIM];
   DoublePrecision *A = (DoublePrecision *)a, *B = (DoublePrecision*)b;
-  Integer offset1=1, offset2=1;
 
-  nrow = hi[ndim-2] - lo[ndim-2] + 1;
-  ncol = hi[ndim-1] - lo[ndim-1] + 1;
-  
-  for(i=0; i<ndim-2; i++) {
-    offset1 *= hi[i] - lo[i] + 1;
-    offset2 *= hi[i] - lo[i] + 1;
+  /* b has no gaps and its last two dimensions are those of a, exchanged */
+  inc = 1;
+  for(i=0; i<ndim; i++) {
+    len[i] = hi[i] - lo[i] + 1;
+    idx[i] = 0;
+    strideA[i] = (i == 0) ? 1 : strideA[i-1]*lda[i-1];
+    if (i < ndim-2) {
+      strideB[i] = inc;
+      inc *= len[i];
+    }
   }
-  offset1 *= nrow;
-  
-  for(j=0; j<offset2; ++j,indexA=j,indexB=j,m=0) {
-    for(i=0; i<nrow*ncol; i++, indexA += offset1, indexB += offset2) {
-      if(indexA >= nelem) indexA = j + ++m*offset2;
-      A[indexA] = alpha *(A[indexA] + B[indexB]);
+  strideB[ndim-1] = inc;
+  strideB[ndim-2] = inc*len[ndim-1];
+
+  for(k=0; k<nelem; k++) {
+    indexA = indexB = 0;
+    for(i=0; i<ndim; i++) {
+      indexA += idx[i]*strideA[i];
+      indexB += idx[i]*strideB[i];
+    }
+    A[indexA] = alpha *(A[indexA] + B[indexB]);
+    for(i=0; i<ndim; i++) {
+      if (++idx[i] < len[i]) break;
+      idx[i] = 0;
     }
   }
 }
@@ -105,7 +116,7 @@ void pnga_symmetrize(Integer g_a) {
     pnga_sync(); 
 
     if(have_data) {
-      gai_add(alo, ahi, a_ptr, b_ptr, alpha, type, nelem, ndim);
+      gai_add(alo, ahi, lda, a_ptr, b_ptr, alpha, nelem, ndim);
       pnga_release_update(g_a, alo, ahi);
       pnga_free(b_ptr);
     }
-- 
2.43.0


From b1f74e8a97e201b8b736c418c42bc6e0bedfd1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:15 +0000
Subject: [PATCH 43/65] fix: block-cyclic matrix multiplication of patches used
 wrong blocks and overran its buffers

---
 global/src/matmul.c | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/global/src/matmul.c b/global/src/matmul.c
index 137a049..46433e0 100644
--- a/global/src/matmul.c
+++ b/global/src/matmul.c
@@ -2676,7 +2676,7 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
     Integer num_blocks;
     Integer offset, elemsize, ld;
     void *a_buf, *b_buf, *c_buf;
-    Integer size_a, size_b, size_c;
+    Integer size_a, size_b;
     /*
     printf("p[%d] loC[0]: %d hiC[0]: %d loC[1]: %d hiC[1]: %d lC[0]: %d\n",
         pnga_nodeid(),loC[0],hiC[0],loC[1],hiC[1],lC[0]);
@@ -2688,7 +2688,7 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
     }
 
     /* check to see if this block overlaps with patch on C */
-    if (pnga_patch_intersect(loC,hiC,lot,hit,crank)) {
+    if (pnga_patch_intersect(clo,chi,lot,hit,crank)) {
       int istart, in;
 
       /* Calculating number of blocks for inner dimension. Assume that 
@@ -2700,9 +2700,12 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
       offset = lC[0]*(lot[1]-loC[1])+lot[0]-loC[0];
       elemsize = GAsizeofM(atype);
       c_buf = (void*)((char*)src_ptr + elemsize*offset);
-      a_buf = (void*)malloc((hit[0]-lot[0]+1)*(hit[1]-lot[1]+1)*elemsize);
-      b_buf = (void*)malloc((hit[0]-lot[0]+1)*(hit[1]-lot[1]+1)*elemsize);
-      size_c = (hit[0]-lot[0]+1)*(hit[1]-lot[1]+1);
+      /* blocks of A are (at most) hit[0]-lot[0]+1 square, blocks of B have
+       * the same shape as the block of C */
+      size_a = (hit[0]-lot[0]+1)*(hit[0]-lot[0]+1);
+      size_b = (hit[0]-lot[0]+1)*(hit[1]-lot[1]+1);
+      a_buf = (void*)malloc(size_a*elemsize);
+      b_buf = (void*)malloc(size_b*elemsize);
 
       /* calculate starting block index */
       istart = (lot[0]-clo[0])/(hit[0]-lot[0]+1);
@@ -2716,16 +2719,12 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
         in = istart + nb;
         in = in%num_blocks;
         nlo = alo[1]+in*(hit[0]-lot[0]+1);
-        loA[0] = lot[0];
-        hiA[0] = hit[0];
+        loA[0] = alo[0]+lot[0]-clo[0];
+        hiA[0] = alo[0]+hit[0]-clo[0];
         loA[1] = nlo;
         hiA[1] = loA[1]+(hit[0]-lot[0]);
         if (hiA[1] > ahi[1]) hiA[1] = ahi[1];
         ld = hiA[0]-loA[0]+1;
-        size_a = (hiA[0]-loA[0]+1)*(hiA[1]-loA[1]+1);
-        if (size_a > size_c) {
-          printf("p[%d] size_a: %d size_c: %d\n",(int)pnga_nodeid(),(int)size_a,(int)size_c);
-        }
         /*
     printf("p[%d] loA[0]: %d hiA[0]: %d loA[1]: %d hiA[1]: %d\n",pnga_nodeid(),
         loA[0],hiA[0],loA[1],hiA[1]);
@@ -2734,18 +2733,13 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
         /*
         printBlock("Matrix A",atype,a_buf,loA,hiA,&ld);
         */
-        loB[1] = lot[1];
-        hiB[1] = hit[1];
+        loB[1] = blo[1]+lot[1]-clo[1];
+        hiB[1] = blo[1]+hit[1]-clo[1];
         nlo = blo[0]+in*(hit[0]-lot[0]+1);
         loB[0] = nlo;
         hiB[0] = loB[0]+(hit[0]-lot[0]);
         if (hiB[0] > bhi[0]) hiB[0] = bhi[0];
         ld = hiB[0]-loB[0]+1;
-        size_b = (hiB[0]-loB[0]+1)*(hiB[1]-loB[1]+1);
-        if (size_b > size_c) {
-          printf("p[%d] size_b: %d size_c: %d\n",(int)pnga_nodeid(),
-              (int)size_b,(int)size_c);
-        }
         /*
     printf("p[%d] loB[0]: %d hiB[0]: %d loB[1]: %d hiB[1]: %d\n",pnga_nodeid(),
         loB[0],hiB[0],loB[1],hiB[1]);
-- 
2.43.0


From 77e2770ee05e5c879ace597daba83a81ae671a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:54 +0000
Subject: [PATCH 44/65] fix: NGA_Update_ghost_dir counted the dimensions in the
 wrong order

---
 global/src/capi.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index edeeac4..a6e9b88 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -1564,7 +1564,8 @@ int NGA_Update_ghost_dir(int g_a, int dimension, int dir, int flag)
     Integer idir = (Integer)dir;
     logical iflag = (logical)flag;
     logical st;
-    idim++;
+    /* dimensions are in reverse order in Fortran, where they count from one */
+    idim = wnga_ndim(a) - idim;
     st = wnga_update_ghost_dir(a,idim,idir,iflag);
     return (int)st;
 }
-- 
2.43.0


From 7abe82108f9ffe892e32301fdf2730706301eba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:54 +0000
Subject: [PATCH 45/65] fix: NGA_NbGet_ghost_dir shifted the mask by one

---
 global/src/capi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index a6e9b88..15fb24e 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -1575,7 +1575,7 @@ void NGA_NbGet_ghost_dir(int g_a, int mask[], ga_nbhdl_t* nbhandle)
     Integer a=(Integer)g_a;
     Integer ndim = wnga_ndim(a);
     Integer _ga_lo[MAXDIM];
-    COPYINDEX_C2F(mask,_ga_lo, ndim);
+    COPYC2F(mask,_ga_lo, ndim);
     wnga_nbget_ghost_dir(a, _ga_lo,(Integer *)nbhandle);
 }
 
@@ -1584,7 +1584,7 @@ void NGA_NbGet_ghost_dir64(int g_a, int64_t mask[], ga_nbhdl_t* nbhandle)
     Integer a=(Integer)g_a;
     Integer ndim = wnga_ndim(a);
     Integer _ga_lo[MAXDIM];
-    COPYINDEX_C2F(mask,_ga_lo, ndim);
+    COPYC2F(mask,_ga_lo, ndim);
     wnga_nbget_ghost_dir(a, _ga_lo,(Integer *)nbhandle);
 }
 
-- 
2.43.0


From 2f3a1f6c427acce0fb8ed0963dfb8c1b2a9acf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:54 +0000
Subject: [PATCH 46/65] fix: ghost widths one larger than a block were accepted
 and updated from outside the block

---
 global/src/ghosts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index b8e640b..26a343d 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -786,7 +786,7 @@ static logical gai_check_ghost_distr(Integer g_a)
   for (idx = 0; idx < ndim; idx++) {
     for (np = 0; np < GA[handle].nblock[idx]; np++) {
       if (np < GA[handle].nblock[idx] - 1) {
-        if (GA[handle].mapc[ipx+1]-GA[handle].mapc[ipx]+1
+        if (GA[handle].mapc[ipx+1]-GA[handle].mapc[ipx]
             <GA[handle].width[idx]) {
           return FALSE;
         }
@@ -2969,7 +2969,7 @@ logical pnga_update_ghost_dir(Integer g_a,    /* GA handle */
   for (idx = 0; idx < ndim; idx++) {
     for (np = 0; np < GA[handle].nblock[idx]; np++) {
       if (np < GA[handle].nblock[idx] - 1) {
-        if (GA[handle].mapc[ipx+1]-GA[handle].mapc[ipx]+1<width[idx]) {
+        if (GA[handle].mapc[ipx+1]-GA[handle].mapc[ipx]<width[idx]) {
           return FALSE;
         }
       } else {
-- 
2.43.0


From 5edea19de70bf11ee70e9882cd2d44ff42559b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:54 +0000
Subject: [PATCH 47/65] fix: directional ghost update with zero width in a
 dimension aborted

---
 global/src/ghosts.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index 26a343d..6d78688 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -3019,6 +3019,11 @@ logical pnga_update_ghost_dir(Integer g_a,    /* GA handle */
         inx++;
       }
     }
+    /* check to see if ghost cell block has zero elements */
+    for (idx = 0; idx < ndim; idx++) {
+      if (mask[idx] != 0 && width[idx] == 0) break;
+    }
+    if (idx < ndim) continue;
     /* Now that mask has been determined, find processor that contains
      * data needed by the corresponding block of ghost cells */
     for (idx = 0; idx < ndim; idx++) {
-- 
2.43.0


From 587b990e5fc0ee35380ba1a6cb0140f727746e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 48/65] fix: a second binning used counts left over from the
 first

---
 global/src/sparse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/sparse.c b/global/src/sparse.c
index 94929d2..57acda5 100644
--- a/global/src/sparse.c
+++ b/global/src/sparse.c
@@ -716,6 +716,7 @@ int len, lenmes, tag=32100, i, me=armci_msg_me();
     /* up-tree phase: collect number of elements */
     if (left > -1) armci_msg_rcv(tag, workL, len, &lenmes, left);
     if (right > -1) armci_msg_rcv(tag, workR, len, &lenmes, right);
+    else for(i=0;i<n;i++)workR[i] = 0; /* left over from an earlier call */
 
     /* add number of elements in each bin */
     if((right > -1) && left>-1) for(i=0;i<n;i++)workL[i] += workR[i] +x[i];
-- 
2.43.0


From 90f32cba341333098bd6f5cd1daaac5da0a86244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 49/65] fix: bin sorting read the ranges of bins before they
 were written

---
 global/src/sparse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/sparse.c b/global/src/sparse.c
index 57acda5..09ee41c 100644
--- a/global/src/sparse.c
+++ b/global/src/sparse.c
@@ -842,6 +842,8 @@ Integer tlo[2], thi[2];
           }
       }
    }
+   /* the ranges were written by the owners of the offsets */
+   pnga_sync();
    return TRUE;
 }
 
-- 
2.43.0


From 2e41ce2d894a1bc89b32e8ea2f1a6d0ae810c8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 50/65] fix: bin sorting never destroyed its temporary array

---
 global/src/sparse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/sparse.c b/global/src/sparse.c
index 09ee41c..9b7f840 100644
--- a/global/src/sparse.c
+++ b/global/src/sparse.c
@@ -890,10 +890,12 @@ Integer g_range;
             gai_hsort(ptr, elems);
             ptr+=elems;
         }
+        free(bin_cnt);
         pnga_release_update(g_bin, &lo, &hi);             
     }
 
     pnga_sync();
+    pnga_destroy(g_range);
 }
 
 
-- 
2.43.0


From 778629e4bf10ead1bc47e3a80191bd00773aad4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 51/65] fix: MA accepted requests whose length in bytes
 overflowed

---
 ma/ma.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ma/ma.c b/ma/ma.c
index 03f214e..2540540 100644
--- a/ma/ma.c
+++ b/ma/ma.c
@@ -2003,6 +2003,16 @@ public Boolean MA_allocate_heap(
     /* convert datatype to internal (index-suitable) value */
     datatype = mt_import(datatype);
 
+    /* verify that the length of the block can be computed */
+    if (nelem > (Integer)(ma_eos - ma_segment) / ma_sizeof[datatype])
+    {
+        (void)sprintf(ma_ebuf,
+            "block '%s', not enough space to allocate %ld elements",
+            name, (size_t)nelem);
+        ma_error(EL_Nonfatal, ET_External, "MA_allocate_heap", ma_ebuf);
+        return MA_FALSE;
+    }
+
     /*
      * attempt to allocate space
      */
@@ -3298,6 +3308,16 @@ public Boolean MA_push_stack(
     /* convert datatype to internal (index-suitable) value */
     datatype = mt_import(datatype);
 
+    /* verify that the length of the block can be computed */
+    if (nelem > (Integer)(ma_eos - ma_segment) / ma_sizeof[datatype])
+    {
+        (void)sprintf(ma_ebuf,
+            "block '%s', not enough space to allocate %ld elements",
+            name, (size_t)nelem);
+        ma_error(EL_Nonfatal, ET_External, "MA_push_stack", ma_ebuf);
+        return MA_FALSE;
+    }
+
     /*
      * attempt to allocate space
      */
-- 
2.43.0


From c4625b76f3c55e8dc33a7378f185f5c23257ebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:05 +0000
Subject: [PATCH 52/65] fix: MA stack inquiries promised space that was not
 there

---
 ma/ma.c | 60 +++++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 8 deletions(-)

diff --git a/ma/ma.c b/ma/ma.c
index 2540540..e568c73 100644
--- a/ma/ma.c
+++ b/ma/ma.c
@@ -178,6 +178,7 @@ private int list_print(AD *list, char *block_type, int index_base);
 private void list_verify(AD *list, char *block_type, char *preamble, int *blocks, int *bad_blocks, int *bad_checksums, int *bad_lguards, int *bad_rguards);
 private Integer ma_max_heap_frag_nelem(Integer datatype, Integer min_nelem);
 private Integer ma_nelem(Pointer address, ulongi length, Integer datatype);
+private Integer ma_nelem_before(Pointer address, ulongi length, Integer datatype);
 private void ma_preinitialize(char *caller);
 private Boolean mh2ad(Integer memhandle, AD **adout, BlockLocation location, char *caller);
 private void mh_free(AD *ad);
@@ -1563,6 +1564,48 @@ private Integer ma_nelem(address, length, datatype)
     return ar.nelem;
 }
 
+/* ------------------------------------------------------------------------- */
+/*
+ * Return the maximum number of datatype elements that can currently
+ * be accomodated in length bytes ending at address, i.e., on the stack.
+ */
+/* ------------------------------------------------------------------------- */
+
+private Integer ma_nelem_before(address, length, datatype)
+    Pointer    address;    /* end of hypothetical block */
+    ulongi    length;        /* length of hypothetical block */
+    Integer    datatype;    /* of elements in hypothetical block */
+{
+    AR        ar;        /* allocation request */
+    Pointer    client_space;    /* location of client_space */
+    ulongi    nbytes;        /* length of block for ar */
+
+    if (length <= BLOCK_OVERHEAD_FIXED)
+        /* no point in computing anything */
+        return (Integer)0;
+
+    /* compute initial request */
+    ar.datatype = datatype;
+    ar.nelem = (length - BLOCK_OVERHEAD_FIXED) / ma_sizeof[datatype];
+
+    /* make requests until one succeeds or we give up */
+    while (ar.nelem > 0)
+    {
+        /* perform trial allocation to determine size */
+        balloc_before(&ar, address, &client_space, &nbytes);
+
+        if (nbytes > length)
+            /* not enough space for ar.nelem elements */
+            ar.nelem--;
+        else
+            /* enough space for ar.nelem elements */
+            break;
+    }
+
+    /* return the result */
+    return ar.nelem;
+}
+
 /* ------------------------------------------------------------------------- */
 /*
  * Perform operations necessary to allow certain functions to be invoked
@@ -2681,7 +2724,9 @@ public Integer MA_inquire_avail(Integer datatype)
     /* try space between heap and stack */
     gap_length = (size_t)(ma_sp - ma_hp);
     if (gap_length > 0)
-        nelem_gap = ma_nelem(ma_hp, (ulongi)gap_length, datatype);
+        /* in the heap or on the stack */
+        nelem_gap = min(ma_nelem(ma_hp, (ulongi)gap_length, datatype),
+            ma_nelem_before(ma_sp, (ulongi)gap_length, datatype));
     else
         nelem_gap = 0;
 
@@ -2817,7 +2862,7 @@ public Integer MA_inquire_heap_check_stack(Integer datatype)
 
     /* try space between heap and partition or heap and stack */
     gap_length = min((size_t)(ma_partition - ma_hp), (size_t)(ma_sp - ma_hp));
-    if (gap_length > 0)
+    if (ma_partition > ma_hp)
         nelem_gap = ma_nelem(ma_hp, (ulongi)gap_length, datatype);
     else
         nelem_gap = 0;
@@ -2955,9 +3000,8 @@ public Integer MA_inquire_stack(Integer datatype)
 
     /* try space between partition and stack */
     gap_length = (size_t)(ma_sp - ma_partition);
-    /*if (ma_sp > ma_partition)*/
-    if (gap_length > 0)
-        nelem_gap = ma_nelem(ma_partition, (ulongi)gap_length, datatype);
+    if (ma_sp > ma_partition)
+        nelem_gap = ma_nelem_before(ma_sp, (ulongi)gap_length, datatype);
     else
         nelem_gap = 0;
 
@@ -3023,8 +3067,8 @@ public Integer MA_inquire_stack_check_heap(Integer datatype)
 
     /* try space between partition and stack or heap and stack */
     gap_length = min((size_t)(ma_sp - ma_partition), (size_t)(ma_sp - ma_hp));
-    if (gap_length > 0)
-        nelem_gap = ma_nelem(ma_partition, (ulongi)gap_length, datatype);
+    if (ma_sp > ma_partition)
+        nelem_gap = ma_nelem_before(ma_sp, (ulongi)gap_length, datatype);
     else
         nelem_gap = 0;
 
@@ -3094,7 +3138,7 @@ public Integer MA_inquire_stack_no_partition(Integer datatype)
     gap_length = (size_t)(ma_sp - ma_hp);
     /*if (ma_sp > ma_hp)*/
     if (gap_length > 0)
-        nelem_gap = ma_nelem(ma_hp, (ulongi)gap_length, datatype);
+        nelem_gap = ma_nelem_before(ma_sp, (ulongi)gap_length, datatype);
     else
         nelem_gap = 0;
 
-- 
2.43.0


From aeb2299e56ac836509377099cf5e1d5c13ad5cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:05 +0000
Subject: [PATCH 53/65] fix: MA_free_heap_piece cut a block short after the
 alignment had changed

---
 ma/ma.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ma/ma.c b/ma/ma.c
index e568c73..3407d6c 100644
--- a/ma/ma.c
+++ b/ma/ma.c
@@ -2290,8 +2290,14 @@ public Boolean MA_free_heap_piece(
     ar.datatype = ad->datatype;
     ar.nelem = ad->nelem - nelem;
 
-    /* perform trial allocation to determine size */
-    balloc_after(&ar, (Pointer)ad, &client_space, &nbytes);
+    /*
+     * determine size; client_space stays where it is, whatever the
+     * alignment that is requested for new blocks
+     */
+    client_space = ad->client_space;
+    nbytes = (ulongi)(client_space - (Pointer)ad)
+        + ar.nelem * ma_sizeof[ar.datatype] + sizeof(Guard);
+    nbytes = (ulongi)mai_round((size_t)nbytes, (ulongi)ALIGNMENT);
 
     if (nbytes < ad->nbytes)
     {
-- 
2.43.0


From bcb440d17ec4827441d07157d979c34a0a2ac5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:37 +0000
Subject: [PATCH 54/65] fix: GA_Set_property(read_only) left the default group
 changed

---
 global/src/base.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/base.c b/global/src/base.c
index c09c99b..0a41467 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2117,6 +2117,7 @@ void pnga_set_property(Integer g_a, char* property) {
       list[i] = origin_id+i;
     }
     handle = pnga_pgroup_create(list, nprocs);
+    pnga_pgroup_set_default(dflt_grp);
     free(list);
     GA[ga_handle].p_handle = handle;
     GA[ga_handle].property = READ_ONLY;
-- 
2.43.0


From 2d1d3823c4e323062d193f2aab982a9fe1bb73dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:37 +0000
Subject: [PATCH 55/65] fix: GA_Unset_property freed memory other processes
 still read

---
 global/src/base.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index 0a41467..5859507 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2362,6 +2362,8 @@ void pnga_unset_property(Integer g_a) {
       pnga_access_ptr(g_tmp,lo,hi,&ptr,ld);
       pnga_get(g_a,lo,hi,ptr,ld);
     }
+    /* other processes may still be reading from the current memory */
+    pnga_pgroup_sync(GA[ga_handle].old_handle);
 
     /* Get rid of current memory allocation */
 #ifndef AVOID_MA_STORAGE
-- 
2.43.0


From 1fa806599ada8656e72d6d339f0d3f54c2a64162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:37 +0000
Subject: [PATCH 56/65] fix: GA_Unset_property lost the scale of the
 distribution

---
 global/src/base.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index 5859507..ac50fd1 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2397,6 +2397,8 @@ void pnga_unset_property(Integer g_a) {
       GA[ga_handle].nblock[i] = GA[ga_handle].old_nblock[i];
       GA[ga_handle].lo[i] = GA[ga_handle].old_lo[i];
       GA[ga_handle].chunk[i] = GA[ga_handle].old_chunk[i];
+      GA[ga_handle].scale[i] = (double)GA[ga_handle].nblock[i]
+        / (double)GA[ga_handle].dims[i];
       btot += GA[ga_handle].nblock[i];
     }
     free(GA[ga_handle].mapc);
-- 
2.43.0


From f83b1cddea776a7739ad9c77e9e106140e84d2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:37 +0000
Subject: [PATCH 57/65] fix: GA_Unset_property sized the memory for the wrong
 block

---
 global/src/base.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index ac50fd1..8da0023 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2408,6 +2408,8 @@ void pnga_unset_property(Integer g_a) {
     }
     free(GA[ga_handle].old_mapc);
 
+    /* the distribution is the original one from here on */
+    GA[ga_handle].property = NO_PROPERTY;
     pnga_distribution(g_a, grp_me, GA[ga_handle].lo, hi);
     chk = 1;
     for( i = 0, nelem=1; i< ndim; i++){
-- 
2.43.0


From 733e9dc01a7de6e5a0bf31ec827c609eb86f3009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:37 +0000
Subject: [PATCH 58/65] fix: GA_Unset_property lost the restored memory in the
 statistics

---
 global/src/base.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/base.c b/global/src/base.c
index 8da0023..36733b6 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2423,6 +2423,7 @@ void pnga_unset_property(Integer g_a) {
     GAstat.curmem -= GA[ga_handle].size;
     /* if requested, enforce limits on memory consumption */
     if(GA_memory_limited) GA_total_memory -= mem_size;
+    GAstat.curmem += mem_size;
     /* check if everybody has enough memory left */
     if(GA_memory_limited){
       status = (GA_total_memory >= 0) ? 1 : 0;
-- 
2.43.0


From ebaaa45e5178cf0185f40b304e51e4d669914ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:20 +0000
Subject: [PATCH 59/65] fix: GA_Unset_property left an array caching reads

---
 global/src/base.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/base.c b/global/src/base.c
index 36733b6..255cefe 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2454,7 +2454,6 @@ void pnga_unset_property(Integer g_a) {
     /* Generate parameters for new memory allocation. Distribution function
      * should work, so we can use that to find out how much data is on this
      * processor */
-    GA[ga_handle].property = NO_PROPERTY;
     pnga_distribution(g_a,GAme,lo,hi);
     chk = 1;
     nelem = 1;
@@ -2495,6 +2494,7 @@ void pnga_unset_property(Integer g_a) {
       }
     }
     GA[ga_handle].cache_head = NULL;
+    GA[ga_handle].property = NO_PROPERTY;
   } else {
     GA[ga_handle].property = NO_PROPERTY;
   }
-- 
2.43.0


From 15178f67b4a6fb4597a7084ddea608934bbc16ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 60/65] fix: GA_Duplicate shared the read cache of the original

---
 global/src/base.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index 255cefe..9fa0170 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3786,6 +3786,8 @@ logical pnga_duplicate(Integer g_a, Integer *g_b, char* array_name)
   strcpy(GA[ga_handle].name, array_name);
   GA[ga_handle].ptr = save_ptr;
   GA[ga_handle].distr_type = GA[GA_OFFSET + g_a].distr_type;
+  /* nothing of the new array has been read yet */
+  GA[ga_handle].cache_head = NULL;
   maplen = calc_maplen(GA_OFFSET + g_a);
   if (maplen > 0) {
     GA[ga_handle].mapc = (C_Integer*)malloc((maplen+1)*sizeof(C_Integer*));
-- 
2.43.0


From 45f667bd88e04e1cfebdb17460f4945e29a122b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 61/65] fix: GA_Destroy of a read-only array used its group
 after destroying it

---
 global/src/base.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/global/src/base.c b/global/src/base.c
index 9fa0170..9c41811 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -4020,7 +4020,6 @@ int local_sync_begin,local_sync_end;
 
     if (GA[ga_handle].property == READ_ONLY) {
       free(GA[ga_handle].old_mapc);
-      pnga_pgroup_destroy(GA[ga_handle].p_handle);
     }
 
     if(GA[ga_handle].ptr[grp_me]==NULL){
@@ -4057,6 +4056,11 @@ int local_sync_begin,local_sync_end;
 
 
     if(local_sync_end)pnga_pgroup_sync(grp_id);
+    /* the group of a read-only array is its own */
+    if (GA[ga_handle].property == READ_ONLY) {
+      GA[ga_handle].property = NO_PROPERTY;
+      pnga_pgroup_destroy(grp_id);
+    }
     return(TRUE);
 }
 
-- 
2.43.0


From 99e8644137ba83dec9b992328f5b627666c5db62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 62/65] fix: GA_Fill of a mirrored array wrote through another
 process's pointer

---
 global/src/base.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 9c41811..499c88c 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -4259,7 +4259,8 @@ void pnga_randomize(Integer g_a, void* val)
 
   if (num_blocks < 0) {
     /* Bruce..Please CHECK if this is correct */
-    if (grp_id >= 0){  
+    /* the pointers of a mirrored array are indexed by world rank */
+    if (grp_id > 0){  
       Integer grp_me = PGRP_LIST[GA[handle].p_handle].map_proc_list[GAme];
       ptr = GA[handle].ptr[grp_me];
     }
@@ -4360,7 +4361,8 @@ void pnga_fill(Integer g_a, void* val)
 
   if (num_blocks < 0) {
     /* Bruce..Please CHECK if this is correct */
-    if (grp_id >= 0){  
+    /* the pointers of a mirrored array are indexed by world rank */
+    if (grp_id > 0){  
       Integer grp_me = PGRP_LIST[GA[handle].p_handle].map_proc_list[GAme];
       ptr = GA[handle].ptr[grp_me];
     }
-- 
2.43.0


From eba341ff7880cd743978e224b3ccb5336dab4b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 63/65] fix: NGA_Merge_distr_patch rejected patches reaching
 the last index

---
 global/src/base.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 499c88c..bda000a 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -5512,13 +5512,13 @@ void pnga_merge_distr_patch(Integer g_a, Integer *alo, Integer *ahi,
 
   for (i=0; i<adim; i++) {
     idim = (Integer)GA[a_handle].dims[i];
-    if (alo[i] < 0 || alo[i] >= idim || ahi[i] < 0 || ahi[i] >= idim ||
+    if (alo[i] < 1 || alo[i] > idim || ahi[i] < 1 || ahi[i] > idim ||
         alo[i] > ahi[i])
       pnga_error("Invalid patch index on mirrored GA",0);
   }
   for (i=0; i<bdim; i++) {
     idim = GA[b_handle].dims[i];
-    if (blo[i] < 0 || blo[i] >= idim || bhi[i] < 0 || bhi[i] >= idim ||
+    if (blo[i] < 1 || blo[i] > idim || bhi[i] < 1 || bhi[i] > idim ||
         blo[i] > bhi[i])
       pnga_error("Invalid patch index on distributed GA",0);
   }
-- 
2.43.0


From a5e2988cb3ba98c55755d027f881c398c3dfd43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 64/65] fix: a cached get ignored the leading dimensions of the
 buffer

---
 global/src/onesided.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 607e5b8..3b7c4bd 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -1229,7 +1229,7 @@ void pnga_get(Integer g_a, Integer *lo, Integer *hi,
           }
           /* copy data to recieve buffer */
           gai_mem_copy(GA[handle].elemsize,ndim,temp_buf,nstart,ncount,nld,buf,
-              bstart, ncount /*ld*/);
+              bstart, ld);
           match = 1;
           break;
         }
-- 
2.43.0


From c370ec648343bd60dbc02d135861b2371aa1b659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 65/65] fix: gather and scatter on a group read the counts of
 another process

---
 global/src/onesided.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 3b7c4bd..1b0c7b1 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -3397,7 +3397,7 @@ void gai_gatscat_new(int op, Integer g_a, void* v, void *subscript,
 
     
 
-    me = pnga_nodeid();
+    me = GAme;
     num_rstrctd = GA[handle].num_rstrctd;
     nblock = GA[handle].nblock;
 
@@ -3409,6 +3409,9 @@ void gai_gatscat_new(int op, Integer g_a, void* v, void *subscript,
     } else {
       nprocs = PGRP_LIST[p_handle].map_nproc;
     }
+    /* position of this process among them, if it is one of them */
+    if (p_handle >= 0) me = pnga_pgroup_nodeid(p_handle);
+    if (num_rstrctd > 0 && me >= 0) me = GA[handle].rank_rstrctd[me];
 
     if (!GA_prealloc_gatscat) {
       header =(Integer *)pnga_malloc(nprocs, MT_F_INT, "ga_gat_header");
@@ -3476,7 +3479,7 @@ void gai_gatscat_new(int op, Integer g_a, void* v, void *subscript,
       header[idx] = i;
       list[i] = j;
     }
-    *locbytes = item_size * nelems[me];
+    *locbytes = (me >= 0) ? item_size * nelems[me] : 0;
 
     /* allocate buffers for individual vector calls */
     buf = (char*)malloc(2*maxlen*sizeof(void*));
-- 
2.43.0

