From 7c378cf6281e30ba1b38c3d1b1f9b8d546dd7633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:14 +0000
Subject: [PATCH 01/55] fix: hybrid masked product lost row sizes and
 overlapped its two accumulators

---
 spgemm-blocks/masked-spgemm-poly.h | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/spgemm-blocks/masked-spgemm-poly.h b/spgemm-blocks/masked-spgemm-poly.h
index 75dcfb2..ccb9eea 100644
--- a/spgemm-blocks/masked-spgemm-poly.h
+++ b/spgemm-blocks/masked-spgemm-poly.h
@@ -45,23 +45,12 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         MCA<false, false>::Impl<IT, NT> mca{B.cols, maxRowSizeA, maxRowSizeM, maxRowFlops};
         auto[bufferSizeMCA, bufferAlignmentMCA] = mca.getMemoryRequirement();
 
-        size_t bufferSize = 0;
-//        bufferSize = std::max(bufferSize, bufferSizeHash);
-        bufferSize = std::max(bufferSize, bufferSizeSPA);
-//        bufferSize = std::max(bufferSize, bufferSizeHeap);
-        bufferSize = std::max(bufferSize, bufferSizeMCA);
+        // Both accumulators are in use at the same time, hence they cannot share memory
+        auto bufferSPA = mallocAligned(bufferSizeSPA, bufferAlignmentSPA);
+        auto bufferMCA = mallocAligned(bufferSizeMCA, bufferAlignmentMCA);
 
-        size_t bufferAlignment = 1;
-//        bufferAlignment = std::lcm(bufferAlignment, bufferAlignmentHash);
-        bufferAlignment = std::lcm(bufferAlignment, bufferAlignmentSPA);
-//        bufferAlignment = std::lcm(bufferAlignment, bufferSizeHeap);
-        bufferAlignment = std::lcm(bufferAlignment, bufferAlignmentMCA);
-
-        auto buffer = mallocAligned(bufferSize, bufferAlignment);
-        size_t dirty = bufferSize;
-
-        spa.getNumericAccumulator().setBuffer(buffer, bufferSize, dirty);
-        mca.getNumericAccumulator().setBuffer(buffer, bufferSize, dirty);
+        spa.getNumericAccumulator().setBuffer(bufferSPA, bufferSizeSPA, bufferSizeSPA);
+        mca.getNumericAccumulator().setBuffer(bufferMCA, bufferSizeMCA, bufferSizeMCA);
 
         // Allocate temporary memory for C's column IDs and Values
         IT *colIdsLocal = my_malloc<IT>(upperBoundSizeC, false);
@@ -72,11 +61,13 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         // Numeric phase
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (flopsPerRow[row] != 0) {
+                auto rowColIdBegin = currColId;
                 if ((M.rowptr[row + 1] - M.rowptr[row]) * (A.rowptr[row + 1] - A.rowptr[row]) < flopsPerRow[row]) {
                     mca.numericRow(A, B, M, multop, addop, row, currColId, currValue, flopsPerRow[row]);
                 } else {
                     spa.numericRow(A, B, M, multop, addop, row, currColId, currValue, flopsPerRow[row]);
                 }
+                rowNvals[row] = currColId - rowColIdBegin;
             } else {
                 rowNvals[row] = 0;
             }
@@ -94,7 +85,8 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         copyValuesToC(C, rowBeginIdx, colIdsLocal, valuesLocal, threadsNvals[thisThread]);
 
         my_free(colIdsLocal, valuesLocal);
-        freeAligned(buffer);
+        freeAligned(bufferSPA);
+        freeAligned(bufferMCA);
     }
 
     my_free(flopsPerRow, cumulativeWork, rowNvals, threadsNvals);
-- 
2.43.0


From 744c23c58c3fb55e79414f9d4b11d20cbc124075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:14 +0000
Subject: [PATCH 02/55] fix: complemented heap product aborted on rows whose
 mask is empty

---
 spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h b/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
index 7496790..6a7ea74 100644
--- a/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
+++ b/spgemm-blocks/heap/MaskedHeapAlgorithmInspect.h
@@ -298,7 +298,6 @@ public:
                      IT row, IT *rowNvals, IT &flops) {
         IT maskIdx = M.rowptr[row];
         const IT maskEnd = M.rowptr[row + 1];
-        assert(maskIdx != maskEnd);
 
         // Make initial heap for the row
         initHeap(A, B, row);
@@ -342,7 +341,6 @@ public:
                     MultiplyOperation multop, AddOperation addop, IT row, IT *&currColId, NT *&currValue, IT &flops) {
         IT maskIdx = M.rowptr[row];
         const IT maskEnd = M.rowptr[row + 1];
-        assert(maskIdx != maskEnd);
 
         initHeap(A, B, row);
 
-- 
2.43.0


From 5c46f699b8a41d19c58b852eab1239f36509f6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:31 +0000
Subject: [PATCH 03/55] fix: aligned allocation stored its header through a
 misaligned pointer

---
 spgemm-blocks/util.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spgemm-blocks/util.h b/spgemm-blocks/util.h
index b864f5d..c278927 100644
--- a/spgemm-blocks/util.h
+++ b/spgemm-blocks/util.h
@@ -27,7 +27,8 @@ T *mallocAligned(size_t nelem, size_t alignment = sizeof(T)) {
     shiftSize += (rem != 0) ? (alignment - rem) : 0;
     mem += shiftSize;
 
-    *reinterpret_cast<size_t *>(mem - sizeof(size_t)) = shiftSize;
+    // The slot before mem is not necessarily aligned for size_t
+    std::memcpy(mem - sizeof(size_t), &shiftSize, sizeof(size_t));
 
     return reinterpret_cast<T *>(mem);
 };
@@ -35,7 +36,8 @@ T *mallocAligned(size_t nelem, size_t alignment = sizeof(T)) {
 template<class T>
 void freeAligned(T *ptr) {
     auto *mem = reinterpret_cast<std::byte *>(ptr);
-    size_t shiftSize = *reinterpret_cast<size_t *>(mem - sizeof(size_t));
+    size_t shiftSize;
+    std::memcpy(&shiftSize, mem - sizeof(size_t), sizeof(size_t));
     mem -= shiftSize;
     std::free(mem);
 }
-- 
2.43.0


From a4d2667c2093b65dc7fa9b6b31ba376f9a54618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:06 +0000
Subject: [PATCH 04/55] fix: threads without rows read row offsets that other
 threads were still writing

---
 spgemm-blocks/common.h                  | 2 ++
 spgemm-blocks/inner/MaskedInnerSpGEMM.h | 6 ++++--
 spgemm-blocks/masked-spgemm-inner.h     | 6 ++++--
 spgemm-blocks/masked-spgemm.h           | 6 ++++--
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/spgemm-blocks/common.h b/spgemm-blocks/common.h
index 088f8c4..ca72061 100644
--- a/spgemm-blocks/common.h
+++ b/spgemm-blocks/common.h
@@ -180,6 +180,8 @@ void setRowOffsets(CSR<IT, NT> &C, IT *threadsNvals, IT rowBeginIdx, IT rowEndId
 
 template<class IT, class NT>
 void copyValuesToC(CSR<IT, NT> &C, IT rowBeginIdx, IT *colIdsLocal, NT *valuesLocal, IT threadNvals) {
+    // A thread without rows must not read rowptr, another thread may not have set it yet
+    if (threadNvals == 0) { return; }
     copy(colIdsLocal, colIdsLocal + threadNvals, C.colids + C.rowptr[rowBeginIdx]);
     copy(valuesLocal, valuesLocal + threadNvals, C.values + C.rowptr[rowBeginIdx]);
 }
diff --git a/spgemm-blocks/inner/MaskedInnerSpGEMM.h b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
index dbe5d31..841ead7 100644
--- a/spgemm-blocks/inner/MaskedInnerSpGEMM.h
+++ b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
@@ -178,8 +178,10 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
         setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
-        IT *currColId = &C.colids[C.rowptr[rowBeginIdx]];
-        NT *currValue = &C.values[C.rowptr[rowBeginIdx]];
+        // A thread without rows must not read rowptr, another thread may not have set it yet
+        const IT offset = rowBeginIdx < rowEndIdx ? C.rowptr[rowBeginIdx] : 0;
+        IT *currColId = &C.colids[offset];
+        NT *currValue = &C.values[offset];
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index b334c36..ddac9d7 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -123,8 +123,10 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
         setRowOffsets(C, threadsNvals, rowBeginIdx, rowEndIdx, rowNvals, numThreads, thisThread);
 
         // Numeric phase
-        IT *currColId = &C.colids[C.rowptr[rowBeginIdx]];
-        NT *currValue = &C.values[C.rowptr[rowBeginIdx]];
+        // A thread without rows must not read rowptr, another thread may not have set it yet
+        const IT offset = rowBeginIdx < rowEndIdx ? C.rowptr[rowBeginIdx] : 0;
+        IT *currColId = &C.colids[offset];
+        NT *currValue = &C.values[offset];
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (workPerRow[row] == 0) {
                 rowNvals[row] = 0;
diff --git a/spgemm-blocks/masked-spgemm.h b/spgemm-blocks/masked-spgemm.h
index 58b8b37..196a92f 100644
--- a/spgemm-blocks/masked-spgemm.h
+++ b/spgemm-blocks/masked-spgemm.h
@@ -165,8 +165,10 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
 
         // Numeric phase
         alg.getNumericAccumulator().setBuffer(buffer, bufferSize, dirty);
-        IT *currColId = &R.colids[R.rowptr[rowBeginIdx]];
-        NT *currValue = &R.values[R.rowptr[rowBeginIdx]];
+        // A thread without rows must not read rowptr, another thread may not have set it yet
+        const IT offset = rowBeginIdx < rowEndIdx ? R.rowptr[rowBeginIdx] : 0;
+        IT *currColId = &R.colids[offset];
+        NT *currValue = &R.values[offset];
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (rowNvals[row] == 0) { continue; }
             alg.numericRow(A, B, M, multop, addop, row, currColId, currValue, rowNvals[row]);
-- 
2.43.0


From c223ad96034cf884d5c110b7235929d59a297eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:57 +0000
Subject: [PATCH 05/55] fix: empty outer product formed zero-length array types

---
 outer_mult.h     | 6 +++---
 outer_mult2.h    | 6 +++---
 outer_profile.h  | 6 +++---
 outer_profile2.h | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/outer_mult.h b/outer_mult.h
index 2b013c6..cd6e479 100644
--- a/outer_mult.h
+++ b/outer_mult.h
@@ -344,9 +344,9 @@ void OuterSpGEMM_stage(const CSC<IT, NT>& A, const CSR<IT, NT>& B, IT startIdx,
     C.rows = A.rows;
     C.cols = B.cols;
 
-    C.colids = static_cast<IT*>(::operator new(sizeof(IT[total_nnz])));
-    C.rowptr = static_cast<IT*>(::operator new(sizeof(IT[C.rows+1])));
-    C.values = static_cast<NT*>(::operator new(sizeof(NT[total_nnz])));
+    C.colids = static_cast<IT*>(::operator new(sizeof(IT) * total_nnz));
+    C.rowptr = static_cast<IT*>(::operator new(sizeof(IT) * (C.rows + 1)));
+    C.values = static_cast<NT*>(::operator new(sizeof(NT) * total_nnz));
 
     C.rowptr[0] = 0;
 
diff --git a/outer_mult2.h b/outer_mult2.h
index d4aec84..68db9b4 100644
--- a/outer_mult2.h
+++ b/outer_mult2.h
@@ -344,9 +344,9 @@ double t1 = omp_get_wtime();
     C.rows = A.rows;
     C.cols = B.cols;
 
-    C.colids = static_cast<IT*>(::operator new(sizeof(IT[total_nnz])));
-    C.rowptr = static_cast<IT*>(::operator new(sizeof(IT[C.rows+1])));
-    C.values = static_cast<NT*>(::operator new(sizeof(NT[total_nnz])));
+    C.colids = static_cast<IT*>(::operator new(sizeof(IT) * total_nnz));
+    C.rowptr = static_cast<IT*>(::operator new(sizeof(IT) * (C.rows + 1)));
+    C.values = static_cast<NT*>(::operator new(sizeof(NT) * total_nnz));
 
     C.rowptr[0] = 0;
 
diff --git a/outer_profile.h b/outer_profile.h
index 8343e94..26dbfe6 100644
--- a/outer_profile.h
+++ b/outer_profile.h
@@ -404,9 +404,9 @@ t_merge += (omp_get_wtime() - t1);
     C.rows = A.rows;
     C.cols = B.cols;
     C.nnz = total_nnz;
-    C.colids = static_cast<IT*>(::operator new(sizeof(IT[total_nnz])));
-    C.rowptr = static_cast<IT*>(::operator new(sizeof(IT[C.rows+1])));
-    C.values = static_cast<NT*>(::operator new(sizeof(NT[total_nnz])));
+    C.colids = static_cast<IT*>(::operator new(sizeof(IT) * total_nnz));
+    C.rowptr = static_cast<IT*>(::operator new(sizeof(IT) * (C.rows + 1)));
+    C.values = static_cast<NT*>(::operator new(sizeof(NT) * total_nnz));
 
     C.rowptr[0] = 0;
 
diff --git a/outer_profile2.h b/outer_profile2.h
index 8efd4ba..cb65ef0 100644
--- a/outer_profile2.h
+++ b/outer_profile2.h
@@ -436,9 +436,9 @@ t_merge += (omp_get_wtime() - t1);
     C.rows = A.rows;
     C.cols = B.cols;
     C.nnz = total_nnz;
-    C.colids = static_cast<IT*>(::operator new(sizeof(IT[total_nnz])));
-    C.rowptr = static_cast<IT*>(::operator new(sizeof(IT[C.rows+1])));
-    C.values = static_cast<NT*>(::operator new(sizeof(NT[total_nnz])));
+    C.colids = static_cast<IT*>(::operator new(sizeof(IT) * total_nnz));
+    C.rowptr = static_cast<IT*>(::operator new(sizeof(IT) * (C.rows + 1)));
+    C.values = static_cast<NT*>(::operator new(sizeof(NT) * total_nnz));
 
     C.rowptr[0] = 0;
 
-- 
2.43.0


From a3067e64f304d4b19fa00dc98a401a6e8b0db9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:57 +0000
Subject: [PATCH 06/55] fix: mask-compressed baselines took the first key of a
 row of B from A

---
 heap_mult_generic.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index 8a0a010..c65237b 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -522,10 +522,11 @@ struct MCA_v1 : MCABase {
         for (IT j = A.rowptr[i]; j < A.rowptr[i + 1]; j++) {
             const IT inner = A.colids[j];
             IT loc = B.rowptr[inner];
-            IT key = A.colids[loc];
 
             if (loc == B.rowptr[inner + 1]) { continue; }
 
+            IT key = B.colids[loc];
+
             IT maskIdx = maskBegin;
 
             // Find the intersection between the mask's row and the A's row
@@ -594,10 +595,11 @@ struct MCA_v2 : MCABase {
         for (IT j = A.rowptr[i]; j < A.rowptr[i + 1]; j++) {
             const IT inner = A.colids[j];
             IT loc = B.rowptr[inner];
-            IT key = A.colids[loc];
 
             if (loc == B.rowptr[inner + 1]) { continue; }
 
+            IT key = B.colids[loc];
+
             // Find the intersection between the mask's row and the A's row
             for (IT maskIdx = maskBegin; maskIdx < maskEnd; maskIdx++) {
                 while (key < M.colids[maskIdx]) {
-- 
2.43.0


From 30dd4bd508ec864e3b514bd7977046a625749e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:47 +0000
Subject: [PATCH 07/55] fix: dot-product baseline added products to zero and
 indexed B's offsets by A's columns

The sum of a position started from the value 0 instead of its first product,
wrong for every add whose identity is not 0. A work estimate that was never
used indexed the column offsets of B with column ids of A, out of bounds
whenever A has more columns than B.
---
 inner_mult.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/inner_mult.h b/inner_mult.h
index 54f5664..6cba673 100644
--- a/inner_mult.h
+++ b/inner_mult.h
@@ -70,12 +70,6 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
         C.values[i] = 0;
     }
     
-    BIN<IT, NT> bin(A.rows, IMB_PWMIN, threadCount);
-
-    /* Set max bin */
-    // Double check, changed 3rd param to colptr
-    bin.set_max_bin(A.rowptr, A.colids, B.colptr, C.rows, C.cols);
-
     IT numThreads;
     #pragma omp parallel num_threads(threadCount)
     {
@@ -122,7 +116,8 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
                     else if(A.colids[nnz_r] > B.rowids[nnz_c])
                         nnz_c++;
                     else { //A.colids[nnz_r] == B.rowids[nnz_c];
-                        t_val = addop(t_val, multop(A.values[nnz_r], B.values[nnz_c]));
+                        NT product = multop(A.values[nnz_r], B.values[nnz_c]);
+                        t_val = active ? addop(t_val, product) : product;
                         nnz_r++, 
                         nnz_c++;
                         active = true;
-- 
2.43.0


From 7bc506466d3f04d037ab286f9d9b9ff5aad088fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:16 +0000
Subject: [PATCH 08/55] fix: mask-compressed baselines read past the end of
 empty mask rows

---
 heap_mult_generic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index c65237b..6347bdc 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -530,7 +530,7 @@ struct MCA_v1 : MCABase {
             IT maskIdx = maskBegin;
 
             // Find the intersection between the mask's row and the A's row
-            while (true) {
+            while (maskIdx < maskEnd) {
                 if (key < M.colids[maskIdx]) {
                     if (++loc < B.rowptr[inner + 1]) { key = B.colids[loc]; } else { break; }
                 } else if (key > M.colids[maskIdx]) {
@@ -674,7 +674,7 @@ struct MCA_v3 : MCABase {
             if (colIdsIt == colIdsEnd) { continue; }
 
             // Find the intersection between the mask's row and the A's row
-            while (true) {
+            while (maskIt != maskEnd) {
                 if (*colIdsIt < *maskIt) {
                     if (++colIdsIt == colIdsEnd) { break; }
                 } else if (*colIdsIt > *maskIt) {
-- 
2.43.0


From 23f3e2dd4ee5ea0f894bb43540a78c70aa195877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:28 +0000
Subject: [PATCH 09/55] fix: mask-compressed baselines wrote past their result
 buffer

A row is accumulated in place with one slot per element of its mask row, but
the buffer was sized by the smaller of that and the row's product count.
---
 heap_mult_generic.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index 6347bdc..b3647ce 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -478,11 +478,8 @@ struct MCABase {
     template<class IT, class NT>
     static IT estimateResultSize(IT rowBeginIdx, IT rowEndIdx, IT *maxnnzc,
                                  const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M) {
-        IT size = 0;
-        for (IT row = rowBeginIdx; row < rowEndIdx; row++) {
-            size += std::min(maxnnzc[row], M.rowptr[row + 1] - M.rowptr[row]);
-        }
-        return size;
+        // Each row is accumulated in place, one slot for every element of its mask row
+        return M.rowptr[rowEndIdx] - M.rowptr[rowBeginIdx];
     }
 
     template<class IT, class NT>
-- 
2.43.0


From e5fbdf30092e5976b36b365b3cee7bfc1cd933b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:54 +0000
Subject: [PATCH 10/55] fix: scan() reads one element past its input for large
 arrays

---
 utility.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utility.h b/utility.h
index 1a6df5f..855aec6 100644
--- a/utility.h
+++ b/utility.h
@@ -197,7 +197,8 @@ template <typename T> void scan(T *in, T *out, T N) {
         out[i + 1] = out[i] + in[i];
       }
       // calculate offset in every thread
-      partial_sum[tid] = out[end - 1] + in[end - 1];
+      // (the last element of `in` is not part of any prefix and need not exist)
+      partial_sum[tid] = out[end - 1] + (end < N ? in[end - 1] : 0);
 #pragma omp barrier
 
       T offset = 0;
-- 
2.43.0


From 989eb320e4a85f534e2e9db7919c9c50d5f6bd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:54 +0000
Subject: [PATCH 11/55] fix: threads without elements write the first prefix
 sum (and read past the input)

---
 spgemm-blocks/scan.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spgemm-blocks/scan.h b/spgemm-blocks/scan.h
index f10fb7e..490a464 100644
--- a/spgemm-blocks/scan.h
+++ b/spgemm-blocks/scan.h
@@ -25,6 +25,7 @@ void inclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
         offset += partialSums[i];
     }
 
+    if (start == end) { return; }
     dst[start] = offset + src[start];
     for (size_t i = start + 1; i < end; ++i) {
         dst[i] = dst[i - 1] + src[i];
@@ -71,6 +72,7 @@ void exclusiveScan(const T *src, size_t size, T *dst, int numThreads, T *partial
         offset += partialSums[i];
     }
 
+    if (start == end) { return; }
     dst[start] = offset;
     for (size_t i = start + 1; i < end; ++i) {
         dst[i] = dst[i - 1] + src[i - 1];
-- 
2.43.0


From 02039bf659980d98da1afb779abf7ee4031224a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:04 +0000
Subject: [PATCH 12/55] fix: outer-product operation count overflows the index
 type

---
 multiply.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multiply.h b/multiply.h
index e077b8c..fc5c6c3 100644
--- a/multiply.h
+++ b/multiply.h
@@ -144,7 +144,7 @@ long long int get_flop(const CSC<IT, NT> &A, const CSR<IT, NT> &B)
     {
         IT colnnz = A.colptr[i + 1] - A.colptr[i];
         IT rownnz = B.rowptr[i + 1] - B.rowptr[i];
-        flops += (colnnz * rownnz);
+        flops += static_cast<long long int>(colnnz) * rownnz;
     }
     return (flops * 2);
 }
-- 
2.43.0


From 78a88d0a9ea82c274f8c1058b2c947f19f1b63f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:17 +0000
Subject: [PATCH 13/55] fix: a cleared one-based matrix stays flagged
 one-based, and so do products stored into it

---
 CSR.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CSR.h b/CSR.h
index a2285b9..9664232 100644
--- a/CSR.h
+++ b/CSR.h
@@ -63,6 +63,7 @@ public:
       rows = 0;
     }
     cols = 0;
+    zerobased = true;
   }
 
   ~CSR() { make_empty(); }
-- 
2.43.0


From 7fa7d0afb1e193894f2bd4189bc1fa7108cb00e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:17 +0000
Subject: [PATCH 14/55] fix: assigning a matrix without columns left the row
 offsets dangling

---
 CSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSR.h b/CSR.h
index 9664232..69fb31d 100644
--- a/CSR.h
+++ b/CSR.h
@@ -155,7 +155,7 @@ CSR<IT, NT> &CSR<IT, NT>::operator=(const CSR<IT, NT> &rhs) {
       copy(rhs.values, rhs.values + nnz, values);
       copy(rhs.colids, rhs.colids + nnz, colids);
     }
-    if (rhs.cols > 0) {
+    if (rhs.rows > 0) {
       rowptr = my_malloc<IT>(rows + 1);
       copy(rhs.rowptr, rhs.rowptr + rows + 1, rowptr);
     }
-- 
2.43.0


From 6cd5c7f15cae87f91cafd95ab72312069a04490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:17 +0000
Subject: [PATCH 15/55] fix: element sum was accumulated in the index type

---
 CSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSR.h b/CSR.h
index 69fb31d..a44dc4c 100644
--- a/CSR.h
+++ b/CSR.h
@@ -91,7 +91,7 @@ public:
 
   NT sumall()
   {
-      IT sum = 0;
+      NT sum = 0;
       #pragma omp parallel for reduction (+:sum)
       for(IT i=0; i<nnz; ++i )
       {
-- 
2.43.0


From 7d54664b34f9bfa3bcd44b5e1a4d80f0c707cb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:17 +0000
Subject: [PATCH 16/55] fix: transpose reads and writes one past its column
 offsets

---
 util/transpose.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/transpose.h b/util/transpose.h
index 8be72e8..6016896 100644
--- a/util/transpose.h
+++ b/util/transpose.h
@@ -32,7 +32,7 @@ void csr2csc_atomic_nosort (IT m, IT n, IT nnz, IT * csrRowPtr, IT * csrColIdx,
 		}
 	}
 	cscColPtr[0] = 0;
-	for (IT i=0; i <= n; i++)
+	for (IT i=0; i < n; i++)
 	{
 		cscColPtr[i+1] = atomicColPtr[i] + cscColPtr[i];
 	}
-- 
2.43.0


From 779455a543a5c775de2203d1e6479be51d09b74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:17 +0000
Subject: [PATCH 17/55] fix: MergeDuplicates indexes empty vectors

---
 CSC.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CSC.h b/CSC.h
index 466ae0f..ac3ce77 100644
--- a/CSC.h
+++ b/CSC.h
@@ -377,8 +377,8 @@ void CSC<IT, NT>::MergeDuplicates(AddOperation addop) {
   vector<IT> diff(cols, 0);
   std::adjacent_difference(colptr + 1, colptr + cols + 1, diff.begin());
 
-  vector<vector<IT>> v_rowids;
-  vector<vector<NT>> v_values;
+  vector<vector<IT>> v_rowids(cols);
+  vector<vector<NT>> v_values(cols);
 
   if (nnz > 0) {
 #pragma omp parallel for
-- 
2.43.0


From 8426a092776b7efafb99b10bc5165e0229dc5b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:17 +0000
Subject: [PATCH 18/55] fix: packing a CSC into GraphBLAS passes the size of a
 row pointer array

---
 CSC.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSC.h b/CSC.h
index ac3ce77..74b121b 100644
--- a/CSC.h
+++ b/CSC.h
@@ -627,7 +627,7 @@ CSC<IT, NT>::get_grb_mat
            "Dimension mismatch in converting CSR matrix to GraphBLAS matrix.");
 
     bool is_iso = false, is_jumbled = false;
-    GrB_Index ap_size = sizeof(IT) * (this->rows+1),
+    GrB_Index ap_size = sizeof(IT) * (this->cols+1),
             aj_size = sizeof(IT) * this->nnz,
             ax_size = sizeof(NT) * this->nnz;
 
-- 
2.43.0


From d35c6eb40c7acd5c167fae97f627eb28f83bdd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:17 +0000
Subject: [PATCH 19/55] fix: removeDuplicates returns 1 for an empty list

---
 util/triple-util.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/triple-util.h b/util/triple-util.h
index e474bb2..24e5f6f 100644
--- a/util/triple-util.h
+++ b/util/triple-util.h
@@ -12,6 +12,8 @@ IT removeDuplicates(IT numValues, Triple<IT, NT> *triples) {
         return lhs.row < rhs.row || (lhs.row == rhs.row && lhs.col < rhs.col);
     });
 
+    if (numValues == 0) { return 0; }
+
     IT dst = 1;
     for (IT src = 1; src < numValues; src++) {
         if (triples[src].row != triples[src - 1].row || triples[src].col != triples[src - 1].col) {
-- 
2.43.0


From 93275583b2812b48b8f8e7d890de1e2c5a8f9e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:17 +0000
Subject: [PATCH 20/55] fix: sub-matrix selection wrote out of bounds and kept
 the row numbers of the source

---
 CSC.h | 59 +++++++++++++++++++++++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/CSC.h b/CSC.h
index 74b121b..0ccecc1 100644
--- a/CSC.h
+++ b/CSC.h
@@ -655,11 +655,11 @@ CSC<IT, NT>::get_grb_mat
 template <class IT, class NT>
 CSC<IT, NT> CSC<IT, NT>::SpRef2(const IT *ri, const IT rilen, const IT *ci,
                                 const IT cilen) {
-  if (cilen > 0 && ci[cilen - 1] > cols) {
+  if (cilen > 0 && ci[cilen - 1] >= cols) {
     cerr << "Col indices out of bounds" << endl;
     abort();
   }
-  if (rilen > 0 && ri[rilen - 1] > rows) {
+  if (rilen > 0 && ri[rilen - 1] >= rows) {
     cerr << "Row indices out of bounds" << endl;
     abort();
   }
@@ -674,7 +674,7 @@ CSC<IT, NT> CSC<IT, NT>::SpRef2(const IT *ri, const IT rilen, const IT *ci,
   // NT* values_out = new NT[nnz_ci];
   // IT* len_out = new IT[cilen];
   IT *rowids_out = my_malloc<IT>(nnz_ci);
-  IT *values_out = my_malloc<NT>(nnz_ci);
+  NT *values_out = my_malloc<NT>(nnz_ci);
   IT *len_out = my_malloc<IT>(cilen);
 
   IT idx = 0;
@@ -682,8 +682,13 @@ CSC<IT, NT> CSC<IT, NT>::SpRef2(const IT *ri, const IT rilen, const IT *ci,
     IT cidx1 = colptr[ci[i]];
     IT cidx2 = colptr[ci[i] + 1];
 
-    intersect(&rowids[cidx1], &values[cidx1], cidx2 - cidx1, ri, rilen,
-              &rowids_out[cidx1], &values_out[cidx1], &len_out[i]);
+    intersect(rowids + cidx1, values + cidx1, cidx2 - cidx1, ri, rilen,
+              rowids_out + idx, values_out + idx, &len_out[i]);
+    // rows of the result are positions in ri
+    for (IT j = idx; j < idx + len_out[i]; ++j) {
+      rowids_out[j] = lower_bound(ri, ri + rilen, rowids_out[j]) - ri;
+    }
+    idx += len_out[i];
   }
 
   CSC C;
@@ -702,13 +707,9 @@ CSC<IT, NT> CSC<IT, NT>::SpRef2(const IT *ri, const IT rilen, const IT *ci,
   C.rowids = my_malloc<IT>(C.nnz);
   C.values = my_malloc<NT>(C.nnz);
 
-  for (int i = 0; i < C.cols; ++i) // combine step
-  {
-    IT cidx1 = colptr[ci[i]];
-    IT cidx2 = cidx1 + len_out[i];
-    copy(&rowids_out[cidx1], &rowids_out[cidx2], C.rowids + C.colptr[i]);
-    copy(&values_out[cidx1], &values_out[cidx2], C.values + C.colptr[i]);
-  }
+  copy(rowids_out, rowids_out + C.nnz, C.rowids);
+  copy(values_out, values_out + C.nnz, C.values);
+  my_free(rowids_out, values_out, len_out);
   return C;
 }
 
@@ -722,11 +723,11 @@ CSC<IT, NT> CSC<IT, NT>::SpRef2(const IT *ri, const IT rilen, const IT *ci,
 // behaviour is exactly similar to the matlab implementation
 template <class IT, class NT>
 CSC<IT, NT> CSC<IT, NT>::SpRef(const vector<IT> &ri, const vector<IT> &ci) {
-  if ((!ci.empty()) && (ci.back() > cols)) {
+  if ((!ci.empty()) && (ci.back() >= cols)) {
     cerr << "Col indices out of bounds" << endl;
     abort();
   }
-  if ((!ri.empty()) && (ri.back() > rows)) {
+  if ((!ri.empty()) && (ri.back() >= rows)) {
     cerr << "Row indices out of bounds" << endl;
     abort();
   }
@@ -755,7 +756,13 @@ CSC<IT, NT> CSC<IT, NT>::SpRef(const vector<IT> &ri, const vector<IT> &ci) {
 
   // Next, allocate memory and save the result matrix
   // This two-step implementation is better for multithreading
-  CSC refmat(refnnz, ri.size(), ci.size(), 0);
+  CSC refmat;
+  refmat.nnz = refnnz;
+  refmat.rows = ri.size();
+  refmat.cols = ci.size();
+  refmat.colptr = my_malloc<IT>(refmat.cols + 1);
+  refmat.rowids = my_malloc<IT>(refnnz);
+  refmat.values = my_malloc<NT>(refnnz);
   refmat.colptr[0] = 0;
   IT idx = 0;
   for (int i = 0; i < ci.size(); i++) {
@@ -769,7 +776,7 @@ CSC<IT, NT> CSC<IT, NT>::SpRef(const vector<IT> &ri, const vector<IT> &ci) {
       else //(ri[k]==rowids[j])
       {
         refmat.values[idx] = values[j];
-        refmat.rowids[idx++] = rowids[j];
+        refmat.rowids[idx++] = k; // rows of the result are positions in ri
         k++;
         // j++; // wait for the next iteration of the inner loop to alow reapted
         // rows
@@ -791,19 +798,21 @@ CSC<IT, NT> CSC<IT, NT>::SpRef(const vector<IT> &ri, const vector<IT> &ci) {
 // behaviour is exactly similar to the matlab implementation
 template <class IT, class NT>
 CSC<IT, NT> CSC<IT, NT>::SpRef1(const vector<IT> &ri, const vector<IT> &ci) {
-  if ((!ci.empty()) && (ci.back() > cols)) {
+  if ((!ci.empty()) && (ci.back() >= cols)) {
     cerr << "Col indices out of bounds" << endl;
     abort();
   }
-  if ((!ri.empty()) && (ri.back() > rows)) {
+  if ((!ri.empty()) && (ri.back() >= rows)) {
     cerr << "Row indices out of bounds" << endl;
     abort();
   }
 
-  BitMap bmap(ri.size()); // space requirement n bits
-  bmap.reset();           // this is time consuming .....
+  BitMap bmap(rows); // space requirement n bits
+  bmap.reset();      // this is time consuming .....
+  vector<IT> position(rows);
   for (int i = 0; i < ri.size(); i++) {
     bmap.set_bit(ri[i]);
+    position[ri[i]] = i;
   }
 
   // first, count nnz in the result matrix
@@ -818,7 +827,13 @@ CSC<IT, NT> CSC<IT, NT>::SpRef1(const vector<IT> &ri, const vector<IT> &ci) {
 
   // Next, allocate memory and save the result matrix
   // This two-step implementation is better for multithreading
-  CSC refmat(refnnz, ri.size(), ci.size(), 0);
+  CSC refmat;
+  refmat.nnz = refnnz;
+  refmat.rows = ri.size();
+  refmat.cols = ci.size();
+  refmat.colptr = my_malloc<IT>(refmat.cols + 1);
+  refmat.rowids = my_malloc<IT>(refnnz);
+  refmat.values = my_malloc<NT>(refnnz);
   refmat.colptr[0] = 0;
   IT idx = 0;
   for (int i = 0; i < ci.size(); i++) {
@@ -826,7 +841,7 @@ CSC<IT, NT> CSC<IT, NT>::SpRef1(const vector<IT> &ri, const vector<IT> &ci) {
     for (IT j = colptr[ci[i]]; j < endIdx; j++) {
       if (bmap.get_bit(rowids[j])) {
         refmat.values[idx] = values[j];
-        refmat.rowids[idx++] = rowids[j];
+        refmat.rowids[idx++] = position[rowids[j]]; // rows of the result are positions in ri
       }
     }
     refmat.colptr[i + 1] = idx;
-- 
2.43.0


From 106250172fea78ad07addf998437828e029ff641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:17 +0000
Subject: [PATCH 21/55] fix: text readers truncate real values

---
 IO.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IO.h b/IO.h
index a296f9b..ced19d4 100644
--- a/IO.h
+++ b/IO.h
@@ -101,7 +101,7 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
             if (ch != NULL) {
                 ch++;
                 /* Read third word (value data)*/
-                triples[cnz].val = (NT)(atoi(ch));
+                triples[cnz].val = (NT)(atof(ch));
                 ch = strchr(ch, ' ');
             }
             else {
@@ -198,7 +198,7 @@ int ReadASCII_Triples(string	  filename,
 			if (ch != NULL)
 			{
                 ch++;
-                val = (NT)(atoi(ch));
+                val = (NT)(atof(ch));
                 ch = strchr(ch, ' ');
 			}
 
-- 
2.43.0


From 62195c86f38be2e801d2730630276a5cf95497c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:17 +0000
Subject: [PATCH 22/55] fix: text constructor leaves 64-bit dimensions half
 initialised

---
 CSR.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CSR.h b/CSR.h
index a44dc4c..39634c1 100644
--- a/CSR.h
+++ b/CSR.h
@@ -565,7 +565,11 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
   } while (line[0] == '%');
 
   /* Get size info */
-  sscanf(line, "%d %d %d", &rows, &cols, &tmp_nz);
+  long long hdr_rows = 0, hdr_cols = 0, hdr_nz = 0;
+  sscanf(line, "%lld %lld %lld", &hdr_rows, &hdr_cols, &hdr_nz);
+  rows = (IT)hdr_rows;
+  cols = (IT)hdr_cols;
+  tmp_nz = (IT)hdr_nz;
 
   /* Store in COO format */
   num = 0;
-- 
2.43.0


From 9f3774183158dc9f3ceddcc60cdc7120f6a581de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:17 +0000
Subject: [PATCH 23/55] fix: set_bit_atomic is not atomic

---
 BitMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BitMap.h b/BitMap.h
index 1ded809..ed47b34 100644
--- a/BitMap.h
+++ b/BitMap.h
@@ -87,7 +87,7 @@ class BitMap {
 
   inline
   void set_bit_atomic(long pos) {
-    set_bit(pos);
+    __sync_fetch_and_or(start + WORD_OFFSET(pos), static_cast<uint64_t>(1l)<<BIT_OFFSET(pos));
     // uint64_t old_val, new_val;
     // uint64_t *loc = start + WORD_OFFSET(pos);
     // do {
-- 
2.43.0


From c5e8f4a5a9895c1c729638d19d7f8a03b3788c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:09 +0000
Subject: [PATCH 24/55] fix: exporting a one-based CSR to GraphBLAS read and
 wrote shifted entries

---
 CSR.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CSR.h b/CSR.h
index 39634c1..68427d0 100644
--- a/CSR.h
+++ b/CSR.h
@@ -762,9 +762,9 @@ CSR<IT, NT>::get_grb_mat
 	int			 decr  = 1 - this->zerobased;
 	for (IT r = 0; r < this->rows; ++r)
 	{
-		for (IT cidx = this->rowptr[r]; cidx < this->rowptr[r+1]; ++cidx)
+		for (IT cidx = this->rowptr[r]-decr; cidx < this->rowptr[r+1]-decr; ++cidx)
 		{
-			rinds[i]   = static_cast<GrB_Index>(r-decr);
+			rinds[i]   = static_cast<GrB_Index>(r);
 			cinds[i++] = static_cast<GrB_Index>(this->colids[cidx]-decr);
 		}
 	}
-- 
2.43.0


From 6d19969963abd896dd2a2ada0764a13947e6481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:09 +0000
Subject: [PATCH 25/55] fix: importing a CSR into GraphBLAS passes the wrong
 size of the column ids

---
 CSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSR.h b/CSR.h
index 68427d0..510372f 100644
--- a/CSR.h
+++ b/CSR.h
@@ -856,7 +856,7 @@ CSR<IT, NT>::get_grb_mat_ptr
 	// make sure CSR object is sorted
 	GxB_Matrix_import_CSR(A, to_grb.get_type(), this->rows, this->cols,
 						  &this->rowptr, &this->colids, (void **)&this->values,
-						  sizeof(IT)*(this->rows+1), sizeof(NT)*this->nnz,
+						  sizeof(IT)*(this->rows+1), sizeof(IT)*this->nnz,
 						  sizeof(NT)*this->nnz, false, false, desc);
 
 
-- 
2.43.0


From 6bcb41aef2e276cda5f93be739fb522bcefa51e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:57 +0000
Subject: [PATCH 26/55] fix: exporting an iso-valued GraphBLAS matrix left a
 values array with one element

---
 CSR.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CSR.h b/CSR.h
index 510372f..bc24586 100644
--- a/CSR.h
+++ b/CSR.h
@@ -433,7 +433,7 @@ CSR<IT, NT>::CSR (GrB_Matrix *A, bool dup_mat) :
 		GrB_Matrix_dup(&tmp, *A); // deep
 
 	GrB_Type		nz_type;
-	bool			is_uniform, is_jumbled;
+	bool			is_jumbled;
 	GrB_Index		ap_size, aj_size, ax_size;
 	GrB_Descriptor	desc = NULL;
 	GrB_Descriptor_new(&desc);
@@ -442,7 +442,7 @@ CSR<IT, NT>::CSR (GrB_Matrix *A, bool dup_mat) :
 	GxB_Matrix_export_CSR(&tmp, &nz_type, &this->rows, &this->cols,
 						  &this->rowptr, &this->colids, (void **)&this->values,
 						  &ap_size, &aj_size, &ax_size,
-						  &is_uniform, &is_jumbled,
+						  NULL /* expand iso-valued matrices */, &is_jumbled,
 						  desc); // frees the graphblas matrix
 	assert(!is_jumbled && "GraphBLAS matrix is not sorted\n");
 
-- 
2.43.0


From 7e2d8d10d46221d1a26d4067dc22f370358e242f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:24 +0000
Subject: [PATCH 27/55] fix: unpacking an iso-valued GraphBLAS matrix into a
 CSR aborted

---
 CSR.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/CSR.h b/CSR.h
index bc24586..637bc2f 100644
--- a/CSR.h
+++ b/CSR.h
@@ -384,7 +384,7 @@ CSR<IT, NT>::CSR (GrB_Matrix A) :
 				  "CSR matrix index type and GrB_Matrix index type "
 				  "must be the same");
 
-	bool			is_iso, is_jumbled;
+	bool			is_jumbled;
 	GrB_Index		ap_size, aj_size, ax_size;
 	GrB_Index		nr, nc, nnz;
 	GrB_Descriptor	desc = NULL;
@@ -406,10 +406,9 @@ CSR<IT, NT>::CSR (GrB_Matrix A) :
 						  &ap_size,
 						  &aj_size,
 						  &ax_size,
-						  &is_iso,
+						  NULL /* expand iso-valued matrices */,
 						  &is_jumbled,
 						  desc);
-	assert(!is_iso && "GraphBLAS matrix is iso-valued.");
 	assert(!is_jumbled && "GraphBLAS matrix is not sorted\n");
 
     GrB_Descriptor_free(&desc);
-- 
2.43.0


From 509c9894d1ea4f3edf2fc516e30105e74b373852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:48 +0000
Subject: [PATCH 28/55] fix: get_next_bit truncates positions beyond 2^32

---
 BitMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BitMap.h b/BitMap.h
index ed47b34..3b86463 100644
--- a/BitMap.h
+++ b/BitMap.h
@@ -117,7 +117,7 @@ class BitMap {
       temp = 0;
     }
     if (!temp) {
-      next = (next & 0xffffffc0);
+      next = (next & ~static_cast<uint64_t>(0x3f));
       while (!temp) {
         it++;
         if (it >= end)
-- 
2.43.0


From fbc85799cfc3ac8fb2a0cc988f3945b49594e387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:48 +0000
Subject: [PATCH 29/55] fix: splitting tuples divided by zero, cut rows by the
 column count and mixed up rows of the last piece

---
 SplitTuples.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SplitTuples.h b/SplitTuples.h
index e36029e..a89c44d 100644
--- a/SplitTuples.h
+++ b/SplitTuples.h
@@ -39,7 +39,7 @@ SplitTuples<IT,NT>::SplitTuples(CSC<IT, NT> & A, int numsplits)
     splits = numsplits;
     splitTuples.resize(numsplits);
 
-    IT perpiece = A.rows / splits;
+    IT perpiece = std::max(A.rows / static_cast<IT>(splits), static_cast<IT>(1));
     for (IT i=0; i < A.cols; ++i)
     {
         for (IT j = A.colptr[i]; j < A.colptr[i+1]; ++j)
@@ -60,14 +60,14 @@ SplitTuples<IT,NT>::SplitTuples(CSR<IT, NT> & A, int numsplits)
     splits = numsplits;
     splitTuples.resize(numsplits);
 
-    IT perpiece = A.cols / splits;
+    IT perpiece = std::max(A.rows / static_cast<IT>(splits), static_cast<IT>(1));
     for (IT i=0; i < A.rows; ++i)
     {
         IT owner = std::min(i / perpiece, static_cast<IT>(numsplits-1));
         for (IT j = A.rowptr[i]; j < A.rowptr[i+1]; ++j)
         {
             IT colid = A.colids[j];
-            splitTuples[owner].push_back(std::make_tuple(i % perpiece, colid, A.values[j]));
+            splitTuples[owner].push_back(std::make_tuple(i - owner * perpiece, colid, A.values[j]));
         }
     }
 }
-- 
2.43.0


From 2682484b436477185bcbd63666daa75ca30f0449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:11 +0000
Subject: [PATCH 30/55] fix: a square with exactly the capacity of a worker
 never got through the gate

---
 PaRMAT/src/capacity_controller.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PaRMAT/src/capacity_controller.hpp b/PaRMAT/src/capacity_controller.hpp
index 0b76d28..5bf6ec8 100755
--- a/PaRMAT/src/capacity_controller.hpp
+++ b/PaRMAT/src/capacity_controller.hpp
@@ -25,7 +25,7 @@ public:
 		std::unique_lock<std::mutex> accumulate_mutex(capacity_mutex);
 		dissipated_cond.wait( accumulate_mutex, [&]{
 			auto sum = accumulated + thisMuch;
-			auto ret = ( sum < max_capacity );
+			auto ret = ( sum <= max_capacity );
 			if( ret )
 				accumulated = sum;
 			return ret;
-- 
2.43.0


From b3d72dbb51d1e5736f190222889b1123b53f7305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 31/55] fix: sorted generation lost columns when there were
 fewer of them than workers

---
 PaRMAT/src/GraphGen_sorted.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PaRMAT/src/GraphGen_sorted.cpp b/PaRMAT/src/GraphGen_sorted.cpp
index 56be73b..de90573 100755
--- a/PaRMAT/src/GraphGen_sorted.cpp
+++ b/PaRMAT/src/GraphGen_sorted.cpp
@@ -154,7 +154,8 @@ bool GraphGen_sorted::GenerateGraph(
 					RMAT_a, RMAT_b, RMAT_c, allowEdgeToSelf, allowDuplicateEdges, directedGraph ) );
 		}
 
-		// Joining last threads.
+		// Joining last threads. The first one still running has the oldest job (there may be fewer jobs than threads).
+		recIdx = rectagnleVecs.size() - tasks_to_complete.size();
 		for( auto& task: tasks_to_complete ) {
 			task.get();
 			printEdgeGroup(std::ref(threads_edges[recIdx%nCPUWorkerThreads]), outFile);
@@ -190,7 +191,8 @@ bool GraphGen_sorted::GenerateGraph(
 					std::ref(rectagnleVecs.at(recIdx)), std::ref(threads_edges[recIdx%nCPUWorkerThreads]), RMAT_a, RMAT_b, RMAT_c, allowEdgeToSelf, allowDuplicateEdges, directedGraph ) );
 		}
 
-		// Joining last threads.
+		// Joining last threads. The first one still running has the oldest job (there may be fewer jobs than threads).
+		recIdx = rectagnleVecs.size() - threads.size();
 		for( auto& t: threads ) {
 			t.join();
 			printEdgeGroup(std::ref(threads_edges[recIdx%nCPUWorkerThreads]), outFile);
-- 
2.43.0


From 030fd3525e692f4f916ba0b527fa7906a916073a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:32 +0000
Subject: [PATCH 32/55] fix: neighbouring squares shared a row and a column, so
 split graphs had duplicates and unsorted rows

---
 PaRMAT/src/Square.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PaRMAT/src/Square.cpp b/PaRMAT/src/Square.cpp
index 7eb0308..604e1c6 100755
--- a/PaRMAT/src/Square.cpp
+++ b/PaRMAT/src/Square.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include "Square.hpp"
 
 bool Eligible_RNG_Rec( Square& rec, const unsigned long long nEdgesThreshold ) {
@@ -30,9 +31,10 @@ Square& Square::operator=( const Square &cSource ) {
 
 Square Square::Get_part( const unsigned int part, double a, double b, double c, double a_edge_share, double b_edge_share, double c_edge_share ) {
 
-	auto x_start_i = ( part == 0 || part == 2 ) ? X_start : ((X_start+X_end)>>1) ;
+	// Both ends belong to a square, so the upper half starts behind the end of the lower one.
+	auto x_start_i = ( part == 0 || part == 2 ) ? X_start : std::min( ((X_start+X_end)>>1)+1, X_end ) ;
 	auto x_end_i   = ( part == 1 || part == 3 ) ? X_end	: ((X_start+X_end)>>1) ;
-	auto y_start_i = ( part == 0 || part == 1 ) ? Y_start : ((Y_start+Y_end)>>1) ;
+	auto y_start_i = ( part == 0 || part == 1 ) ? Y_start : std::min( ((Y_start+Y_end)>>1)+1, Y_end ) ;
 	auto y_end_i   = ( part == 2 || part == 3 ) ? Y_end	: ((Y_start+Y_end)>>1) ;
 
 	auto d_edge_share = 1.0 - a_edge_share - b_edge_share - c_edge_share;
-- 
2.43.0


From 1842e0f65b80fae2952533723120a24cbeaf8054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 33/55] fix: in-memory generation left out the last destination
 and never ended for undirected graphs

---
 PaRMAT/src/GraphGen_notSorted.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PaRMAT/src/GraphGen_notSorted.cpp b/PaRMAT/src/GraphGen_notSorted.cpp
index c7fb405..fd7c4dc 100755
--- a/PaRMAT/src/GraphGen_notSorted.cpp
+++ b/PaRMAT/src/GraphGen_notSorted.cpp
@@ -201,7 +201,7 @@ std::vector<std::pair<int64_t, int64_t>> GraphGen_notSorted::GenerateGraph(
                                        )
 {
     
-    std::vector<Square> squares ( 1, Square( 0, nVertices, 0, nVertices-1, nEdges, 0, 0, 0 ) );
+    std::vector<Square> squares ( 1, Square( 0, nVertices, 0, nVertices, nEdges, 0, 0, 0 ) );
     
     bool allRecsAreInRange;
     do {
-- 
2.43.0


From 2a40d370287ae0ebafc96597608081df2c34a580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:08 +0000
Subject: [PATCH 34/55] fix: generating without duplicates read past the end of
 squares without edges

---
 PaRMAT/src/GraphGen_notSorted.cpp | 2 +-
 PaRMAT/src/GraphGen_sorted.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/PaRMAT/src/GraphGen_notSorted.cpp b/PaRMAT/src/GraphGen_notSorted.cpp
index fd7c4dc..1794861 100755
--- a/PaRMAT/src/GraphGen_notSorted.cpp
+++ b/PaRMAT/src/GraphGen_notSorted.cpp
@@ -40,7 +40,7 @@ void fill_up_edge_vector(
 			std::sort( edgeVector.begin(), edgeVector.end() );
 
 			// Detection of Invalid edges.
-			for( unsigned long long edgeIdx = 0; edgeIdx < (edgeVector.size()-1); ++edgeIdx )
+			for( unsigned long long edgeIdx = 0; edgeIdx+1 < edgeVector.size(); ++edgeIdx )
 				if( edgeVector.at(edgeIdx) == edgeVector.at(edgeIdx+1) )
 					throwAwayEdgesIndices.push_back(edgeIdx);
 
diff --git a/PaRMAT/src/GraphGen_sorted.cpp b/PaRMAT/src/GraphGen_sorted.cpp
index de90573..f87da18 100755
--- a/PaRMAT/src/GraphGen_sorted.cpp
+++ b/PaRMAT/src/GraphGen_sorted.cpp
@@ -41,7 +41,7 @@ void EachThreadGeneratesEdges(
 
 		generate_edges( std::ref(rec), std::ref(edgesVec), RMAT_a, RMAT_b, RMAT_c, directedGraph, allowEdgeToSelf, std::ref(dis), std::ref(gen), std::ref(throwAwayEdgesIndices) );
 
-		if( !allowDuplicateEdges ) {
+		if( !allowDuplicateEdges && rec.getnEdges() > 0 ) {
 
 			// Sort the edge vector.
 			std::sort( edgesVec.end()-rec.getnEdges(), edgesVec.end() );
-- 
2.43.0


From f787be62016c77793c761a0c02ca6a1936036f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:01 +0000
Subject: [PATCH 35/55] fix: a consumer of the PaRMAT queue could miss its
 notification and wait for ever

---
 PaRMAT/src/threadsafe_queue.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PaRMAT/src/threadsafe_queue.hpp b/PaRMAT/src/threadsafe_queue.hpp
index ad27924..d818612 100755
--- a/PaRMAT/src/threadsafe_queue.hpp
+++ b/PaRMAT/src/threadsafe_queue.hpp
@@ -142,6 +142,9 @@ void threadsafe_queue<T>::push(T new_value)
 		tail->next=std::move(p);
 		tail=new_tail;
 	}
+	{	// A consumer that has just found the queue empty must be waiting before it is notified.
+		std::lock_guard<std::mutex> head_lock(head_mutex);
+	}
 	data_cond.notify_one();
 }
 
-- 
2.43.0


From f25f242180e6f878e8b7123720771f108a936a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:32 +0000
Subject: [PATCH 36/55] fix: heap sort of edge lists read past the end and left
 odd lists unsorted

---
 GTgraph/R-MAT/utils.c  | 4 ++--
 GTgraph/SSCA2/utils.c  | 4 ++--
 GTgraph/random/utils.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/GTgraph/R-MAT/utils.c b/GTgraph/R-MAT/utils.c
index 93a4928..13b6735 100644
--- a/GTgraph/R-MAT/utils.c
+++ b/GTgraph/R-MAT/utils.c
@@ -175,8 +175,8 @@ void heapSort(LONG_T* keys, LONG_T* auxKey1, WEIGHT_T* auxKey2, LONG_T n)
 {
 	LONG_T i;
 
-	for (i = (n/2)-1; i >= 0; i--)
-		siftDown(keys, auxKey1, auxKey2, i, n);
+	for (i = n/2; i >= 0; i--)
+		siftDown(keys, auxKey1, auxKey2, i, n-1);
 
 	for (i = n-1; i >= 1; i--) {
 		swapL(&keys[0], &keys[i]);
diff --git a/GTgraph/SSCA2/utils.c b/GTgraph/SSCA2/utils.c
index cf02a7a..bca529f 100644
--- a/GTgraph/SSCA2/utils.c
+++ b/GTgraph/SSCA2/utils.c
@@ -177,8 +177,8 @@ void heapSort(LONG_T* keys, LONG_T* auxKey1, WEIGHT_T* auxKey2, LONG_T n)
 {
 	LONG_T i;
 
-	for (i = (n/2)-1; i >= 0; i--)
-		siftDown(keys, auxKey1, auxKey2, i, n);
+	for (i = n/2; i >= 0; i--)
+		siftDown(keys, auxKey1, auxKey2, i, n-1);
 
 	for (i = n-1; i >= 1; i--) {
 		swapL(&keys[0], &keys[i]);
diff --git a/GTgraph/random/utils.c b/GTgraph/random/utils.c
index a9cb33b..3609f07 100644
--- a/GTgraph/random/utils.c
+++ b/GTgraph/random/utils.c
@@ -173,8 +173,8 @@ void heapSort(LONG_T* keys, LONG_T* auxKey1, WEIGHT_T* auxKey2, LONG_T n)
 {
 	LONG_T i;
 
-	for (i = (n/2)-1; i >= 0; i--)
-		siftDown(keys, auxKey1, auxKey2, i, n);
+	for (i = n/2; i >= 0; i--)
+		siftDown(keys, auxKey1, auxKey2, i, n-1);
 
 	for (i = n-1; i >= 1; i--) {
 		swapL(&keys[0], &keys[i]);
-- 
2.43.0


From bb1189db43c0a186ed742726d9c947701f977cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:46 +0000
Subject: [PATCH 37/55] fix: masked products lose rows when the runtime grants
 fewer threads than requested

---
 spgemm-blocks/common.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spgemm-blocks/common.h b/spgemm-blocks/common.h
index ca72061..7f831cd 100644
--- a/spgemm-blocks/common.h
+++ b/spgemm-blocks/common.h
@@ -2,11 +2,12 @@
 #define MASKED_SPGEMM_COMMON_H
 
 void setNumThreads(unsigned &numThreads) {
-    if (numThreads == 0) {
-#pragma omp parallel default(none) shared(numThreads)
+    // The runtime may grant fewer threads than requested (nested regions, thread limit),
+    // and the work is distributed over the threads that really run
+    const unsigned requested = numThreads == 0 ? omp_get_max_threads() : numThreads;
+#pragma omp parallel default(none) shared(numThreads) num_threads(requested)
 #pragma omp single
-        numThreads = omp_get_num_threads();
-    }
+    numThreads = omp_get_num_threads();
 }
 
 template<class IT, class NT,
-- 
2.43.0


From 09cacdae7f619bbe6b5c505af4d27055beb6f991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:46 +0000
Subject: [PATCH 38/55] fix: every thread of a team stored the team size in one
 shared variable

---
 heap_mult.h      | 1 +
 inner_mult.h     | 1 +
 mask_hash_mult.h | 1 +
 utility.h        | 1 +
 4 files changed, 4 insertions(+)

diff --git a/heap_mult.h b/heap_mult.h
index a4ca9ee..48a6cdc 100644
--- a/heap_mult.h
+++ b/heap_mult.h
@@ -48,6 +48,7 @@ void HeapSpGEMM(const CSC<IT,NT> & A, const CSC<IT,NT> & B, CSC<IT,NT> & C, Mult
 {
     int numThreads;
 #pragma omp parallel
+#pragma omp single
     {
         numThreads = omp_get_num_threads();
     }
diff --git a/inner_mult.h b/inner_mult.h
index 6cba673..37004e6 100644
--- a/inner_mult.h
+++ b/inner_mult.h
@@ -72,6 +72,7 @@ innerSpGEMM_nohash(const CSR<IT,NT> & A, const CSC<IT,NT> & B, CSR<IT,NT> & C_fi
     
     IT numThreads;
     #pragma omp parallel num_threads(threadCount)
+    #pragma omp single
     {
         numThreads = omp_get_num_threads();
     }
diff --git a/mask_hash_mult.h b/mask_hash_mult.h
index 773aa75..4352ae5 100644
--- a/mask_hash_mult.h
+++ b/mask_hash_mult.h
@@ -49,6 +49,7 @@ mxm_hash_mask
     
     int numThreads; 
     #pragma omp parallel num_threads(threadCount)
+    #pragma omp single
     {
         numThreads = omp_get_num_threads();
     }
diff --git a/utility.h b/utility.h
index 855aec6..f17243c 100644
--- a/utility.h
+++ b/utility.h
@@ -183,6 +183,7 @@ template <typename T> void scan(T *in, T *out, T N) {
   } else {
     int tnum = 1;
 #pragma omp parallel
+#pragma omp single
     { tnum = omp_get_num_threads(); }
     T each_n = N / tnum;
     T *partial_sum = my_malloc<T>(tnum);
-- 
2.43.0


From b19c2e9cd70d1181b3f057a02107e06e557b1c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:46 +0000
Subject: [PATCH 39/55] fix: row-wise heap product: threads without rows read
 another thread's row offset

---
 heap_mult_generic.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index b3647ce..5067135 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -790,6 +790,9 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         IT rowPtrOffset = std::accumulate(threadsNvals, threadsNvals + thisThread, IT(0));
 #pragma omp barrier
 
+        // rowptr[rowBegin] of a thread without rows belongs to another thread
+        const IT threadOffset = rowPtrOffset;
+
         // set rowptr in C for local rows
         for (IT i = rowBegin; i < rowEnd; ++i) {
             C.rowptr[i] = rowPtrOffset;
@@ -798,8 +801,8 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         if (thisThread == numThreads - 1) { C.rowptr[C.rows] = rowPtrOffset; }
 
         // copy local values to C
-        copy(colIdsLocalMem + 1, colIdsLocalMem + threadNvals + 1, C.colids + C.rowptr[rowBegin]);
-        copy(valuesLocalMem + 1, valuesLocalMem + threadNvals + 1, C.values + C.rowptr[rowBegin]);
+        copy(colIdsLocalMem + 1, colIdsLocalMem + threadNvals + 1, C.colids + threadOffset);
+        copy(valuesLocalMem + 1, valuesLocalMem + threadNvals + 1, C.values + threadOffset);
 
         my_free<IT>(colIdsLocalMem);
         my_free<NT>(valuesLocalMem);
-- 
2.43.0


From 01a413ab454e018c452dc3c86a78d76dc6914871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:57 +0000
Subject: [PATCH 40/55] fix: random graph generator: more G(n,p) edges than
 estimated overran the edge arrays

---
 GTgraph/random/graph.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/GTgraph/random/graph.c b/GTgraph/random/graph.c
index 5d83caa..425a830 100644
--- a/GTgraph/random/graph.c
+++ b/GTgraph/random/graph.c
@@ -124,6 +124,13 @@ void graphGen(graph* g)
 
                                 if (p > sprng(stream1)) {
 
+					/* more edges than estimated */
+					if (edgeNum >= estNumEdges) {
+						estNumEdges = 2*edgeNum + 16;
+						startVertex = (LONG_T *) realloc(startVertex, estNumEdges * sizeof(LONG_T));
+						endVertex   = (LONG_T *) realloc(endVertex, estNumEdges * sizeof(LONG_T));
+					}
+
 					startVertex[edgeNum] = i; 
 					endVertex[edgeNum]   = j;
 					edgeNum++;
-- 
2.43.0


From 5a279a25369958c1db9948c05f59b5806e8d6be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:57 +0000
Subject: [PATCH 41/55] fix: random graph generator: the edge count written
 into a G(n,p) file was never flushed

---
 GTgraph/random/utils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/GTgraph/random/utils.c b/GTgraph/random/utils.c
index 3609f07..9cdde32 100644
--- a/GTgraph/random/utils.c
+++ b/GTgraph/random/utils.c
@@ -238,11 +238,15 @@ void updateEdgeVal(char* FILENAME, LONG_T numEdges) {
 	
 	fgets(line, sizeof(line), outfp);
 	fgets(line, sizeof(line), outfp);
+	fseek(outfp, 0, SEEK_CUR);
 	fprintf(outfp, "c No. of directed edges	: %ld", numEdges);	 
+	fseek(outfp, 0, SEEK_CUR);
 	fgets(line, sizeof(line), outfp);
 	fgets(line, sizeof(line), outfp);
 	fgets(line, sizeof(line), outfp);
 	fgets(line, sizeof(line), outfp);
 	fgets(line, sizeof(line), outfp);
+	fseek(outfp, 0, SEEK_CUR);
 	fprintf(outfp, "p sp %ld %ld", n, numEdges);
+	fclose(outfp);
 }
-- 
2.43.0


From 0e7f7323352c6c7bc1decb80475115967dc6bca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:57 +0000
Subject: [PATCH 42/55] fix: SSCA2 generator: cliques larger than
 MaxCliqueSize, or none, when the estimated number of clusters is too small

---
 GTgraph/SSCA2/graph.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/GTgraph/SSCA2/graph.c b/GTgraph/SSCA2/graph.c
index 7dbf877..409b89d 100644
--- a/GTgraph/SSCA2/graph.c
+++ b/GTgraph/SSCA2/graph.c
@@ -34,15 +34,18 @@ void graphGen(graph* g)
 
   	/* Estimate number of clusters required to make up 
 	 * TotVertices and pad by 25% */
-	estTotClusters = 1.25 * TotVertices / (MaxCliqueSize/2);
+	estTotClusters = 1.25 * TotVertices / (MaxCliqueSize > 1 ? MaxCliqueSize/2 : 1);
 	
-	/* Allocate a block of memory for this cluster-size array */
-	clusterSizes = (LONG_T *) malloc(estTotClusters*sizeof(LONG_T));
+	/* Allocate a block of memory for this cluster-size array
+	 * (TotVertices clusters are enough in any case) */
+	clusterSizes = (LONG_T *) malloc((estTotClusters + TotVertices)*sizeof(LONG_T));
 
-	/* Generate random cluster sizes. */
-	for(i = 0; i < estTotClusters; i++) {
+	/* Generate random cluster sizes, until they make up TotVertices */
+	for(i = 0, t = 0; (i < estTotClusters) || (t < TotVertices); i++) {
 		clusterSizes[i] = 1 + (sprng(stream) * MaxCliqueSize);
+		t += clusterSizes[i];
 	}
+	estTotClusters = i;
 
 	totClusters = 0;
   
-- 
2.43.0


From 2a2d8929a28f88a1f48a09c0e0c2d2967dcf78f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 43/55] fix: SSCA2 generator: more edges than estimated overran
 the edge arrays

---
 GTgraph/SSCA2/graph.c | 46 +++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/GTgraph/SSCA2/graph.c b/GTgraph/SSCA2/graph.c
index 409b89d..0c9fd7d 100644
--- a/GTgraph/SSCA2/graph.c
+++ b/GTgraph/SSCA2/graph.c
@@ -1,5 +1,19 @@
 #include "graph.h"
 
+/* Append an edge, enlarging the edge arrays as required */
+static void addEdge(LONG_T** startV, LONG_T** endV, LONG_T* size, \
+		    LONG_T* edgeNum, LONG_T u, LONG_T v)
+{
+	if (*edgeNum >= *size) {
+		*size = 2 * (*edgeNum) + 16;
+		*startV = (LONG_T *) realloc(*startV, (*size)*sizeof(LONG_T));
+		*endV = (LONG_T *) realloc(*endV, (*size)*sizeof(LONG_T));
+	}
+	(*startV)[*edgeNum] = u;
+	(*endV)[*edgeNum] = v;
+	(*edgeNum)++;
+}
+
 void graphGen(graph* g)
 {
 
@@ -106,18 +120,12 @@ void graphGen(graph* g)
 				if (sprng(stream) >= p) {
 					/* generate edges in both directions */
 					for (k=0; k<1+((LONG_T) (MaxParallelEdges-1) * sprng(stream)); k++) {
-						startV[edgeNum] = i + \
-							firstVsInCluster[i_cluster];
-						endV[edgeNum] = j + \
-							firstVsInCluster[i_cluster];
-						edgeNum++;
+						addEdge(&startV, &endV, &estNumEdges, &edgeNum, \
+							i + firstVsInCluster[i_cluster], j + firstVsInCluster[i_cluster]);
 					}
 					for (k=0; k<1+((LONG_T) (MaxParallelEdges-1) * sprng(stream)); k++) {
-						startV[edgeNum] = j + \
-							firstVsInCluster[i_cluster];
-                                        	endV[edgeNum] = i + \
-							firstVsInCluster[i_cluster];
-						edgeNum++;
+						addEdge(&startV, &endV, &estNumEdges, &edgeNum, \
+                                        		j + firstVsInCluster[i_cluster], i + firstVsInCluster[i_cluster]);
 					}
 				} else {
 
@@ -125,19 +133,13 @@ void graphGen(graph* g)
 					 * one direction */
 					if (sprng(stream) > 0.5) {
 						for (k=0; k<1+((LONG_T) (MaxParallelEdges-1) * sprng(stream)); k++) {	
-							startV[edgeNum] = i + \
-							firstVsInCluster[i_cluster];
-							endV[edgeNum] = j + \
-							firstVsInCluster[i_cluster];
-							edgeNum++;
+							addEdge(&startV, &endV, &estNumEdges, &edgeNum, \
+								i + firstVsInCluster[i_cluster], j + firstVsInCluster[i_cluster]);
 						}
 					} else {
 						for (k=0; k<1+((LONG_T) (MaxParallelEdges-1) * sprng(stream)); k++) {
-							startV[edgeNum] = j + \
-							firstVsInCluster[i_cluster];	
-							endV[edgeNum] = i + \
-							firstVsInCluster[i_cluster];
-							edgeNum++;
+							addEdge(&startV, &endV, &estNumEdges, &edgeNum, \
+								j + firstVsInCluster[i_cluster], i + firstVsInCluster[i_cluster]);
 						}
 					}	
 				}
@@ -190,9 +192,7 @@ void graphGen(graph* g)
 				
 				for (k=0; k<1+((LONG_T) (MaxParallelEdges - 1)* sprng(stream)); k++) {
 					if (p > sprng(stream)) {
-						startV[edgeNum] = i;
-						endV[edgeNum] = j;
-						edgeNum++;	
+						addEdge(&startV, &endV, &estNumEdges, &edgeNum, i, j);	
 					}	
 				}	
 			}
-- 
2.43.0


From badbb73792b410b85d18c9d74875d5b6c1b2d1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:54 +0000
Subject: [PATCH 44/55] fix: sample programs read ten values of products that
 have fewer

---
 sample/HashSpGEMM.cpp       | 2 +-
 sample/MaskedHashSpGEMM.cpp | 2 +-
 sample/MaskedSPASpGEMM.cpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sample/HashSpGEMM.cpp b/sample/HashSpGEMM.cpp
index 676d562..b533d55 100644
--- a/sample/HashSpGEMM.cpp
+++ b/sample/HashSpGEMM.cpp
@@ -83,7 +83,7 @@ int main(int argc, char* argv[])
 
         /* First execution is excluded from evaluation */
         HashSpGEMM<sortOutput>(A_csr, B_csr, C_csr, multiplies<VALUETYPE>(), plus<VALUETYPE>(),tnum);
-        for (int i = 0; i < 10; ++i)
+        for (int i = 0; i < 10 && i < C_csr.nnz; ++i)
             cout << C_csr.values[i] << " ";
         cout << endl;
         C_csr.make_empty();
diff --git a/sample/MaskedHashSpGEMM.cpp b/sample/MaskedHashSpGEMM.cpp
index 1dff9ad..b12b70c 100644
--- a/sample/MaskedHashSpGEMM.cpp
+++ b/sample/MaskedHashSpGEMM.cpp
@@ -81,7 +81,7 @@ int main(int argc, char* argv[])
 
         /* First execution is excluded from evaluation */
         HashSpGEMM<sortOutput>(A_csr, B_csr, C_csr, multiplies<VALUETYPE>(), plus<VALUETYPE>(),tnum);
-        for (int i = 0; i < 10; ++i)
+        for (int i = 0; i < 10 && i < C_csr.nnz; ++i)
             cout << C_csr.values[i] << " ";
         cout << endl;
         C_csr.make_empty();
diff --git a/sample/MaskedSPASpGEMM.cpp b/sample/MaskedSPASpGEMM.cpp
index eb47202..2631154 100644
--- a/sample/MaskedSPASpGEMM.cpp
+++ b/sample/MaskedSPASpGEMM.cpp
@@ -88,7 +88,7 @@ int main(int argc, char* argv[])
         /* First execution is excluded from evaluation */
 
         HashSpGEMM<sortOutput>(A_csr, B_csr, C_csr, multiplies<VALUETYPE>(), plus<VALUETYPE>(), tnum);
-        for (int i = 0; i < 10; ++i)
+        for (int i = 0; i < 10 && i < C_csr.nnz; ++i)
             cout << C_csr.values[i] << " ";
         cout << endl;
         C_csr.make_empty();
-- 
2.43.0


From af5b5e0958185ad3d416254f864b943a916bd666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:33 +0000
Subject: [PATCH 45/55] fix: NUMA-aware and profiled outer products gave the
 last of an odd number of rows no place in the right half

---
 sample/NUMA-aware.cpp         | 2 +-
 sample/ProfileOuterSpGEMM.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/NUMA-aware.cpp b/sample/NUMA-aware.cpp
index 5f232b9..a229db3 100644
--- a/sample/NUMA-aware.cpp
+++ b/sample/NUMA-aware.cpp
@@ -81,7 +81,7 @@ int main(int argc, char *argv[]) {
 
   auto obj = SplitTuples<INDEXTYPE, VALUETYPE>(A_csr, 2);
   auto left = CSC<INDEXTYPE, VALUETYPE>(obj.splitTuples[0], obj.rows / 2, obj.cols, plus<INDEXTYPE>());
-  auto right = CSC<INDEXTYPE, VALUETYPE>(obj.splitTuples[1], obj.rows / 2, obj.cols, plus<INDEXTYPE>());
+  auto right = CSC<INDEXTYPE, VALUETYPE>(obj.splitTuples[1], obj.rows - obj.rows / 2, obj.cols, plus<INDEXTYPE>());
   cout << "left non-zeros = " << obj.splitTuples[0].size() << endl;
   cout << "right non-zeros = " << obj.splitTuples[1].size() << endl;
   double start, end, msec, ave_msec, mflops;
diff --git a/sample/ProfileOuterSpGEMM.cpp b/sample/ProfileOuterSpGEMM.cpp
index b0c5ec5..a7edb31 100644
--- a/sample/ProfileOuterSpGEMM.cpp
+++ b/sample/ProfileOuterSpGEMM.cpp
@@ -85,7 +85,7 @@ CSR<INDEXTYPE, VALUETYPE> C_csr_left;
 CSR<INDEXTYPE, VALUETYPE> C_csr_right;
   auto obj = SplitTuples<INDEXTYPE, VALUETYPE>(A_csr, 2);
   auto left = CSC<INDEXTYPE, VALUETYPE>(obj.splitTuples[0], obj.rows / 2, obj.cols, plus<INDEXTYPE>());
-  auto right = CSC<INDEXTYPE, VALUETYPE>(obj.splitTuples[1], obj.rows / 2, obj.cols, plus<INDEXTYPE>());
+  auto right = CSC<INDEXTYPE, VALUETYPE>(obj.splitTuples[1], obj.rows - obj.rows / 2, obj.cols, plus<INDEXTYPE>());
     double start, end, msec, ave_msec, mflops;
     /* Count total number of floating-point operations */
     auto nfop = get_flop(left, B_csr);
-- 
2.43.0


From ca2e55c925e7ad167b24785d9f583dedbedbe7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:15 +0000
Subject: [PATCH 46/55] fix: GenMatrices wrote as many columns of the left
 matrix as it has rows

---
 sample/GenMatrices.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/GenMatrices.cpp b/sample/GenMatrices.cpp
index 963b2ff..9df12e5 100644
--- a/sample/GenMatrices.cpp
+++ b/sample/GenMatrices.cpp
@@ -49,7 +49,7 @@ int main(int argc, char* argv[])
     fd_left.open(std::string("assets/left_") + std::string(argv[2]) + std::string(argv[3]) + std::string("_") + std::string(argv[4]) + std::string(".mtx"));
     fd_left << "%%MatrixMarket matrix coordinate pattern general" << endl;
     fd_left << A_csc.rows << " " << A_csc.cols << " " << A_csc.nnz << endl;
-    for (int32_t i = 0; i < A_csc.rows; ++i)
+    for (int32_t i = 0; i < A_csc.cols; ++i)
         for (int32_t j = A_csc.colptr[i]; j < A_csc.colptr[i + 1]; ++j)
             fd_left << A_csc.rowids[j] + 1 << " " << i + 1 << std::endl;
     fd_left.close();
-- 
2.43.0


From c23ae33673d6385ae7b6c30f0e7b346d8a168c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:56 +0000
Subject: [PATCH 47/55] fix: blocked triangle counting reported its blocks
 under other blocks' indices

---
 sample/blocked_parallel_tc.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sample/blocked_parallel_tc.cpp b/sample/blocked_parallel_tc.cpp
index b54d756..07b2bbf 100644
--- a/sample/blocked_parallel_tc.cpp
+++ b/sample/blocked_parallel_tc.cpp
@@ -130,7 +130,7 @@ int main(int argc, char* argv[])
                 C_csr.sortIds();
                 #pragma omp critical
                 {
-                    printf("Thread %d on (%d,%d,%d) loop: HashSpGEMM executed and returned %lld nonzeros. Both matrices are sorted now\n", i, j, k, omp_get_thread_num(), C_csr.nnz);
+                    printf("Thread %d on (%d,%d,%d) loop: HashSpGEMM executed and returned %lld nonzeros. Both matrices are sorted now\n", omp_get_thread_num(), i, j, k, C_csr.nnz);
                 }
 
                 CSR<INDEXTYPE,VALUETYPE> Tr_csr = Intersect(M_Copy, C_csr, plus<VALUETYPE>());   // change plus to select2nd
@@ -142,7 +142,7 @@ int main(int argc, char* argv[])
                 triangles[i][j][k] = (int64_t) C_csr.sumall();
                 #pragma omp critical
                 {
-                    printf("Thread %d on (%d,%d,%d) loop: SPASpGEMM runs and returns %lld nonzeros and %lld triangles\n",  i, j, k, omp_get_thread_num(), C_csr.nnz, triangles[i][j][k]);
+                    printf("Thread %d on (%d,%d,%d) loop: SPASpGEMM runs and returns %lld nonzeros and %lld triangles\n",  omp_get_thread_num(), i, j, k, C_csr.nnz, triangles[i][j][k]);
                 }
                 C_csr.make_empty();
                 
@@ -151,7 +151,7 @@ int main(int argc, char* argv[])
 
                 #pragma omp critical
                 {
-                    printf("Thread %d on (%d,%d,%d) loop: innerSpGEMM_nohash runs and returns %lld nonzeros\n",  i, j, k, omp_get_thread_num(), C_csr.nnz);
+                    printf("Thread %d on (%d,%d,%d) loop: innerSpGEMM_nohash runs and returns %lld nonzeros\n",  omp_get_thread_num(), i, j, k, C_csr.nnz);
                 }
                 masked_inner_nnzs[i][j][k] = C_csr.nnz;
                 C_csr.make_empty();
@@ -160,7 +160,7 @@ int main(int argc, char* argv[])
                 mxm_hash_mask(A_Copy, B_Copy, C_csr, M_Copy, multiplies<VALUETYPE>(), plus<VALUETYPE>(), THREADPERCALL);
                 #pragma omp critical
                 {
-                    printf("Thread %d on (%d,%d,%d) loop: mxm_hash_mask runs and returns %lld nonzeros\n",  i, j, k, omp_get_thread_num(), C_csr.nnz);
+                    printf("Thread %d on (%d,%d,%d) loop: mxm_hash_mask runs and returns %lld nonzeros\n",  omp_get_thread_num(), i, j, k, C_csr.nnz);
                 }
                 
                 timehash[i][j][k] = 0.0;
-- 
2.43.0


From 838e5a8672e2d72d6817a5d3524bd3fb88bdc151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 48/55] fix: lagged Fibonacci streams looked for their node
 number with another generator's length

---
 GTgraph/sprng2.0-lite/src/lfg/lfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GTgraph/sprng2.0-lite/src/lfg/lfg.c b/GTgraph/sprng2.0-lite/src/lfg/lfg.c
index 4122633..569f07a 100755
--- a/GTgraph/sprng2.0-lite/src/lfg/lfg.c
+++ b/GTgraph/sprng2.0-lite/src/lfg/lfg.c
@@ -544,7 +544,7 @@ unsigned *nstart, seed, initseed;
   for (i=ngen-1;i>=0;i--) 
   {
     k = 0;
-    for (j=1;j<lval-1;j++)
+    for (j=1;j<length-1;j++)
       if (q[i]->si[j]) 
 	k = 1;
     if (!k) 
-- 
2.43.0


From 86074146bb8ba572fb690dc8d9db803464b38616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 49/55] fix: lagged Fibonacci streams answered the first
 stream's seed instead of their own

---
 GTgraph/sprng2.0-lite/src/lfg/lfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GTgraph/sprng2.0-lite/src/lfg/lfg.c b/GTgraph/sprng2.0-lite/src/lfg/lfg.c
index 569f07a..1512feb 100755
--- a/GTgraph/sprng2.0-lite/src/lfg/lfg.c
+++ b/GTgraph/sprng2.0-lite/src/lfg/lfg.c
@@ -731,7 +731,7 @@ int get_seed_rng(gen)
 int *gen;
 #endif
 {
-        return(GS0^gseed);
+        return ((struct rngen *) gen)->init_seed;
 }
 
  
-- 
2.43.0


From 010545fe57476f8639b0ced804471f60578649a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 50/55] fix: text inputs whose name has no dot crashed the
 sample programs

---
 sample/sample_common.hpp | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/sample/sample_common.hpp b/sample/sample_common.hpp
index 088a1c8..5692a08 100644
--- a/sample/sample_common.hpp
+++ b/sample/sample_common.hpp
@@ -180,19 +180,6 @@ void SetInputMatricesAsCSC(CSC<INDEXTYPE, VALUETYPE> &A_csc,
       cout << "reading input matrices in text (ascii)... " << endl;
       ReadASCII(inputname1, A_csc);
       ReadASCII(inputname2, B_csc);
-      stringstream ss1(inputname1);
-      string cur;
-      vector<string> v1;
-      while (getline(ss1, cur, '.')) {
-        v1.push_back(cur);
-      }
-
-      stringstream ss2(v1[v1.size() - 2]);
-      vector<string> v2;
-      while (getline(ss2, cur, '/')) {
-        v2.push_back(cur);
-      }
-      inputname1 = v2[v2.size() - 1];
     }
   }
 }
-- 
2.43.0


From f16c5f77d9a4ae6158d2efebbeedac062f4d8afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:50 +0000
Subject: [PATCH 51/55] fix: text readers stopped at long comment lines and
 took the symmetry from any comment

---
 CSR.h | 31 ++++++++++++++++---------------
 IO.h  | 38 ++++++++++++++++----------------------
 2 files changed, 32 insertions(+), 37 deletions(-)

diff --git a/CSR.h b/CSR.h
index 637bc2f..36dda5e 100644
--- a/CSR.h
+++ b/CSR.h
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cstdlib>
+#include <fstream>
 #include <iostream>
 #include <random>
 #include <vector>
@@ -540,32 +541,33 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
   IT i;
   bool isUnsy;
   IT num, offset, tmp_nz;
-  char *line, *ch;
-  FILE *fp;
+  bool header;
+  string line;
+  char *ch;
   IT *col_coo, *row_coo;
   NT *val_coo;
   IT *each_row_index;
   IT *nnz_num;
-  const int LINE_LENGTH_MAX = 256;
 
   isUnsy = false;
-  line = (char *)malloc(sizeof(char) * LINE_LENGTH_MAX);
+  header = true;
 
   /* Open File */
-  fp = fopen(filename.c_str(), "r");
-  if (fp == NULL) {
+  ifstream fp(filename.c_str());
+  if (!fp.is_open()) {
     exit(1);
   }
-  do {
-    fgets(line, LINE_LENGTH_MAX, fp);
-    if (strstr(line, "general")) {
+  while (getline(fp, line) && line[0] == '%') {
+    /* only the header tells the symmetry, comments may say anything */
+    if (header && line.find("general") != string::npos) {
       isUnsy = true;
     }
-  } while (line[0] == '%');
+    header = false;
+  }
 
   /* Get size info */
   long long hdr_rows = 0, hdr_cols = 0, hdr_nz = 0;
-  sscanf(line, "%lld %lld %lld", &hdr_rows, &hdr_cols, &hdr_nz);
+  sscanf(line.c_str(), "%lld %lld %lld", &hdr_rows, &hdr_cols, &hdr_nz);
   rows = (IT)hdr_rows;
   cols = (IT)hdr_cols;
   tmp_nz = (IT)hdr_nz;
@@ -576,8 +578,8 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
   row_coo = (IT *)malloc(sizeof(IT) * (tmp_nz));
   val_coo = (NT *)malloc(sizeof(NT) * (tmp_nz));
 
-  while (fgets(line, LINE_LENGTH_MAX, fp)) {
-    ch = line;
+  while (getline(fp, line)) {
+    ch = &line[0];
     /* Read first word (row id)*/
     row_coo[num] = (IT)(atoi(ch) - 1);
     ch = strchr(ch, ' ');
@@ -596,7 +598,7 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
     }
     num++;
   }
-  fclose(fp);
+  fp.close();
 
   /* Count the number of non-zero in each row */
   nnz_num = (IT *)malloc(sizeof(IT) * rows);
@@ -640,7 +642,6 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
     }
   }
 
-  free(line);
   free(nnz_num);
   free(row_coo);
   free(col_coo);
diff --git a/IO.h b/IO.h
index ced19d4..b9ed1e5 100644
--- a/IO.h
+++ b/IO.h
@@ -63,20 +63,18 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
     bool isSymmetric = false;
     double start = omp_get_wtime( );
     ifstream infile(filename.c_str());
-    char line[256];
-    char c = infile.get();
-    while(c == '%')
+    string line;
+    bool header = true;
+    while (getline(infile, line) && line[0] == '%')
     {
-        infile.getline(line,256);
-        if (strstr(line, "symmetric")) {
+        // only the header tells the symmetry, comments may say anything
+        if (header && line.find("symmetric") != string::npos) {
             isSymmetric = true;
             cout << "Matrix is symmetric" << endl;
         }
-        c = infile.get();
+        header = false;
     }
-    infile.unget();
 
-    infile.getline(line,256);
     IT m,n,nnz;
     std::stringstream ss{line};
     ss >> m >> n >> nnz;
@@ -89,10 +87,9 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
     if (infile.is_open())
     {
         IT cnz = 0;	// current number of nonzeros
-        while (! infile.eof() && cnz < nnz)
+        while (cnz < nnz && getline(infile, line))
         {
-            infile.getline(line,256);
-            char *ch = line;
+            char *ch = &line[0];
             triples[cnz].row = (IT)(atoi(ch));
             ch = strchr(ch, ' ');
             ch++;
@@ -154,24 +151,22 @@ int ReadASCII_Triples(string	  filename,
     bool isSymmetric = false;
     double start = omp_get_wtime( );
     ifstream infile(filename.c_str());
-    char line[256];
-    char c = infile.get();
-    while(c == '%')
+    string line;
+    bool header = true;
+    while (getline(infile, line) && line[0] == '%')
     {
-        infile.getline(line,256);
-        if (strstr(line, "symmetric")) {
+        // only the header tells the symmetry, comments may say anything
+        if (header && line.find("symmetric") != string::npos) {
             isSymmetric = true;
             cout << "Matrix is symmetric" << endl;
         }
-        c = infile.get();
+        header = false;
     }
-    infile.unget();
 
 	if (remove_diags)
 		cout << "will remove diagonals from the matrix" << endl;
 
 	IT m,n,nnz;
-	infile.getline(line,256);
     std::stringstream ss{line};
     ss >> m >> n >> nnz;
 	    
@@ -185,10 +180,9 @@ int ReadASCII_Triples(string	  filename,
     if (infile.is_open())
     {
         IT cnz = 0;
-        while (! infile.eof() && cnz < nnz)
+        while (cnz < nnz && getline(infile, line))
         {
-            infile.getline(line,256);
-            char *ch = line;
+            char *ch = &line[0];
             IT rid = (IT)(atoi(ch));
             ch = strchr(ch, ' ');
             ch++;
-- 
2.43.0


From ac8fded01642bf6c8746a2c06dd03552fcc1106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:25 +0000
Subject: [PATCH 52/55] fix: text readers misread words separated by several
 blanks and crashed at blank lines

---
 CSR.h | 26 +++++++++++---------------
 IO.h  | 45 ++++++++++++++++++++-------------------------
 2 files changed, 31 insertions(+), 40 deletions(-)

diff --git a/CSR.h b/CSR.h
index 36dda5e..e120f52 100644
--- a/CSR.h
+++ b/CSR.h
@@ -557,7 +557,7 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
   if (!fp.is_open()) {
     exit(1);
   }
-  while (getline(fp, line) && line[0] == '%') {
+  while (getline(fp, line) && (line[0] == '%' || line.find_first_not_of(" \t\r") == string::npos)) {
     /* only the header tells the symmetry, comments may say anything */
     if (header && line.find("general") != string::npos) {
       isUnsy = true;
@@ -580,20 +580,16 @@ CSR<IT, NT>::CSR(const string filename) : zerobased(true) {
 
   while (getline(fp, line)) {
     ch = &line[0];
-    /* Read first word (row id)*/
-    row_coo[num] = (IT)(atoi(ch) - 1);
-    ch = strchr(ch, ' ');
-    ch++;
-    /* Read second word (column id)*/
-    col_coo[num] = (IT)(atoi(ch) - 1);
-    ch = strchr(ch, ' ');
-
-    if (ch != NULL) {
-      ch++;
-      /* Read third word (value data)*/
-      val_coo[num] = (NT)atof(ch);
-      ch = strchr(ch, ' ');
-    } else {
+    if (line.find_first_not_of(" \t\r") == string::npos) {
+      continue; /* blank line */
+    }
+    /* Read first and second word (row id, column id) after any number of blanks */
+    row_coo[num] = (IT)(strtoll(ch, &ch, 10) - 1);
+    col_coo[num] = (IT)(strtoll(ch, &ch, 10) - 1);
+    /* Read third word (value data)*/
+    char *word = ch;
+    val_coo[num] = (NT)strtod(word, &ch);
+    if (ch == word) {
       val_coo[num] = 1.0;
     }
     num++;
diff --git a/IO.h b/IO.h
index b9ed1e5..b877025 100644
--- a/IO.h
+++ b/IO.h
@@ -65,7 +65,7 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
     ifstream infile(filename.c_str());
     string line;
     bool header = true;
-    while (getline(infile, line) && line[0] == '%')
+    while (getline(infile, line) && (line[0] == '%' || line.find_first_not_of(" \t\r") == string::npos))
     {
         // only the header tells the symmetry, comments may say anything
         if (header && line.find("symmetric") != string::npos) {
@@ -90,18 +90,16 @@ int ReadASCII(string filename, CSC<IT,NT> & csc)
         while (cnz < nnz && getline(infile, line))
         {
             char *ch = &line[0];
-            triples[cnz].row = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-            ch++;
-            triples[cnz].col = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-            if (ch != NULL) {
-                ch++;
-                /* Read third word (value data)*/
-                triples[cnz].val = (NT)(atof(ch));
-                ch = strchr(ch, ' ');
+            if (line.find_first_not_of(" \t\r") == string::npos) {
+                continue;	// blank line
             }
-            else {
+            /* words may be separated by any number of blanks */
+            triples[cnz].row = (IT)(strtoll(ch, &ch, 10));
+            triples[cnz].col = (IT)(strtoll(ch, &ch, 10));
+            /* Read third word (value data)*/
+            char *word = ch;
+            triples[cnz].val = (NT)(strtod(word, &ch));
+            if (ch == word) {
                 triples[cnz].val = 1.0;
             }
             // infile >> triples[cnz].row >> triples[cnz].col >> triples[cnz].val;	// row-col-value
@@ -153,7 +151,7 @@ int ReadASCII_Triples(string	  filename,
     ifstream infile(filename.c_str());
     string line;
     bool header = true;
-    while (getline(infile, line) && line[0] == '%')
+    while (getline(infile, line) && (line[0] == '%' || line.find_first_not_of(" \t\r") == string::npos))
     {
         // only the header tells the symmetry, comments may say anything
         if (header && line.find("symmetric") != string::npos) {
@@ -183,18 +181,15 @@ int ReadASCII_Triples(string	  filename,
         while (cnz < nnz && getline(infile, line))
         {
             char *ch = &line[0];
-            IT rid = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-            ch++;
-            IT cid = (IT)(atoi(ch));
-            ch = strchr(ch, ' ');
-			NT val = 1.0;
-			if (ch != NULL)
-			{
-                ch++;
-                val = (NT)(atof(ch));
-                ch = strchr(ch, ' ');
-			}
+            if (line.find_first_not_of(" \t\r") == string::npos)
+                continue;	// blank line
+            // words may be separated by any number of blanks
+            IT rid = (IT)(strtoll(ch, &ch, 10));
+            IT cid = (IT)(strtoll(ch, &ch, 10));
+            char *word = ch;
+			NT val = (NT)(strtod(word, &ch));
+			if (ch == word)
+				val = 1.0;
 
 			if (rand_vals)
 				val = rand()%10 + 7;
-- 
2.43.0


From 361aa01c31176552063b581de13a2d48b8123d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:12 +0000
Subject: [PATCH 53/55] fix: hashing large column numbers overflowed the signed
 index type

---
 hash_mult_hw.h |  4 ++--
 mask_hash.h    | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/hash_mult_hw.h b/hash_mult_hw.h
index f541d22..9760548 100644
--- a/hash_mult_hw.h
+++ b/hash_mult_hw.h
@@ -54,7 +54,7 @@ inline void hash_symbolic_kernel(const IT *arpt, const IT *acol, const IT *brpt,
                     t_acol = acol[j];
                     for (k = brpt[t_acol]; k < brpt[t_acol + 1]; ++k) {
                         key = bcol[k];
-                        hash = (key * HASH_SCAL) & (SH_ROW - 1);
+                        hash = ((size_t)key * HASH_SCAL) & (SH_ROW - 1);
                         while (1) {
                             if (check[hash] == key) {
                                 break;
@@ -134,7 +134,7 @@ inline void hash_numeric(const IT *arpt, const IT *acol, const NT *aval, const I
                         t_val = multop(t_aval, bval[k]);
 
                         key = bcol[k];
-                        hash = (key * HASH_SCAL) & (SH_ROW - 1);
+                        hash = ((size_t)key * HASH_SCAL) & (SH_ROW - 1);
                         while (1) {
                             if (shared_check[hash] == key) {
                                 shared_value[hash] = addop(t_val, shared_value[hash]);
diff --git a/mask_hash.h b/mask_hash.h
index af4fee5..9c41978 100644
--- a/mask_hash.h
+++ b/mask_hash.h
@@ -66,7 +66,7 @@ map_lp
 	insert (K k, V1 val1, V2 val2)
 	{
 		T	key = static_cast<T>(k);
-		T	hv	= (key * scale_) & (size_ - 1); // beware
+		T	hv	= ((size_t)key * scale_) & (size_ - 1); // beware
 
 		while (get<0>(v_[hv]) != ne_ && get<0>(v_[hv]) != key)
 			hv = (hv + 1) & (size_ - 1);
@@ -88,7 +88,7 @@ map_lp
 	find (K k)
 	{
 		T	key = static_cast<T>(k);
-		T	hv	= (key * scale_) & (size_ - 1);
+		T	hv	= ((size_t)key * scale_) & (size_ - 1);
 
 		while (get<0>(v_[hv]) != ne_ && get<0>(v_[hv]) != key)
 			hv = (hv + 1) & (size_ - 1);
@@ -170,7 +170,7 @@ map_lp<K, V1, void, T>
 	insert (K k, V1 val)
 	{
 		T	key = static_cast<T>(k);
-		T	hv	= (key * scale_) & (size_ - 1);
+		T	hv	= ((size_t)key * scale_) & (size_ - 1);
 
 		while (v_[hv].first != ne_ && v_[hv].first != key)
 			hv = (hv + 1) & (size_ - 1);
@@ -191,7 +191,7 @@ map_lp<K, V1, void, T>
 	find (K k)
 	{
 		T	key = static_cast<T>(k);
-		T	hv	= (key * scale_) & (size_ - 1);
+		T	hv	= ((size_t)key * scale_) & (size_ - 1);
 
 		while (v_[hv].first != ne_ && v_[hv].first != key)
 			hv = (hv + 1) & (size_ - 1);
@@ -207,7 +207,7 @@ map_lp<K, V1, void, T>
 	find (K k, T *loc)
 	{
 		T	key = static_cast<T>(k);
-		T	hv	= (key * scale_) & (size_ - 1);
+		T	hv	= ((size_t)key * scale_) & (size_ - 1);
 
 		while (v_[hv].first != ne_ && v_[hv].first != key)
 			hv = (hv + 1) & (size_ - 1);
@@ -269,7 +269,7 @@ map_lp<K, void, void, T>
 	insert (K k)
 	{
 		T	key = static_cast<T>(k);
-		T	hv	= (key * scale_) & (size_ - 1);
+		T	hv	= ((size_t)key * scale_) & (size_ - 1);
 
 		while (v_[hv] != ne_ && v_[hv] != key)
 			hv = (hv + 1) & (size_ - 1);
@@ -289,7 +289,7 @@ map_lp<K, void, void, T>
 	find (K k)
 	{
 		T	key = static_cast<T>(k);
-		T	hv	= (key * scale_) & (size_ - 1);
+		T	hv	= ((size_t)key * scale_) & (size_ - 1);
 
 		while (v_[hv] != ne_ && v_[hv] != key)
 			hv = (hv + 1) & (size_ - 1);
-- 
2.43.0


From a3017f0230fee87132aeba2f8c7c996f70aa32f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:03 +0000
Subject: [PATCH 54/55] fix: products of more operations than the index type
 counts were split wrongly over the threads

---
 spgemm-blocks/common.h                  | 55 ++++++++++++++-----------
 spgemm-blocks/inner/MaskedInnerSpGEMM.h | 12 +++---
 spgemm-blocks/masked-spgemm-inner.h     | 12 +++---
 spgemm-blocks/masked-spgemm-poly.h      | 13 +++---
 spgemm-blocks/masked-spgemm.h           | 18 ++++----
 5 files changed, 59 insertions(+), 51 deletions(-)

diff --git a/spgemm-blocks/common.h b/spgemm-blocks/common.h
index 7f831cd..7757066 100644
--- a/spgemm-blocks/common.h
+++ b/spgemm-blocks/common.h
@@ -21,9 +21,12 @@ void verifyInputs(const AT<IT, NT> &A, const BT<IT, NT> &B, const CT<IT, NT> &C,
     assert(M.cols == B.cols);
 }
 
+// The operations of a product are counted with their own type: even if the number of nonzeros of each matrix fits the
+// index type, the number of operations may not.
+
 template<typename IT, typename NT>
-IT calculateMultOps(const CSR<IT, NT> &A, const CSR<IT, NT> &B, int numThreads = 0) {
-    IT nops = 0; // total multiplications needed to generate C
+size_t calculateMultOps(const CSR<IT, NT> &A, const CSR<IT, NT> &B, int numThreads = 0) {
+    size_t nops = 0; // total multiplications needed to generate C
 
     if (numThreads == 0) {
         numThreads = omp_get_max_threads();
@@ -31,7 +34,7 @@ IT calculateMultOps(const CSR<IT, NT> &A, const CSR<IT, NT> &B, int numThreads =
 
     #pragma omp parallel for reduction(+:nops) num_threads(numThreads)
     for (IT i = 0; i < A.rows; ++i) {
-        IT nopsRow = 0;
+        size_t nopsRow = 0;
         for (IT j = A.rowptr[i]; j < A.rowptr[i + 1]; ++j) {
             IT inner = A.colids[j];
             IT npins = B.rowptr[inner + 1] - B.rowptr[inner];
@@ -43,13 +46,13 @@ IT calculateMultOps(const CSR<IT, NT> &A, const CSR<IT, NT> &B, int numThreads =
     return nops;
 }
 
-template<typename IT, typename NT>
-IT calculateFlops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, IT *flopsPerRow, int numThreads) {
-    IT flops = 0; // total flop (multiplication) needed to generate C
+template<typename IT, typename NT, typename WT>
+WT calculateFlops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, WT *flopsPerRow, int numThreads) {
+    WT flops = 0; // total flop (multiplication) needed to generate C
 
 #pragma omp parallel for reduction(+:flops) num_threads(numThreads)
     for (IT i = 0; i < A.rows; ++i) {
-        IT flopsRow = 0;
+        WT flopsRow = 0;
         for (IT j = A.rowptr[i]; j < A.rowptr[i + 1]; ++j) {
             IT inner = A.colids[j];
             IT npins = B.rowptr[inner + 1] - B.rowptr[inner];
@@ -62,13 +65,13 @@ IT calculateFlops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, IT *flopsPerRow, i
     return flops;
 }
 
-template<typename IT, typename NT>
-IT calculateFlops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M, IT *flopsPerRow, int numThreads) {
-    IT flops = 0; // total flop (multiplication) needed to generate C
+template<typename IT, typename NT, typename WT>
+WT calculateFlops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M, WT *flopsPerRow, int numThreads) {
+    WT flops = 0; // total flop (multiplication) needed to generate C
 
 #pragma omp parallel for reduction(+:flops) num_threads(numThreads)
     for (IT i = 0; i < A.rows; ++i) {
-        IT flopsRow = 0;
+        WT flopsRow = 0;
         if (M.rowptr[i + 1] != M.rowptr[i]) {
             for (IT j = A.rowptr[i]; j < A.rowptr[i + 1]; ++j) {
                 IT inner = A.colids[j];
@@ -83,17 +86,17 @@ IT calculateFlops(const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT>
     return flops;
 }
 
-template<typename IT, typename NT>
-IT calculateWork(const CSR<IT, NT> &A, const CSC<IT, NT> &B, const CSR<IT, NT> &M, IT *workPerRow, int numThreads) {
-    IT work = 0;
+template<typename IT, typename NT, typename WT>
+WT calculateWork(const CSR<IT, NT> &A, const CSC<IT, NT> &B, const CSR<IT, NT> &M, WT *workPerRow, int numThreads) {
+    WT work = 0;
 
 #pragma omp parallel for reduction(+:work) num_threads(numThreads)
     for (IT i = 0; i < M.rows; ++i) {
-        IT workRow = 0;
+        WT workRow = 0;
         for (IT j = M.rowptr[i]; j < M.rowptr[i + 1]; ++j) {
             IT lenA = A.rowptr[i + 1] - A.rowptr[i];
             IT lenB = B.colptr[M.colids[j] + 1] - B.colptr[M.colids[j]];
-            if (lenA != 0 && lenB != 0) { workRow += lenA + lenB; }
+            if (lenA != 0 && lenB != 0) { workRow += WT(lenA) + lenB; }
         }
         workPerRow[i] = workRow;
         work += workRow;
@@ -103,9 +106,9 @@ IT calculateWork(const CSR<IT, NT> &A, const CSC<IT, NT> &B, const CSR<IT, NT> &
 }
 
 
-template<class IT>
-std::tuple<IT, IT> distributeWork(IT totalWork, IT *accumWorkPerRow, IT nrows, int numThreads, int thisThread) {
-    IT workPerThread = totalWork / numThreads;
+template<class IT, class WT>
+std::tuple<IT, IT> distributeWork(WT totalWork, WT *accumWorkPerRow, IT nrows, int numThreads, int thisThread) {
+    WT workPerThread = totalWork / numThreads;
 
     // @formatter:off
     IT rowBegin = thisThread != 0              ? (lower_bound(accumWorkPerRow, accumWorkPerRow + nrows, workPerThread * thisThread))       - accumWorkPerRow : 0;
@@ -125,22 +128,24 @@ IT estimateResultSize(IT rowBeginIdx, IT rowEndIdx, IT *flopsPerRow,
     return size;
 }
 
-template<bool complemented, bool calcUpperBoundSizeC, bool calcMaxRowSizeA, bool calcMaxRowSizeM, bool calcMaxRowFlops, class IT, class NT>
-std::tuple<IT, IT, IT, IT> scanInputs(IT rowBeginIdx, IT rowEndIdx, IT *flopsPerRow,
+template<bool complemented, bool calcUpperBoundSizeC, bool calcMaxRowSizeA, bool calcMaxRowSizeM, bool calcMaxRowFlops, class IT, class NT, class WT>
+std::tuple<size_t, IT, IT, IT> scanInputs(IT rowBeginIdx, IT rowEndIdx, WT *flopsPerRow,
                                   const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M) {
-    IT sizeC = 0;
+    size_t sizeC = 0;
     IT maxRowSizeM = 0;
     IT maxRowSizeA = 0;
     IT maxRowFlops = 0;
 
     for (IT row = rowBeginIdx; row < rowEndIdx; row++) {
+        // No more than B.cols different entries in a row
+        const IT rowFlops = std::min<WT>(flopsPerRow[row], B.cols);
         if (calcUpperBoundSizeC) {
-            if (!complemented) { sizeC += std::min(flopsPerRow[row], M.rowptr[row + 1] - M.rowptr[row]); }
-            else { sizeC += flopsPerRow[row]; }
+            if (!complemented) { sizeC += std::min(rowFlops, M.rowptr[row + 1] - M.rowptr[row]); }
+            else { sizeC += rowFlops; }
         }
         if (calcMaxRowSizeA) { maxRowSizeA = std::max(maxRowSizeA, A.rowptr[row + 1] - A.rowptr[row]); }
         if (calcMaxRowSizeM) { maxRowSizeM = std::max(maxRowSizeM, M.rowptr[row + 1] - M.rowptr[row]); }
-        if (calcMaxRowFlops) { maxRowFlops = std::max(maxRowFlops, flopsPerRow[row]); }
+        if (calcMaxRowFlops) { maxRowFlops = std::max(maxRowFlops, rowFlops); }
     }
 
     return {sizeC, maxRowSizeA, maxRowSizeM, maxRowFlops};
diff --git a/spgemm-blocks/inner/MaskedInnerSpGEMM.h b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
index 841ead7..9ec0d1d 100644
--- a/spgemm-blocks/inner/MaskedInnerSpGEMM.h
+++ b/spgemm-blocks/inner/MaskedInnerSpGEMM.h
@@ -18,11 +18,11 @@ void MaskedSpGEMM1pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
     verifyInputs(A, B, C, M);
 
     // Estimate work
-    IT *workPerRow = my_malloc<IT>(M.rows, false);
-    IT work = calculateWork(A, B, M, workPerRow, numThreads);
+    size_t *workPerRow = my_malloc<size_t>(M.rows, false);
+    size_t work = calculateWork(A, B, M, workPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(M.rows, false);
+    size_t *cumulativeWork = my_malloc<size_t>(M.rows, false);
     exclusiveScan(workPerRow, M.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
@@ -114,11 +114,11 @@ void MaskedSpGEMM2pInnerProduct(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<
     verifyInputs(A, B, C, M);
 
     // Estimate work
-    IT *workPerRow = my_malloc<IT>(M.rows, false);
-    IT work = calculateWork(A, B, M, workPerRow, numThreads);
+    size_t *workPerRow = my_malloc<size_t>(M.rows, false);
+    size_t work = calculateWork(A, B, M, workPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(M.rows, false);
+    size_t *cumulativeWork = my_malloc<size_t>(M.rows, false);
     exclusiveScan(workPerRow, M.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
diff --git a/spgemm-blocks/masked-spgemm-inner.h b/spgemm-blocks/masked-spgemm-inner.h
index ddac9d7..4c47c88 100644
--- a/spgemm-blocks/masked-spgemm-inner.h
+++ b/spgemm-blocks/masked-spgemm-inner.h
@@ -14,11 +14,11 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
     verifyInputs(A, B, C, M);
 
     // Estimate work
-    IT *workPerRow = my_malloc<IT>(M.rows, false);
-    IT work = calculateWork(A, B, M, workPerRow, numThreads);
+    size_t *workPerRow = my_malloc<size_t>(M.rows, false);
+    size_t work = calculateWork(A, B, M, workPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(M.rows, false);
+    size_t *cumulativeWork = my_malloc<size_t>(M.rows, false);
     exclusiveScan(workPerRow, M.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
@@ -81,11 +81,11 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSC<IT, NT> &B, CSR<IT, NT> &C,
     verifyInputs(A, B, C, M);
 
     // Estimate work
-    IT *workPerRow = my_malloc<IT>(M.rows, false);
-    IT work = calculateWork(A, B, M, workPerRow, numThreads);
+    size_t *workPerRow = my_malloc<size_t>(M.rows, false);
+    size_t work = calculateWork(A, B, M, workPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(M.rows, false);
+    size_t *cumulativeWork = my_malloc<size_t>(M.rows, false);
     exclusiveScan(workPerRow, M.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
diff --git a/spgemm-blocks/masked-spgemm-poly.h b/spgemm-blocks/masked-spgemm-poly.h
index ccb9eea..a4aada8 100644
--- a/spgemm-blocks/masked-spgemm-poly.h
+++ b/spgemm-blocks/masked-spgemm-poly.h
@@ -10,11 +10,11 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
     verifyInputs(A, B, C, M);
 
     // Estimate work
-    IT *flopsPerRow = my_malloc<IT>(A.rows, false);
-    IT flops = calculateFlops(A, B, M, flopsPerRow, numThreads);
+    size_t *flopsPerRow = my_malloc<size_t>(A.rows, false);
+    size_t flops = calculateFlops(A, B, M, flopsPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(A.rows, false);
+    size_t *cumulativeWork = my_malloc<size_t>(A.rows, false);
     exclusiveScan(flopsPerRow, A.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
@@ -62,10 +62,11 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (flopsPerRow[row] != 0) {
                 auto rowColIdBegin = currColId;
-                if ((M.rowptr[row + 1] - M.rowptr[row]) * (A.rowptr[row + 1] - A.rowptr[row]) < flopsPerRow[row]) {
-                    mca.numericRow(A, B, M, multop, addop, row, currColId, currValue, flopsPerRow[row]);
+                IT rowFlops = std::min<size_t>(flopsPerRow[row], B.cols);
+                if (size_t(M.rowptr[row + 1] - M.rowptr[row]) * (A.rowptr[row + 1] - A.rowptr[row]) < flopsPerRow[row]) {
+                    mca.numericRow(A, B, M, multop, addop, row, currColId, currValue, rowFlops);
                 } else {
-                    spa.numericRow(A, B, M, multop, addop, row, currColId, currValue, flopsPerRow[row]);
+                    spa.numericRow(A, B, M, multop, addop, row, currColId, currValue, rowFlops);
                 }
                 rowNvals[row] = currColId - rowColIdBegin;
             } else {
diff --git a/spgemm-blocks/masked-spgemm.h b/spgemm-blocks/masked-spgemm.h
index 196a92f..aefa196 100644
--- a/spgemm-blocks/masked-spgemm.h
+++ b/spgemm-blocks/masked-spgemm.h
@@ -25,12 +25,12 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
     verifyInputs(A, B, C, M);
 
     // Estimate work
-    IT *flopsPerRow = my_malloc<IT>(A.rows, false);
-    IT flops = Complemented ? calculateFlops(A, B, flopsPerRow, numThreads)
+    size_t *flopsPerRow = my_malloc<size_t>(A.rows, false);
+    size_t flops = Complemented ? calculateFlops(A, B, flopsPerRow, numThreads)
                             : calculateFlops(A, B, M, flopsPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(A.rows, false);
+    size_t *cumulativeWork = my_malloc<size_t>(A.rows, false);
     exclusiveScan(flopsPerRow, A.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
@@ -69,7 +69,8 @@ void MaskedSpGEMM1p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         for (IT row = rowBeginIdx; row < rowEndIdx; ++row) {
             if (flopsPerRow[row]) {
                 auto rowColIdBegin = currColId;
-                alg.numericRow(A, B, M, multop, addop, row, currColId, currValue, flopsPerRow[row]);
+                IT rowFlops = std::min<size_t>(flopsPerRow[row], B.cols);
+                alg.numericRow(A, B, M, multop, addop, row, currColId, currValue, rowFlops);
                 rowNvals[row] = currColId - rowColIdBegin;
             } else {
                 rowNvals[row] = 0;
@@ -107,12 +108,12 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
     verifyInputs(A, B, C, M);
 
     // Estimate work
-    IT *flopsPerRow = my_malloc<IT>(A.rows, false);
-    IT flops = Complemented ? calculateFlops(A, B, flopsPerRow, numThreads)
+    size_t *flopsPerRow = my_malloc<size_t>(A.rows, false);
+    size_t flops = Complemented ? calculateFlops(A, B, flopsPerRow, numThreads)
                             : calculateFlops(A, B, M, flopsPerRow, numThreads);
 
     // Calculate cumulative work
-    IT *cumulativeWork = my_malloc<IT>(A.rows, false);
+    size_t *cumulativeWork = my_malloc<size_t>(A.rows, false);
     exclusiveScan(flopsPerRow, A.rows, cumulativeWork, numThreads);
 
     // Allocate memory for row sizes
@@ -145,7 +146,8 @@ void MaskedSpGEMM2p(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         IT nvals = 0;
         for (IT row = rowBeginIdx; row < rowEndIdx; row++) {
             if (flopsPerRow[row]) {
-                alg.symbolicRow(A, B, M, row, rowNvals, flopsPerRow[row]);
+                IT rowFlops = std::min<size_t>(flopsPerRow[row], B.cols);
+                alg.symbolicRow(A, B, M, row, rowNvals, rowFlops);
             } else {
                 rowNvals[row] = 0;
             }
-- 
2.43.0


From ea33c129795fc57df582435abb2336a4a636f614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:42 +0000
Subject: [PATCH 55/55] fix: baseline products of more operations than the
 index type counts were split wrongly over the threads

---
 BIN.h               |  9 +++++----
 heap_mult_generic.h | 13 +++++++------
 utility.h           | 10 +++++-----
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/BIN.h b/BIN.h
index 0c3b376..9a01677 100644
--- a/BIN.h
+++ b/BIN.h
@@ -90,7 +90,7 @@ inline void BIN<IT, NT>::set_intprod_num(const IT *arpt, const IT *acol, const I
 #pragma omp parallel num_threads(thread_num)
     {
         int i;
-        IT each_int_prod = 0;
+        long long int each_int_prod = 0;
 #pragma omp for
         for (i = 0; i < rows; ++i) {
             int j;
@@ -109,12 +109,13 @@ inline void BIN<IT, NT>::set_intprod_num(const IT *arpt, const IT *acol, const I
 template <class IT, class NT>
 inline void BIN<IT, NT>::set_rows_offset(const IT rows)
 {
-    IT *ps_row_nz = my_malloc<IT>(rows + 1);
+    // The number of products may not fit the index type
+    long long int *ps_row_nz = my_malloc<long long int>(rows + 1);
 
     /* Prefix sum of #intermediate products */
     scan(row_nz, ps_row_nz, rows + 1);
 
-    IT average_intprod = (total_intprod + thread_num - 1) / thread_num;
+    long long int average_intprod = (total_intprod + thread_num - 1) / thread_num;
     // long long int average_intprod = total_intprod / thread_num;
 
     /* Search end point of each range */
@@ -127,7 +128,7 @@ inline void BIN<IT, NT>::set_rows_offset(const IT rows)
         // if (tid == thread_num - 1) rows_offset[tid + 1] = rows;
     }
     rows_offset[thread_num] = rows;
-    my_free<IT>(ps_row_nz);
+    my_free<long long int>(ps_row_nz);
 }
 
 template <class IT, class NT>
diff --git a/heap_mult_generic.h b/heap_mult_generic.h
index 5067135..5a51942 100644
--- a/heap_mult_generic.h
+++ b/heap_mult_generic.h
@@ -62,10 +62,10 @@ struct HeapBase {
     const static bool masked = false;
 
     template<class IT, class NT>
-    static IT
+    static size_t
     estimateResultSize(IT rowBeginIdx, IT rowEndIdx, IT *maxnnzc,
                        const CSR<IT, NT> &A, const CSR<IT, NT> &B, const CSR<IT, NT> &M) {
-        return std::accumulate(maxnnzc + rowBeginIdx, maxnnzc + rowEndIdx, 0);
+        return std::accumulate(maxnnzc + rowBeginIdx, maxnnzc + rowEndIdx, size_t(0));
     }
 
     template<class IT, class NT>
@@ -734,9 +734,10 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
     IT *maxnnzc = my_malloc<IT>(A.rows);
     long long int flops = tmp::getFlop(A, B, maxnnzc) / 2;
 
-    IT flopsPerThread = flops / numThreads; // amount of work that will be assigned to each thread
+    long long int flopsPerThread = flops / numThreads; // amount of work that will be assigned to each thread
 
-    IT *rowStart = my_malloc<IT>(A.rows); //start index in the global array for storing ith column of C
+    // The number of products may not fit the index type
+    long long int *rowStart = my_malloc<long long int>(A.rows); //start index in the global array for storing ith column of C
     IT *rowNvals = my_malloc<IT>(A.rows); // number of nonzeros in each each column in C
 
     rowStart[0] = 0;
@@ -757,7 +758,7 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
         IT rowEnd = thisThread != numThreads - 1 ? (lower_bound(rowStart, rowStart + A.rows, flopsPerThread * (thisThread + 1))) - rowStart : A.rows;
         // @formatter:on
 
-        IT localsum = RowAlgorithm::estimateResultSize(rowBegin, rowEnd, maxnnzc, A, B, M);
+        size_t localsum = RowAlgorithm::estimateResultSize(rowBegin, rowEnd, maxnnzc, A, B, M);
 
         // We need +1 even though the first element of the array is never accessed.
         // However, the first element may be prefetched so we have to allocate it together with the rest of the array.
@@ -809,7 +810,7 @@ void HeapSpGEMMImpl(const CSR<IT, NT> &A, const CSR<IT, NT> &B, CSR<IT, NT> &C,
     }
 
     my_free<IT>(maxnnzc);
-    my_free<IT>(rowStart);
+    my_free<long long int>(rowStart);
     my_free<IT>(rowNvals);
 }
 
diff --git a/utility.h b/utility.h
index f17243c..9ca76f3 100644
--- a/utility.h
+++ b/utility.h
@@ -168,7 +168,7 @@ inline void my_free(T *a, Ts *...as) {
 }
 
 // Prefix sum (Sequential)
-template <typename T> void seq_scan(T *in, T *out, T N) {
+template <typename T, typename U> void seq_scan(T *in, U *out, T N) {
   out[0] = 0;
   for (T i = 0; i < N - 1; ++i) {
     out[i + 1] = out[i] + in[i];
@@ -176,7 +176,7 @@ template <typename T> void seq_scan(T *in, T *out, T N) {
 }
 
 // Prefix sum (Thread parallel)
-template <typename T> void scan(T *in, T *out, T N) {
+template <typename T, typename U> void scan(T *in, U *out, T N) {
   // if the array is comparatively small, use sequential scan instead
   if (N < (1 << 17)) {
     seq_scan(in, out, N);
@@ -186,7 +186,7 @@ template <typename T> void scan(T *in, T *out, T N) {
 #pragma omp single
     { tnum = omp_get_num_threads(); }
     T each_n = N / tnum;
-    T *partial_sum = my_malloc<T>(tnum);
+    U *partial_sum = my_malloc<U>(tnum);
 #pragma omp parallel
     {
       // thead level prefix summing
@@ -202,7 +202,7 @@ template <typename T> void scan(T *in, T *out, T N) {
       partial_sum[tid] = out[end - 1] + (end < N ? in[end - 1] : 0);
 #pragma omp barrier
 
-      T offset = 0;
+      U offset = 0;
       for (int i = 0; i < tid; ++i) {
         offset += partial_sum[i];
       }
@@ -210,7 +210,7 @@ template <typename T> void scan(T *in, T *out, T N) {
         out[i] += offset;
       }
     }
-    my_free<T>(partial_sum);
+    my_free<U>(partial_sum);
   }
 }
 
-- 
2.43.0

