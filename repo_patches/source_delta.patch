From 6554fb788c1974f74fb537fe4e4a7c3b5be4d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:02 +0000
Subject: [PATCH 01/61] fix: isPerm accepted arrays of distinct out-of-range
 numbers

---
 Utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Utils.cpp b/Utils.cpp
index d08cccf..c2f6fb5 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -106,6 +106,11 @@ bool isPerm(const int *perm, int n)
   memcpy(temp, perm, sizeof(int)*n);
   sort(temp, temp + n);
   int *last = unique(temp, temp + n);
+  if (last == temp + n && n > 0 && (temp[0] != 0 || temp[n - 1] != n - 1)) {
+    // distinct numbers that are not 0, ..., n - 1
+    delete[] temp;
+    return false;
+  }
   if (last != temp + n) {
     memcpy(temp, perm, sizeof(int)*n);
     sort(temp, temp + n);
-- 
2.43.0


From d9ddc6f7f9e3cb4557c7dee1f8f4153f44988a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:02 +0000
Subject: [PATCH 02/61] fix: isInversePerm read out of bounds when perm is not
 a permutation

---
 Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.cpp b/Utils.cpp
index c2f6fb5..2ae8402 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -135,7 +135,7 @@ bool isPerm(const int *perm, int n)
 bool isInversePerm(const int *perm, const int *inversePerm, int len)
 {
   for (int i = 0; i < len; ++i) {
-    if (inversePerm[perm[i]] != i) return false;
+    if (perm[i] < 0 || perm[i] >= len || inversePerm[perm[i]] != i) return false;
   }
   return true;
 }
-- 
2.43.0


From 288f3fdcc4ff6b4f7729d97a56d2ef1bb98a35fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:02 +0000
Subject: [PATCH 03/61] fix: transpose of a matrix without columns left rowptr
 NULL

---
 CSR.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 96bae24..30918c9 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -493,6 +493,8 @@ CSR *CSR::transpose() const
   }
 
   if (0 == n) {
+    AT->rowptr = MALLOC(int, 1);
+    AT->rowptr[0] = base;
     return AT;
   }
 
-- 
2.43.0


From b333c9a6b5c69c3a6e01fc0ac401e79fa137bd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 04/61] fix: parMemset and parMemcpy overflowed int for 2 GB
 and more

---
 Utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 2ae8402..27d7010 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -70,8 +70,8 @@ void parMemset(void *ptr, int c, size_t n)
     int nCacheLineBegin, nCacheLineEnd;
     getSimpleThreadPartition(&nCacheLineBegin, &nCacheLineEnd, nCacheLines);
 
-    int nBegin = nCacheLineBegin*64;
-    int nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : nCacheLineEnd*64;
+    size_t nBegin = (size_t)nCacheLineBegin*64;
+    size_t nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : (size_t)nCacheLineEnd*64;
 
     memset((char *)ptr + nBegin, c, nEnd - nBegin);
   }
@@ -85,8 +85,8 @@ void parMemcpy(void *dst, const void *src, size_t n)
     int nCacheLineBegin, nCacheLineEnd;
     getSimpleThreadPartition(&nCacheLineBegin, &nCacheLineEnd, nCacheLines);
 
-    int nBegin = nCacheLineBegin*64;
-    int nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : nCacheLineEnd*64;
+    size_t nBegin = (size_t)nCacheLineBegin*64;
+    size_t nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : (size_t)nCacheLineEnd*64;
 
     memcpy((char *)dst + nBegin, (char *)src + nBegin, nEnd - nBegin);
   }
-- 
2.43.0


From e1e34e622640a41ef8943fcd3524e027c2fa7bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 05/61] fix: loadMatrixMarket overran its arrays on malformed,
 re-used or zero-based input

---
 COO.cpp | 60 ++++++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index 70e3532..1776051 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -22,6 +22,7 @@ ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
 SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 
+#include <climits>
 #include <cstring>
 #include <algorithm>
 
@@ -218,14 +219,25 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     assert(!force_symmetric);
     swap(m, n);
   }
+  if (m < 0 || n < 0 || nnz < 0 || m > INT_MAX - pad || n > INT_MAX - pad) {
+    fprintf(stderr, "Error: invalid matrix size (%d %d %d).\n", m, n, nnz);
+    fclose(fp);
+    return false;
+  }
+
+  bool isSymmetric = force_symmetric || mm_is_symmetric (matcode) == 1;
+  if (isSymmetric && m != n) {
+    fprintf(stderr, "Error: symmetric matrix is not square (%d %d).\n", m, n);
+    fclose(fp);
+    return false;
+  }
 
   int origM = m, origN = n;
   m = (m + pad - 1)/pad*pad;
   n = (n + pad - 1)/pad*pad;
 
   size_t count;
-  if (force_symmetric || mm_is_symmetric (matcode) == 1) {
-    coo.isSymmetric = true;
+  if (isSymmetric) {
     count = 2L*nnz;
   }
   else {
@@ -244,8 +256,8 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   }
 
   int *colidx_temp, *rowcnt = NULL;
-  if (coo.isSymmetric) {
-    colidx_temp = MALLOC(int, count);
+  if (isSymmetric) {
+    colidx_temp = MALLOC(int, count + extraCount);
     rowcnt = MALLOC(int, m + 1);
     if (!colidx_temp || !rowcnt) {
       fprintf(stderr, "Failed to allocate memory\n");
@@ -264,7 +276,12 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   while (mm_read_mtx_crd_entry (fp, &x, &y, &real, &imag, matcode) == 0) {
     if (transpose) swap(x, y);
 
-    if (x > origM || y > origN) {
+    if (lines >= nnz) { // more entries than specified in the header
+      ++lines;
+      break;
+    }
+
+    if (x < 0 || y < 0 || x > origM || y > origN) {
       fprintf(stderr, "Error: (%d %d) coordinate is out of range.\n", x, y);
       fclose(fp);
       return false;
@@ -277,15 +294,6 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
 
     ++count;
     ++lines;
-    if (coo.isSymmetric) rowcnt[x]++;
-      // this is not a bug. we're intentionally indexing rowcnt[x] instead of rowcnt[x-1]
-  }
-  // padding for vectorization
-  for (int i = min(origM, origN); i < min(m, n); ++i) {
-    rowidx[count] = i + 1;
-    colidx[count] = i + 1;
-    values[count] = 1;
-    ++count;
   }
   fclose(fp);
 
@@ -293,12 +301,19 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     for (size_t i = 0; i < count; ++i) {
       rowidx[i]++;
       colidx[i]++;
-    }
-    if (coo.isSymmetric) {
-      for (int i = m; i > 0; --i) {
-        rowcnt[i] = rowcnt[i - 1];
+      if (rowidx[i] > origM || colidx[i] > origN) {
+        fprintf(stderr, "Error: (%d %d) coordinate is out of range.\n", rowidx[i] - 1, colidx[i] - 1);
+        return false;
       }
-    } 
+    }
+  }
+
+  // padding for vectorization
+  for (int i = min(origM, origN); i < min(m, n); ++i) {
+    rowidx[count] = i + 1;
+    colidx[count] = i + 1;
+    values[count] = 1;
+    ++count;
   }
 
   if (lines != nnz) {
@@ -307,9 +322,13 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     return false;
   }
     
-  if (coo.isSymmetric) {
+  if (isSymmetric) {
     // add transposed elements only if it doesn't exist
     size_t real_count = count;
+    for (size_t i = 0; i < count; ++i) {
+      rowcnt[rowidx[i]]++;
+        // this is not a bug. we're intentionally indexing rowcnt[x] instead of rowcnt[x-1]
+    }
     // preix-sum
     for (int i = 0; i < m; ++i) {
       rowcnt[i + 1] += rowcnt[i];
@@ -350,6 +369,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   coo.m = m;
   coo.n = n;
   coo.nnz = count;
+  coo.isSymmetric = isSymmetric;
   coo.dealloc();
   coo.values = values;
   coo.colidx = colidx;
-- 
2.43.0


From 302ca547b9fd7ba54a1a585b4a58b09bbfbf3bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 06/61] fix: Matrix Market header parsing overran its token
 buffers and looped forever on text

---
 mm_io.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 7aac638..29c33da 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -83,7 +83,7 @@ int mm_read_banner ( FILE *f, MM_typecode *matcode )
     if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL) 
         return MM_PREMATURE_EOF;
 
-    if (sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type, 
+    if (sscanf(line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type, 
         storage_scheme) != 5)
         return MM_PREMATURE_EOF;
 
@@ -211,7 +211,7 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
     do
     { 
       num_items_read = fscanf ( f, "%d %d", M, N ); 
-      if ( num_items_read == EOF ) 
+      if ( num_items_read <= 0 ) 
       {
         return MM_PREMATURE_EOF;
       }
@@ -458,7 +458,7 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
     do
     { 
       num_items_read = fscanf(f, "%d %d %d", M, N, nz); 
-      if (num_items_read == EOF) 
+      if (num_items_read <= 0) 
       {
         return MM_PREMATURE_EOF;
       }
-- 
2.43.0


From 82ab1bb7e556aef69155f00fd94ba94feb63b84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:42 +0000
Subject: [PATCH 07/61] fix: Matrix Market output printed too few digits to
 read the same double back

---
 CSR.cpp   | 2 +-
 mm_io.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 30918c9..6702973 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -296,7 +296,7 @@ void CSR::storeMatrixMarket(const char *fileName) const
   // print values
   for (int i = 0; i < m; ++i) {
     for (int j = rowptr[i] - base; j < rowptr[i + 1] - base; ++j) {
-      fprintf(fp, "%d %d %20.16g\n", i + 1, colidx[j] - base + 1, values[j]);
+      fprintf(fp, "%d %d %24.17g\n", i + 1, colidx[j] - base + 1, values[j]);
     }
   }
 
diff --git a/mm_io.cpp b/mm_io.cpp
index 29c33da..e4bf68a 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -742,11 +742,11 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
     else
     if (mm_is_real(matcode))
         for (i=0; i<nz; i++)
-            fprintf(f, "%d %d %20.16g\n", I[i], J[i], val[i]);
+            fprintf(f, "%d %d %24.17g\n", I[i], J[i], val[i]);
     else
     if (mm_is_complex(matcode))
         for (i=0; i<nz; i++)
-            fprintf(f, "%d %d %20.16g %20.16g\n", I[i], J[i], val[2*i], 
+            fprintf(f, "%d %d %24.17g %24.17g\n", I[i], J[i], val[2*i], 
                         val[2*i+1]);
     else
     {
-- 
2.43.0


From b0094ec4e310490630dffed1c46db3d1e74b860f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 08/61] fix: CSR file constructor used an unset matrix when
 loading failed

---
 CSR.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index 6702973..ad3d802 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -116,7 +116,10 @@ CSR::CSR(const char *fileName, int base /*=0*/, bool forceSymmetric /*=false*/,
   }
   else {
     COO Acoo;
-    loadMatrixMarket((char *)fileName, Acoo, forceSymmetric, pad);
+    if (!loadMatrixMarket((char *)fileName, Acoo, forceSymmetric, pad)) {
+      fprintf(stderr, "Failed to load %s\n", fileName);
+      exit(-1);
+    }
 
     alloc(Acoo.m, Acoo.nnz);
 
-- 
2.43.0


From caf7ac6aec3b6aafa2c50b804d3153abf99393a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 09/61] fix: loadVectorMatrixMarket wrote before the array for
 zero columns and accepted negative or overflowing sizes

---
 Vector.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/Vector.cpp b/Vector.cpp
index ceefd7f..675f608 100644
--- a/Vector.cpp
+++ b/Vector.cpp
@@ -1,3 +1,4 @@
+#include <climits>
 #include <cstdio>
 
 #include "Utils.hpp"
@@ -40,10 +41,16 @@ bool loadVectorMatrixMarket(const char *fileName, double **v, int *m, int *n)
     return false;
   }
 
+  if (*m < 0 || *n < 0 || (*n > 0 && *m > INT_MAX/(*n))) {
+    fprintf(stderr, "Error: invalid array size (%d %d).\n", *m, *n);
+    fclose(fp);
+    return false;
+  }
+
   *v = MALLOC(double, (*m)*(*n));
 
   for (int i = 0; i < *m; i++) {
-    for (int j = 0; j < *n - 1; j++) {
+    for (int j = 0; j < *n; j++) {
       if (fscanf(fp, "%lg", *v + i*(*n) + j) != 1) {
         fprintf(stderr, "Error: premature EOF.\n");
         FREE(*v);
@@ -51,12 +58,6 @@ bool loadVectorMatrixMarket(const char *fileName, double **v, int *m, int *n)
         return false;
       }
     }
-    if (fscanf(fp, "%lg\n", *v + i*(*n) + (*n) - 1) != 1) {
-      fprintf(stderr, "Error: premature EOF.\n");
-      FREE(*v);
-      fclose(fp);
-      return false;
-    }
   }
 
   fclose(fp);
-- 
2.43.0


From ba4369a5e63fcacb1538e8e14b54d294e934dfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:28 +0000
Subject: [PATCH 10/61] fix: isSymmetric ignored the last column of one-based
 matrices and read NULL values

---
 CSR.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index ad3d802..afd3de0 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -194,12 +194,12 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
       for (int i = begin; i < end; ++i) {
         for (int j = rowptr[i]; j < extptr[i]; ++j) {
           int c = colidx[j];
-          if (c != i && c >= 0 && c < m) {
+          if (c != i && c >= base && c < m + base) {
             bool hasPair = false;
             for (int k = rowptr[c]; k < extptr[c]; ++k) {
               if (colidx[k] == i) {
                 hasPair = true;
-                if (checkValues && values[j] != values[k]) {
+                if (checkValues && values && values[j] != values[k]) {
                   isSymmetric = false;
                 }
                 break;
@@ -220,12 +220,12 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
     for (int i = base; i < m + base; ++i) {
       for (int j = rowptr[i]; j < extptr[i]; ++j) {
         int c = colidx[j];
-        if (c != i && c >= 0 && c < m) {
+        if (c != i && c >= base && c < m + base) {
           bool hasPair = false;
           for (int k = rowptr[c]; k < extptr[c]; ++k) {
             if (colidx[k] == i) {
               hasPair = true;
-              if (checkValues && values[j] != values[k]) {
+              if (checkValues && values && values[j] != values[k]) {
                 printf(
                   "assymmetric (%d, %d) = %g, (%d, %d) = %g\n",
                   i + 1, c + 1, values[j], c + 1, i + 1, values[k]);
-- 
2.43.0


From ab76f19760bced000e97090314e22a216aac8030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:28 +0000
Subject: [PATCH 11/61] fix: hasZeroDiag indexed one-based matrices wrongly and
 read NULL values

---
 CSR.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index afd3de0..1c967b0 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -251,6 +251,9 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
 bool CSR::hasZeroDiag() const
 {
   int base = getBase();
+  const int *rowptr = this->rowptr - base;
+  const int *colidx = this->colidx - base;
+  const double *values = this->values ? this->values - base : NULL;
   volatile bool hasZeroDiag = false;
 
 #pragma omp parallel
@@ -263,7 +266,7 @@ bool CSR::hasZeroDiag() const
     for (int i = iBegin; i < iEnd; ++i) {
       bool hasDiag = false;
       for (int j = rowptr[i]; j < rowptr[i + 1]; ++j) {
-        if (colidx[j] == i && values[j] != 0) {
+        if (colidx[j] == i && (!values || values[j] != 0)) {
           hasDiag = true;
           break;
         }
-- 
2.43.0


From ce927ef15ac61f4b27d7f5e2d3c2cc45000970cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:28 +0000
Subject: [PATCH 12/61] fix: equals read NULL values of pattern-only matrices

---
 CSR.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index 1c967b0..d1e8308 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -733,6 +733,10 @@ bool CSR::equals(const CSR& A, bool print /*=false*/) const
     if (print) printf("number of non-zeros differs %d vs. %d\n", rowptr[m], A.rowptr[A.m]);
     return false;
   }
+  if (!values != !A.values) {
+    if (print) printf("only one of the matrices has values\n");
+    return false;
+  }
   for (int i = 0; i < m; ++i) {
     if (rowptr[i] != A.rowptr[i]) {
       if (print) printf("rowptr[%d] differs %d vs. %d\n", i, rowptr[i], A.rowptr[i]);
@@ -743,7 +747,7 @@ bool CSR::equals(const CSR& A, bool print /*=false*/) const
         if (print) printf("colidx[%d:%d] differs %d vs. %d\n", i, j, colidx[j], A.colidx[j]);
         return false;
       }
-      if (values[j] != A.values[j]) {
+      if (values && A.values && values[j] != A.values[j]) {
         if (print) printf("values[%d:%d] differs %g vs. %g\n", i, j, values[j], A.values[j]);
         return false;
       }
-- 
2.43.0


From b107280dad3b614f3a563da6d2fa8fb340b23f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:28 +0000
Subject: [PATCH 13/61] fix: the CSR copy constructor dropped extptr

---
 CSR.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index d1e8308..acae7ba 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -89,6 +89,7 @@ CSR::CSR(const CSR& A) : m(A.m), n(A.n), values(NULL), idiag(NULL), diag(NULL),
   if (A.diagptr) diagptr = MALLOC(int, m);
   if (A.idiag) idiag = MALLOC(double, m);
   if (A.diag) diag = MALLOC(double, m);
+  if (A.extptr) extptr = MALLOC(int, m);
 
   copyVector(rowptr, A.rowptr, A.m + 1);
   copyVector(colidx, A.colidx, nnz);
@@ -96,6 +97,7 @@ CSR::CSR(const CSR& A) : m(A.m), n(A.n), values(NULL), idiag(NULL), diag(NULL),
   if (diagptr) copyVector(diagptr, A.diagptr, m);
   if (idiag) copyVector(idiag, A.idiag, m);
   if (diag) copyVector(diag, A.diag, m);
+  if (extptr) copyVector(extptr, A.extptr, m);
 }
 
 CSR::CSR(const char *fileName, int base /*=0*/, bool forceSymmetric /*=false*/, int pad /*=1*/)
-- 
2.43.0


From 7ffd5131424d27098c11134063b13a5d586e53ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:28 +0000
Subject: [PATCH 14/61] fix: switching the index base left extptr in the old
 base

---
 CSR.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index acae7ba..da4b49e 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -423,6 +423,12 @@ void CSR::make0BasedIndexing()
     for (int i = 0; i < m; i++)
       diagptr[i]--;
   }
+
+  if (extptr) {
+#pragma omp parallel for
+    for (int i = 0; i < m; i++)
+      extptr[i]--;
+  }
 }
 
 void CSR::make1BasedIndexing()
@@ -444,6 +450,12 @@ void CSR::make1BasedIndexing()
     for (int i = 0; i < m; i++)
       diagptr[i]++;
   }
+
+  if (extptr) {
+#pragma omp parallel for
+    for (int i = 0; i < m; i++)
+      extptr[i]++;
+  }
 }
 
 void CSR::computeInverseDiag()
-- 
2.43.0


From 298f5a2a47e59ccb4bfeb3dfeb5e8b2574d00d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:28 +0000
Subject: [PATCH 15/61] fix: storeBin left a one-based matrix zero-based when
 the file cannot be opened

---
 CSR.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index da4b49e..4d67f40 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -376,6 +376,9 @@ void CSR::storeBin(const char *fileName)
   FILE *fp = fopen(fileName, "w");
   if (!fp) {
     fprintf(stderr, "Failed to open %s\n", fileName);
+    if (was1Based) {
+      make1BasedIndexing();
+    }
     return;
   }
 
-- 
2.43.0


From 1ebf0096cadf6c31523fcbcde758641ddd58e995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 16/61] fix: permuteRows of a one-based matrix was off by one
 row

---
 Permute.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index 7ed76ff..0fa0799 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -385,23 +385,23 @@ static void permuteRowsMain_(
 #pragma omp parallel
   {
     int iBegin, iEnd;
-    getLoadBalancedPartition(&iBegin, &iEnd, out->rowptr + BASE, m);
+    getLoadBalancedPartition(&iBegin, &iEnd, out->rowptr, m);
     iBegin += BASE;
     iEnd += BASE;
 
     for (int i = iBegin; i < iEnd; ++i) {
       int row = rowInversePerm ? rowInversePerm[i - BASE] + BASE : i;
       int begin = rowptr[row], end = rowptr[row + 1];
-      int newBegin = out->rowptr[i] - BASE;
+      int newBegin = out->rowptr[i - BASE] - BASE;
 
       if (values)
         memcpy(out->values + newBegin, values + begin, (end - begin)*sizeof(double));
       memcpy(out->colidx + newBegin, colidx + begin, (end - begin)*sizeof(int));
 
       if (diagptr)
-        out->diagptr[i] =
-          out->rowptr[i] + (diagptr[row] - rowptr[row]);
-      if (idiag) out->idiag[i] = idiag[row];
+        out->diagptr[i - BASE] =
+          out->rowptr[i - BASE] + (diagptr[row] - rowptr[row]);
+      if (idiag) out->idiag[i - BASE] = idiag[row];
     }
   }
 }
-- 
2.43.0


From 559beb267c607a4f2d399a1384ffcb742c98a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 17/61] fix: multiplyWithVector in place copied only m of the n
 elements of x

---
 SpMV.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index 7017d85..d159c3b 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -161,10 +161,10 @@ void CSR::multiplyWithVector(
   // if x and w point to the same array, copy x to a temporary buffer
   // in order to avoid possible race condition in SpMV_
   if (w == x) {
-    tmp_x = MALLOC(double, m);
+    tmp_x = MALLOC(double, n);
  
     #pragma omp parallel for
-    for (int i=0; i<m; i++) {
+    for (int i=0; i<n; i++) {
       tmp_x[i] = x[i];
     }
   }
-- 
2.43.0


From d4ba0e8050136e90dc9f81b4497ea4f12e329152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 18/61] fix: products read y, possibly NULL or uninitialized,
 when beta is 0

---
 SpMV.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index d159c3b..cc48ead 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -115,7 +115,7 @@ static void SpMV_(
           for (int j = rowptr[i]; j < rowptr[i + 1]; ++j) {
             sum += values[j]*x[colidx[j]];
           }
-          w[i] = alpha*sum + beta*y[i] + gamma;
+          w[i] = alpha*sum + (0 == beta ? 0 : beta*y[i]) + gamma;
         }
       }
       else {
@@ -125,7 +125,7 @@ static void SpMV_(
           for (int j = rowptr[i]; j < rowptr[i + 1]; ++j) {
             sum += x[colidx[j]];
           }
-          w[i] = alpha*sum + beta*y[i] + gamma;
+          w[i] = alpha*sum + (0 == beta ? 0 : beta*y[i]) + gamma;
         }
       }
     }
@@ -244,7 +244,8 @@ static void SpMDM_(
         }
         for (int i3 = 0; i3 < k; ++i3) {
           W[i1*wRowStride + i3*wColumnStride] =
-            alpha*sum[i3] + beta*Y[i1*yRowStride + i3*yColumnStride] + gamma;
+            alpha*sum[i3] +
+            (0 == beta ? 0 : beta*Y[i1*yRowStride + i3*yColumnStride]) + gamma;
         }
       }
     }
-- 
2.43.0


From 62d1339146a04b700da09b30c5fbf6fa7294d4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 19/61] fix: dense-matrix product of a one-based matrix assumed
 unit row strides

---
 SpMV.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index cc48ead..2672d0a 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -199,9 +199,9 @@ static void SpMDM_(
   colidx -= base;
   values -= base;
 
-  W -= base;
-  X -= base;
-  Y -= base;
+  W -= base*wRowStride;
+  X -= base*xRowStride;
+  Y -= base*yRowStride;
 
 //#define MEASURE_LOAD_BALANCE
 #ifdef MEASURE_LOAD_BALANCE
-- 
2.43.0


From 0ad1c067af752e1c165814d9550ede119e7171a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 20/61] fix: dense-matrix product read NULL values of
 pattern-only matrices

---
 SpMV.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index 2672d0a..89e2e09 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -197,7 +197,7 @@ static void SpMDM_(
 
   rowptr -= base;
   colidx -= base;
-  values -= base;
+  if (values) values -= base;
 
   W -= base*wRowStride;
   X -= base*xRowStride;
@@ -223,8 +223,10 @@ static void SpMDM_(
           sum[i3] = 0;
         }
         for (int i2 = rowptr[i1]; i2 < rowptr[i1 + 1]; ++i2) {
+          // pattern-only matrix: assume all non-zero values are 1
+          T v = values ? values[i2] : 1;
           for (int i3 = 0; i3 < k; ++i3) {
-            sum[i3] += values[i2]*X[colidx[i2] + i3*xColumnStride];
+            sum[i3] += v*X[colidx[i2] + i3*xColumnStride];
           }
         }
         for (int i3 = 0; i3 < k; ++i3) {
@@ -238,8 +240,10 @@ static void SpMDM_(
           sum[i3] = 0;
         }
         for (int i2 = rowptr[i1]; i2 < rowptr[i1 + 1]; ++i2) {
+          // pattern-only matrix: assume all non-zero values are 1
+          T v = values ? values[i2] : 1;
           for (int i3 = 0; i3 < k; ++i3) {
-            sum[i3] += values[i2]*X[colidx[i2]*xRowStride + i3*xColumnStride];
+            sum[i3] += v*X[colidx[i2]*xRowStride + i3*xColumnStride];
           }
         }
         for (int i3 = 0; i3 < k; ++i3) {
-- 
2.43.0


From 5a2a634cbae1c5af7155d16e5e4eba1f0b96f4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 21/61] fix: Laplacian row lengths were wrong for grids with
 one dimension of 1

---
 Laplacian.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Laplacian.cpp b/Laplacian.cpp
index feec43b..25eca61 100644
--- a/Laplacian.cpp
+++ b/Laplacian.cpp
@@ -66,11 +66,11 @@ void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base /*=0*/) {
   for (int iz = 0; iz < nz; ++iz) {
     int dz = (iz >= 1 && iz < nz - 1) ? 3 : (nz == 1 ? 1 : 2);
     for (int iy = 0; iy < ny; ++iy) {
-      int dy = ((iy >= 1 && iy < ny - 1) ? 3 : (nz == 1 ? 1 : 2))*dz;
+      int dy = ((iy >= 1 && iy < ny - 1) ? 3 : (ny == 1 ? 1 : 2))*dz;
       for (int ix = 0; ix < nx; ++ix) {
         int row = (iz*ny + iy)*nx + ix;
 
-        int dx = (ix >= 1 && ix < nx - 1) ? 3 : (nz == 1 ? 1 : 2);
+        int dx = (ix >= 1 && ix < nx - 1) ? 3 : (nx == 1 ? 1 : 2);
         idx += dx*dy;
         A->rowptr[row + 1] = idx;
       } // ix
-- 
2.43.0


From a6e83714357fd8aaa9b7e43f4fe919d89d0b66d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 22/61] fix: permutations read NULL values of pattern-only
 matrices

---
 Permute.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index 0fa0799..ae17324 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -121,7 +121,7 @@ void permuteColsInPlace_(CSR *A, const int *perm)
   int *diagptr = A->diagptr ? A->diagptr - BASE : NULL;
 
   int *colidx = A->colidx - BASE;
-  T *values = A->values - BASE;
+  T *values = A->values ? A->values - BASE : NULL;
 
   int m = A->m;
 
@@ -205,17 +205,17 @@ void permuteColsInPlace_(CSR *A, const int *perm)
     else {
       for (int j = rowptr[i] + 1; j < extptr[i]; ++j) {
         int c = colidx[j];
-        double v = values[j];
+        double v = values ? values[j] : 0;
 
         int k = j - 1;
         while (k >= rowptr[i] && colidx[k] > c) {
           colidx[k + 1] = colidx[k];
-          values[k + 1] = values[k];
+          if (values) values[k + 1] = values[k];
           --k;
         }
 
         colidx[k + 1] = c;
-        values[k + 1] = v;
+        if (values) values[k + 1] = v;
       }
     }
   } // for each row
@@ -308,7 +308,7 @@ static void permuteMain_(
         if (in->extptr) {
           for (int j = end; j < rowptr[row + 1]; ++j, ++k) {
             newColidx[k] = colidx[j];
-            newValues[k] = values[j];
+            if (values) newValues[k] = values[j];
           }
         }
 
@@ -318,17 +318,17 @@ static void permuteMain_(
           // insertion sort
           for (int j = newBegin + 1; j < newExtptr[i]; ++j) {
             int c = newColidx[j];
-            double v = newValues[j];
+            double v = newValues ? newValues[j] : 0;
 
             int k = j - 1;
             while (k >= newBegin && newColidx[k] > c) {
               newColidx[k + 1] = newColidx[k];
-              newValues[k + 1] = newValues[k];
+              if (newValues) newValues[k + 1] = newValues[k];
               --k;
             }
 
             newColidx[k + 1] = c;
-            newValues[k + 1] = v;
+            if (newValues) newValues[k + 1] = v;
           }
         }
 
-- 
2.43.0


From b6e5f7d0475e9714381b508b8f4323ee25671cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 23/61] fix: getSymmetricNnzPattern overran its arrays and
 returned shifted pointers for one-based matrices

---
 SymGS.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/SymGS.cpp b/SymGS.cpp
index 956abaa..2478317 100644
--- a/SymGS.cpp
+++ b/SymGS.cpp
@@ -194,7 +194,7 @@ bool getSymmetricNnzPattern(
         for (int i = base; i < m + base; ++i) {
           (*symRowPtr)[i + 1] += (*symRowPtr)[i];
         }
-        *symColIdx = MALLOC(int, (*symRowPtr)[m]);
+        *symColIdx = MALLOC(int, (*symRowPtr)[m + base] - base);
         *symColIdx -= base;
 
         *symDiagPtr = MALLOC(int, m + 1);
@@ -203,7 +203,7 @@ bool getSymmetricNnzPattern(
           *symExtPtr = MALLOC(int, m + 1);
           *symExtPtr -= base;
         }
-        cnts = MALLOC(int, m);
+        cnts = MALLOC(int, m + base);
       }
 
 #ifdef PRINT_TIME_BREAKDOWN
@@ -269,12 +269,15 @@ bool getSymmetricNnzPattern(
 #undef PRINT_TIME_BREAKDOWN
 #endif
 
-      *symColIdx += base;
-      if (*symExtPtr) *symExtPtr += base;
     } // !isSymmetric
   } // omp parallel
 
   *symRowPtr += base;
+  if (!isSymmetric) {
+    *symColIdx += base;
+    *symDiagPtr += base;
+    if (A->extptr) *symExtPtr += base;
+  }
 
   if (isSymmetric) {
     if (!A->useMemoryPool_()) {
-- 
2.43.0


From b3c380574fb2924fb7e5fa5342ac729b639f2d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 24/61] fix: getSymmetricNnzPattern left symExtPtr unset
 without extptr

---
 SymGS.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SymGS.cpp b/SymGS.cpp
index 2478317..aa94c6d 100644
--- a/SymGS.cpp
+++ b/SymGS.cpp
@@ -203,6 +203,9 @@ bool getSymmetricNnzPattern(
           *symExtPtr = MALLOC(int, m + 1);
           *symExtPtr -= base;
         }
+        else {
+          *symExtPtr = NULL;
+        }
         cnts = MALLOC(int, m + base);
       }
 
-- 
2.43.0


From ac1be39c17ba479b7fe7f3c7954ae52dd104d679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 25/61] fix: splitLU read NULL values and idiag of matrices
 without them

---
 SymGS.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/SymGS.cpp b/SymGS.cpp
index aa94c6d..97142de 100644
--- a/SymGS.cpp
+++ b/SymGS.cpp
@@ -27,8 +27,10 @@ void splitLU(CSR& A, CSR *L, CSR *U)
 
   L->rowptr = MALLOC(int, L->m + 1);
   U->rowptr = MALLOC(int, U->m + 1);
-  L->idiag = MALLOC(double, L->m);
-  U->idiag = MALLOC(double, U->m);
+  if (A.idiag) {
+    L->idiag = MALLOC(double, L->m);
+    U->idiag = MALLOC(double, U->m);
+  }
 
   // Count # of nnz per row
   int rowPtrPartialSum[2][omp_get_max_threads() + 1];
@@ -72,10 +74,10 @@ void splitLU(CSR& A, CSR *L, CSR *U)
       int nnzU = U->rowptr[U->m];
 
       L->colidx = MALLOC(int, nnzL);
-      L->values = MALLOC(double, nnzL);
+      if (A.values) L->values = MALLOC(double, nnzL);
 
       U->colidx = MALLOC(int, nnzU);
-      U->values = MALLOC(double, nnzU);
+      if (A.values) U->values = MALLOC(double, nnzU);
     }
 
     for (int i = iBegin; i < iEnd; ++i) {
@@ -90,18 +92,20 @@ void splitLU(CSR& A, CSR *L, CSR *U)
       for (int j = A.rowptr[i]; j < A.rowptr[i + 1]; ++j) {
         if (A.colidx[j] < i) {
           L->colidx[idx0] = A.colidx[j];
-          L->values[idx0] = A.values[j];
+          if (A.values) L->values[idx0] = A.values[j];
           ++idx0;
         }
         if (A.colidx[j] > i) {
           U->colidx[idx1] = A.colidx[j];
-          U->values[idx1] = A.values[j];
+          if (A.values) U->values[idx1] = A.values[j];
           ++idx1;
         }
       }
 
-      L->idiag[i] = A.idiag[i];
-      U->idiag[i] = A.idiag[i];
+      if (A.idiag) {
+        L->idiag[i] = A.idiag[i];
+        U->idiag[i] = A.idiag[i];
+      }
     } // for each row
 
     if (A.extptr && iEnd > iBegin) {
-- 
2.43.0


From 087d7d2cea04ff407c0c531e93494c7edd5cdcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 26/61] hook: let harnesses lower the thresholds of the
 parallel level and RCM paths

Only with SPMP_VERIF defined.
---
 LevelSchedule.cpp  | 8 ++++++++
 reordering/RCM.cpp | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index c40defe..6fe8917 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -187,6 +187,10 @@ void LevelSchedule::constructTaskGraph(
 
 #define NUM_MAX_THREADS (2048)
 
+#ifdef SPMP_VERIF
+int verifLevelThresh = 64; // lets verification harnesses reach the parallel path with small inputs
+#endif
+
 template<int BASE = 0>
 static
 void findLevels_(
@@ -228,7 +232,11 @@ void findLevels_(
           bar->wait(tid); // wake up other threads
           break;
         }
+#ifdef SPMP_VERIF
+#define THRESH verifLevelThresh
+#else
 #define THRESH 64
+#endif
         currIterSerial = qTail[0] < THRESH*2;
         if (!currIterSerial) {
           *endSynchronized = begin;
diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 3672b64..eecc3b7 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -54,7 +54,11 @@ using namespace std;
 namespace SpMP
 {
 
+#ifdef SPMP_VERIF
+int PAR_THR = 65536; // lets verification harnesses reach the parallel path with small inputs
+#else
 const int PAR_THR = 65536;
+#endif
 
 void findConnectedComponents(
   const CSR *A,
-- 
2.43.0


From 99ec9db0f0e39017685789d22c5c3a4041d4525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 27/61] fix: write the barrier's partner flags through volatile
 pointers

The flags are polled as volatile, but were set with plain stores, which the
compiler may move past the polling loop.
---
 synk/barrier.cpp | 4 ++--
 synk/barrier.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/synk/barrier.cpp b/synk/barrier.cpp
index 52a07c8..d6f7921 100644
--- a/synk/barrier.cpp
+++ b/synk/barrier.cpp
@@ -147,7 +147,7 @@ void Barrier::init(int tid)
                 _mm_malloc(lgNumCores * CacheLineSize, 64);
             for (int j = 0;  j < lgNumCores;  j++)
                 core->myFlags[i][j * CacheLineSize] = 0;
-            core->partnerFlags[i] = (uint8_t **)
+            core->partnerFlags[i] = (volatile uint8_t **)
                 _mm_malloc(lgNumCores * sizeof (uint8_t *), 64);
         }
         core->parity = 0;
@@ -172,7 +172,7 @@ void Barrier::init(int tid)
             /* find dissemination partner and link */
             int partnerCid = (cid + (1 << i)) % numCores;
             for (int j = 0;  j < 2;  j++)
-                core->partnerFlags[j][i] = (uint8_t *)
+                core->partnerFlags[j][i] =
                     &cores[partnerCid]->myFlags[j][i * CacheLineSize];
         }
     }
diff --git a/synk/barrier.hpp b/synk/barrier.hpp
index 7511a0c..9a5505a 100644
--- a/synk/barrier.hpp
+++ b/synk/barrier.hpp
@@ -45,7 +45,7 @@ struct CoreBarrier {
     volatile uint8_t    coreSense;
     volatile uint8_t    *threadSenses;
     volatile uint8_t    *myFlags[2];
-    uint8_t             **partnerFlags[2];
+    volatile uint8_t    **partnerFlags[2];
     uint8_t             parity;
     uint8_t             sense;
 };
-- 
2.43.0


From 5d2d6e1892960ad21d66086379e1ea0695d98259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 28/61] fix: write the reducing barrier's partner flags through
 volatile pointers

The flags are polled as volatile, but were set with plain stores, which the
compiler may move past the polling loop.
---
 synk/reduce.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/synk/reduce.hpp b/synk/reduce.hpp
index bad5891..6681ad4 100644
--- a/synk/reduce.hpp
+++ b/synk/reduce.hpp
@@ -53,7 +53,7 @@ template <typename T>
 struct PseudoCore {
     int8_t              coreId;
     volatile uint8_t    *myFlags[2];
-    uint8_t             **partnerFlags[2];
+    volatile uint8_t    **partnerFlags[2];
     uint8_t             parity;
     uint8_t             sense;
 
@@ -69,7 +69,7 @@ struct ReduceCoreBarrier {
     volatile uint8_t    coreSense;
     volatile uint8_t    *threadSenses;
     volatile uint8_t    *myFlags[2];
-    uint8_t             **partnerFlags[2];
+    volatile uint8_t    **partnerFlags[2];
     uint8_t             parity;
     uint8_t             sense;
 
@@ -138,7 +138,7 @@ void ReduceBarrier<T>::init(int tid)
             core->myFlags[i] = MALLOC(uint8_t, lgNumCores*CacheLineSize/sizeof(uint8_t));
             for (int j = 0;  j < lgNumCores;  j++)
                 core->myFlags[i][j * CacheLineSize] = 0;
-            core->partnerFlags[i] = MALLOC(uint8_t *, lgNumCores);
+            core->partnerFlags[i] = MALLOC(volatile uint8_t *, lgNumCores);
         }
         core->parity = 0;
         core->sense = 1;
@@ -159,7 +159,7 @@ void ReduceBarrier<T>::init(int tid)
                 pseudoCore->myFlags[i] = MALLOC(uint8_t, lgNumCores*CacheLineSize/sizeof(uint8_t));
                 for (int j = 0;  j < lgNumCores;  j++)
                     pseudoCore->myFlags[i][j * CacheLineSize] = 0;
-                pseudoCore->partnerFlags[i] = MALLOC(uint8_t *, lgNumCores);
+                pseudoCore->partnerFlags[i] = MALLOC(volatile uint8_t *, lgNumCores);
             }
             pseudoCore->parity = 0;
             pseudoCore->sense = 1;
@@ -195,7 +195,7 @@ void ReduceBarrier<T>::init(int tid)
             if (reduceCid < numCores) {
                 core->partnerRvals[i] = (T *)&cores[reduceCid]->myRvals[i];
                 for (int j = 0;  j < 2;  j++)
-                    core->partnerFlags[j][i] = (uint8_t *)
+                    core->partnerFlags[j][i] =
                         &cores[reduceCid]->myFlags[j][i * CacheLineSize];
             }
 
@@ -205,7 +205,7 @@ void ReduceBarrier<T>::init(int tid)
                 core->partnerRvals[i] = (T *)
                     &cores[reduceCid]->pseudoCore->myRvals[i];
                 for (int j = 0;  j < 2;  j++)
-                    core->partnerFlags[j][i] = (uint8_t *)
+                    core->partnerFlags[j][i] =
                         &cores[reduceCid]->
                         pseudoCore->myFlags[j][i * CacheLineSize];
             }
@@ -223,7 +223,7 @@ void ReduceBarrier<T>::init(int tid)
                     pseudoCore->partnerRvals[i] = (T *)
                         &cores[reduceCid]->myRvals[i];
                     for (int j = 0;  j < 2;  j++)
-                        pseudoCore->partnerFlags[j][i] = (uint8_t *)
+                        pseudoCore->partnerFlags[j][i] =
                             &cores[reduceCid]->myFlags[j][i * CacheLineSize];
                 }
                 else {
@@ -231,7 +231,7 @@ void ReduceBarrier<T>::init(int tid)
                     pseudoCore->partnerRvals[i] = (T *)
                         &cores[reduceCid]->pseudoCore->myRvals[i];
                     for (int j = 0;  j < 2;  j++)
-                        pseudoCore->partnerFlags[j][i] = (uint8_t *)
+                        pseudoCore->partnerFlags[j][i] =
                             &cores[reduceCid]->
                             pseudoCore->myFlags[j][i * CacheLineSize];
                 }
-- 
2.43.0


From 7464e3fce61f6f42f4a3439ac1f66ae137e93282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 29/61] fix: double-buffer the values exchanged by the reducing
 barrier

A partner that has left the barrier may enter the next round and overwrite a
value this core has not read yet. Like the flags, the received values now
alternate between two buffers.
---
 synk/reduce.hpp | 75 +++++++++++++++++++++++++++----------------------
 1 file changed, 42 insertions(+), 33 deletions(-)

diff --git a/synk/reduce.hpp b/synk/reduce.hpp
index 6681ad4..82d8ab4 100644
--- a/synk/reduce.hpp
+++ b/synk/reduce.hpp
@@ -57,8 +57,8 @@ struct PseudoCore {
     uint8_t             parity;
     uint8_t             sense;
 
-    volatile T          *myRvals;
-    T                   **partnerRvals;
+    volatile T          *myRvals[2];
+    volatile T          **partnerRvals[2];
 };
 
 
@@ -75,8 +75,8 @@ struct ReduceCoreBarrier {
 
     volatile T          rval;
     volatile T          *threadRvals;
-    volatile T          *myRvals;
-    T                   **partnerRvals;
+    volatile T          *myRvals[2];
+    volatile T          **partnerRvals[2];
 
     PseudoCore<T>       *pseudoCore;
 };
@@ -144,8 +144,10 @@ void ReduceBarrier<T>::init(int tid)
         core->sense = 1;
 
         core->threadRvals = MALLOC(volatile T, numThreadsPerCore);
-        core->myRvals = MALLOC(volatile T, lgNumCores);
-        core->partnerRvals = MALLOC(T *, lgNumCores);
+        for (int i = 0;  i < 2;  i++) {
+            core->myRvals[i] = MALLOC(volatile T, lgNumCores);
+            core->partnerRvals[i] = MALLOC(volatile T *, lgNumCores);
+        }
 
         core->pseudoCore = NULL;
 
@@ -164,8 +166,10 @@ void ReduceBarrier<T>::init(int tid)
             pseudoCore->parity = 0;
             pseudoCore->sense = 1;
 
-            pseudoCore->myRvals = MALLOC(volatile T, lgNumCores);
-            pseudoCore->partnerRvals = MALLOC(T *, lgNumCores);
+            for (int i = 0;  i < 2;  i++) {
+                pseudoCore->myRvals[i] = MALLOC(volatile T, lgNumCores);
+                pseudoCore->partnerRvals[i] = MALLOC(volatile T *, lgNumCores);
+            }
 
             core->pseudoCore = pseudoCore;
         }
@@ -186,54 +190,59 @@ void ReduceBarrier<T>::init(int tid)
     /* core thread 0 finishes setup */
     if (coreTid == 0) {
         for (int i = 0;  i < lgNumCores;  i++) {
-            core->myRvals[i] = (volatile T)NULL;
+            core->myRvals[0][i] = core->myRvals[1][i] = (volatile T)NULL;
 
             /* find reduction partner and link */
             int reduceCid = (cid + (1 << i)) % nearestPow2Cores;
 
             /* is our reduction partner a real core? */
             if (reduceCid < numCores) {
-                core->partnerRvals[i] = (T *)&cores[reduceCid]->myRvals[i];
-                for (int j = 0;  j < 2;  j++)
+                for (int j = 0;  j < 2;  j++) {
+                    core->partnerRvals[j][i] = &cores[reduceCid]->myRvals[j][i];
                     core->partnerFlags[j][i] =
                         &cores[reduceCid]->myFlags[j][i * CacheLineSize];
+                }
             }
 
             /* no, it's a pseudo core */
             else {
                 reduceCid -= numCores;
-                core->partnerRvals[i] = (T *)
-                    &cores[reduceCid]->pseudoCore->myRvals[i];
-                for (int j = 0;  j < 2;  j++)
+                for (int j = 0;  j < 2;  j++) {
+                    core->partnerRvals[j][i] =
+                        &cores[reduceCid]->pseudoCore->myRvals[j][i];
                     core->partnerFlags[j][i] =
                         &cores[reduceCid]->
                         pseudoCore->myFlags[j][i * CacheLineSize];
+                }
             }
 
             /* if this is one of the cores that represents a pseudo
                core, we have to initialize and link its fields too */
             if (pseudoCore) {
-                pseudoCore->myRvals[i] = (volatile T)NULL;
+                pseudoCore->myRvals[0][i] = pseudoCore->myRvals[1][i] =
+                    (volatile T)NULL;
 
                 reduceCid = (pseudoCore->coreId + (1 << i)) % nearestPow2Cores;
 
                 /* this pseudo core's reduction partner might be a real
                    core or a pseudo core */
                 if (reduceCid < numCores) {
-                    pseudoCore->partnerRvals[i] = (T *)
-                        &cores[reduceCid]->myRvals[i];
-                    for (int j = 0;  j < 2;  j++)
+                    for (int j = 0;  j < 2;  j++) {
+                        pseudoCore->partnerRvals[j][i] =
+                            &cores[reduceCid]->myRvals[j][i];
                         pseudoCore->partnerFlags[j][i] =
                             &cores[reduceCid]->myFlags[j][i * CacheLineSize];
+                    }
                 }
                 else {
                     reduceCid -= numCores;
-                    pseudoCore->partnerRvals[i] = (T *)
-                        &cores[reduceCid]->pseudoCore->myRvals[i];
-                    for (int j = 0;  j < 2;  j++)
+                    for (int j = 0;  j < 2;  j++) {
+                        pseudoCore->partnerRvals[j][i] =
+                            &cores[reduceCid]->pseudoCore->myRvals[j][i];
                         pseudoCore->partnerFlags[j][i] =
                             &cores[reduceCid]->
                             pseudoCore->myFlags[j][i * CacheLineSize];
+                    }
                 }
             }
         }
@@ -279,8 +288,8 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
            handle both */
         if (numThreadsPerCore == 1  &&  bar->pseudoCore) {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
-                *bar->partnerRvals[i] = redVal;
-                *bar->pseudoCore->partnerRvals[i] = zeroVal;
+                *bar->partnerRvals[bar->parity][i] = redVal;
+                *bar->pseudoCore->partnerRvals[bar->pseudoCore->parity][i] = zeroVal;
 
                 sfence();
 
@@ -295,8 +304,8 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
                     cpu_pause();
 
                 /* reduction operations */
-                redVal = redFunc(redVal, (T)bar->myRvals[i]);
-                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[i]);
+                redVal = redFunc(redVal, (T)bar->myRvals[bar->parity][i]);
+                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[bar->pseudoCore->parity][i]);
             }
 
             if (bar->parity == 1) bar->sense = !bar->sense;
@@ -309,14 +318,14 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
         /* no pseudo core, only handle self */
         else {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
-                *bar->partnerRvals[i] = redVal;
+                *bar->partnerRvals[bar->parity][i] = redVal;
                 sfence();
                 *bar->partnerFlags[bar->parity][i] = bar->sense;
                 while (bar->myFlags[bar->parity][di] != bar->sense)
                     cpu_pause();
 
                 /* reduction operations */
-                redVal = redFunc(redVal, (T)bar->myRvals[i]);
+                redVal = redFunc(redVal, (T)bar->myRvals[bar->parity][i]);
             }
 
             if (bar->parity == 1) bar->sense = !bar->sense;
@@ -334,7 +343,7 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
     else {
         if (coreTid == 1  &&  bar->pseudoCore) {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
-                *bar->pseudoCore->partnerRvals[i] = zeroVal;
+                *bar->pseudoCore->partnerRvals[bar->pseudoCore->parity][i] = zeroVal;
                 sfence();
                 *bar->pseudoCore->partnerFlags[bar->pseudoCore->parity][i]
                     = bar->pseudoCore->sense;
@@ -343,7 +352,7 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
                     cpu_pause();
 
                 /* reduction operations */
-                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[i]);
+                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[bar->pseudoCore->parity][i]);
             }
             if (bar->pseudoCore->parity == 1)
                 bar->pseudoCore->sense = !bar->pseudoCore->sense;
@@ -367,19 +376,19 @@ ReduceBarrier<T>::~ReduceBarrier()
     if (initState) {
         for (int i = 0;  i < numCores;  i++) {
             if (cores[i]->pseudoCore) {
-                _mm_free((void *)cores[i]->pseudoCore->partnerRvals);
-                _mm_free((void *)cores[i]->pseudoCore->myRvals);
                 for (int j = 0;  j < 2;  j++) {
+                    _mm_free((void *)cores[i]->pseudoCore->partnerRvals[j]);
+                    _mm_free((void *)cores[i]->pseudoCore->myRvals[j]);
                     _mm_free((void *)cores[i]->pseudoCore->partnerFlags[j]);
                     _mm_free((void *)cores[i]->pseudoCore->myFlags[j]);
                 }
                 _mm_free((void *)cores[i]->pseudoCore);
             }
-            _mm_free((void *)cores[i]->partnerRvals);
-            _mm_free((void *)cores[i]->myRvals);
             _mm_free((void *)cores[i]->threadRvals);
             _mm_free((void *)cores[i]->threadSenses);
             for (int j = 0;  j < 2;  j++) {
+                _mm_free((void *)cores[i]->partnerRvals[j]);
+                _mm_free((void *)cores[i]->myRvals[j]);
                 _mm_free((void *)cores[i]->partnerFlags[j]);
                 _mm_free((void *)cores[i]->myFlags[j]);
             }
-- 
2.43.0


From d920000b5f778d6ca25d04d40fe8713b4ef7600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 30/61] fix: do not let a reducing barrier of one core count
 its values twice

With one core the exchange partner is the core itself, so every value was
reduced twice.
---
 synk/reduce.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/synk/reduce.hpp b/synk/reduce.hpp
index 82d8ab4..dfc453c 100644
--- a/synk/reduce.hpp
+++ b/synk/reduce.hpp
@@ -315,8 +315,9 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
             bar->pseudoCore->parity = 1 - bar->pseudoCore->parity;
         }
 
-        /* no pseudo core, only handle self */
-        else {
+        /* no pseudo core, only handle self; a single core has nothing to
+           exchange, its partner would be itself */
+        else if (numCores > 1) {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
                 *bar->partnerRvals[bar->parity][i] = redVal;
                 sfence();
-- 
2.43.0


From 207f1259a2d2176191567b3c764df3d8dd6cebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:23 +0000
Subject: [PATCH 31/61] fix: keep trailing rows of zero cost in the level
 schedule

---
 LevelSchedule.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 6fe8917..4b44896 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -641,7 +641,9 @@ void findLevels_(
     nnz = 0;
     int t;
     for (t = 0; t < nthreads; ++t) {
-      int newr = lower_bound(&b[r], &b[levelEnd], (t + 1)*nnzPerThread) - &b[0];
+      // the last thread takes the rest, including rows whose cost is zero
+      int newr = t == nthreads - 1 ? levelEnd :
+        lower_bound(&b[r], &b[levelEnd], (t + 1)*nnzPerThread) - &b[0];
       if (aggregateForVectorization) {
         // make task size a multiple of 8 as much as possible
         if (0 == t) {
-- 
2.43.0


From 91848cebaf166db0b30ccb69d417fbe6ef32043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 32/61] fix: keep threads from overrunning each other's queues
 when finding levels

---
 LevelSchedule.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 4b44896..e0a2833 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -222,6 +222,10 @@ void findLevels_(
 
   int end = 0;
 
+  // number of rows that fit in q[tid] and rowPtrs[tid] as initially given
+  int capacity = max(nthreads, m + nthreads - 1)/nthreads*2;
+  vector<int> privateQ, privateRowPtrs;
+
   while (true) { // until all nodes are visited
     bool currIterSerial = false;
     int begin = end;
@@ -403,6 +407,22 @@ void findLevels_(
       if (0 == tid) tt5 += __rdtsc() - tTemp;
 
       tTemp = __rdtsc();
+      if (privateQ.empty()) {
+        // don't overrun other threads' parts when a few rows of this thread
+        // have most of the successors
+        int maxSucc = 0;
+        for (int i = iBegin; i < iEnd && maxSucc < m; ++i) {
+          int pred = reversePerm[i];
+          maxSucc += extptr[pred] - diagptr[pred] - 1;
+        }
+        if (min(maxSucc, m) >= capacity) {
+          privateQ.resize(m);
+          privateRowPtrs.resize(m + 1);
+          q[tid] = &privateQ[0];
+          rowPtrs[tid] = &privateRowPtrs[0];
+        }
+      }
+
       int *tailPtr = q[tid];
       int *rowPtr = rowPtrs[tid];
       *rowPtr = 0;
-- 
2.43.0


From 439f54d36f6638ef54984b1917481cb633bffa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 33/61] fix: keep the parent lists of the fused schedule from
 overlapping

---
 LevelSchedule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index e0a2833..c19fc91 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -1301,7 +1301,7 @@ void constructTaskGraph_(
         fusedSchedule->parents[task] = fusedSchedule->parentsBuf + cnt;
         fusedSchedule->nparents[task] = tempParents[task].size();
         copy(tempParents[task].begin(), tempParents[task].end(), fusedSchedule->parents[task]);
-        cnt += taskInvAdjacencyLengths[task];
+        cnt += fusedSchedule->nparents[task];
       }
 
       /*int cnt = 0;
-- 
2.43.0


From 0cb32c7453ee81e39db562af4db97ea5c2c9d8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 34/61] fix: make room for intra-thread edges to tasks without
 rows

---
 LevelSchedule.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index c19fc91..b49d2f5 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -964,11 +964,11 @@ void constructTaskGraph_(
   int origRowPtrCnt = 0, origInvRowPtrCnt = 0;
   for (int v1 = v1Begin; v1 < v1End; ++v1) {
     int size = 0;
-    int invSize = 0;
+    int invSize = 1; // for the intra-thread edge of tasks without rows
     for (int i1Perm = taskBoundaries[v1]; i1Perm < taskBoundaries[v1 + 1]; ++i1Perm) {
       int i1 = threadContToOrigPerm[i1Perm];
       size += extptr[i1] - diagptr[i1] - 1;
-      invSize += diagptr[i1] - rowptr[i1] + 1; // additional 1 for intra-thread
+      invSize += diagptr[i1] - rowptr[i1];
     }
     taskAdjacency.rowptr[v1] = origRowPtrCnt;
     taskInvAdjacency.rowptr[v1] = origInvRowPtrCnt;
-- 
2.43.0


From 454292978dfd8730529e18a75ec30126dfca5072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 35/61] fix: recreate the barrier instance when the number of
 threads has changed

---
 synk/barrier.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/synk/barrier.cpp b/synk/barrier.cpp
index d6f7921..af630b9 100644
--- a/synk/barrier.cpp
+++ b/synk/barrier.cpp
@@ -69,10 +69,11 @@ void Barrier::initializeInstance(int numCores, int numThreadsPerCore)
 
 Barrier *Barrier::getInstance()
 {
-    if (!instance)
-    {
-        int nthreads = omp_in_parallel() ? omp_get_num_threads() : omp_get_max_threads();
+    int nthreads = omp_in_parallel() ? omp_get_num_threads() : omp_get_max_threads();
 
+    // an instance made for another number of threads would hang or overrun
+    if (!instance || instance->numThreads != nthreads)
+    {
 #ifdef __MIC__
         int threadsPerCore = nthreads%4 == 0 ? 4 : (nthreads%2 == 0 ? 2 : 1);
           // Assume compact or balanced affinity.
@@ -85,12 +86,16 @@ Barrier *Barrier::getInstance()
         {
 #pragma omp barrier
 #pragma omp master
-            instance = new Barrier(nthreads/threadsPerCore, threadsPerCore);
+            {
+                delete instance;
+                instance = new Barrier(nthreads/threadsPerCore, threadsPerCore);
+            }
 #pragma omp barrier
             instance->init(omp_get_thread_num());
         }
         else
         {
+            delete instance;
             instance = new Barrier(nthreads/threadsPerCore, threadsPerCore);
 #pragma omp parallel
             {
-- 
2.43.0


From 9883f80b44d8c7476163d6dc82005db9c2593e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 36/61] fix: don't write a component size when no vertex is
 left to find

---
 reordering/ConnectedComponents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index 0c33f39..f00f188 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -272,7 +272,7 @@ void findConnectedComponents_(
   int cPerThread = (nComp + nthreads - 1)/nthreads;
   int cBegin = max(min(cPerThread*tid, nComp), 1);
   int cEnd = min(cBegin + cPerThread, nComp);
-  if (0 == tid) {
+  if (0 == tid && nComp > 0) {
     (*compSizes)[0] = (*compSizePrefixSum)[nComp*(nthreads - 1)];
   }
   for (int c = cBegin; c < cEnd; ++c) {
-- 
2.43.0


From 694069fb15282800349cc72417a49b8841331104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 37/61] fix: don't lose unions made by other threads when
 finding connected components

---
 reordering/ConnectedComponents.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index f00f188..fcc6bbd 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -167,11 +167,15 @@ void findConnectedComponents_(
           int p_r_x = old_p_r_x > old_p_r_y ? old_p_r_x : old_p_r_y;
           int p_r_y = old_p_r_x > old_p_r_y ? old_p_r_y : old_p_r_x;
 
-          if (p_r_x == r_x && __sync_bool_compare_and_swap(&p[r_x], r_x, p_r_y)) {
-            break;
+          if (p_r_x == r_x) {
+            // if another thread has just linked r_x, overwriting that link
+            // would lose its union: look again
+            if (__sync_bool_compare_and_swap(&p[r_x], r_x, p_r_y)) break;
+          }
+          else {
+            p[r_x] = p_r_y;
+            r_x = p_r_x;
           }
-          p[r_x] = p_r_y;
-          r_x = p_r_x;
         } // while
       } // p[xx] != p[y]
     }
-- 
2.43.0


From 58b1d50c10ba05b6db6d7e76794320e53d123dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 38/61] fix: make room for the row pointers of the BFS source
 of a 1x1 matrix

---
 reordering/RCM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index eecc3b7..7495ff8 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -188,7 +188,7 @@ bfsAuxData::bfsAuxData(int m)
 
   qTailPrefixSum = new int[omp_get_max_threads() + 1];
 
-  rowptrs = new int[omp_get_max_threads()*m];
+  rowptrs = new int[omp_get_max_threads()*m + 1]; // the first row has two pointers even if m == 1
   nnzPrefixSum = new int[omp_get_max_threads() + 1];
 
   candidates = new int[m];
-- 
2.43.0


From b7c1e45e22b1381906b09941d75847027b5d1b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 39/61] fix: make room for the level offsets of path-like
 components in RCM

---
 reordering/RCM.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 7495ff8..5f4b37a 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -694,8 +694,9 @@ void CSR::getRCMPermutation(int *perm, int *inversePerm, bool pseudoDiameterSour
   int singletonCnt = 0, twinCnt = 0;
 
   bfsAuxData aux(m);
-  volatile int *write_offset = new int[(m + 1)*16];
-  int *prefixSum_array = new int[max(omp_get_max_threads()*PAR_THR, m) + 1];
+  // bfs counts an empty level after the last one
+  volatile int *write_offset = new int[(m + 2)*16];
+  int *prefixSum_array = new int[max(omp_get_max_threads()*(PAR_THR + 1), m + 2)];
 
   DegreeComparator comparator(rowptr);
 
-- 
2.43.0


From 2800b8b73e8e5324f0825d8f7c1d27140580bf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 40/61] fix: make room for last-level vertices discovered by
 more than one thread

---
 reordering/RCM.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 5f4b37a..495f912 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -191,7 +191,8 @@ bfsAuxData::bfsAuxData(int m)
   rowptrs = new int[omp_get_max_threads()*m + 1]; // the first row has two pointers even if m == 1
   nnzPrefixSum = new int[omp_get_max_threads() + 1];
 
-  candidates = new int[m];
+  // threads that discover the same vertex at the same time both list it
+  candidates = new int[m*omp_get_max_threads()];
 }
 
 bfsAuxData::~bfsAuxData()
-- 
2.43.0


From 22b488e162fa38055f6807eb9f316ea3e3d7ca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 41/61] fix: don't start a BFS from row 0 of an empty matrix

---
 reordering/RCM.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 495f912..fd0b178 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -981,6 +981,8 @@ void CSR::getBFSPermutation(int *perm, int *inversePerm)
   }
   assert(isSymmetric(false)); // check structural symmetry
 
+  if (0 == m) return;
+
   BitVector bv(m);
 
   bfsAuxData aux(m);
-- 
2.43.0


From 8fc3e3dbca3917f3493e7192c524375999c37456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:21 +0000
Subject: [PATCH 42/61] fix: make room for the last row pointer of a level with
 every vertex in bipartite BFS

---
 reordering/BFSBipartite.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/reordering/BFSBipartite.cpp b/reordering/BFSBipartite.cpp
index 31e393a..5a0df52 100644
--- a/reordering/BFSBipartite.cpp
+++ b/reordering/BFSBipartite.cpp
@@ -450,7 +450,8 @@ bfsAuxData::bfsAuxData(int m)
 
   qTailPrefixSum = new int[omp_get_max_threads() + 1];
 
-  rowptrs = new int[omp_get_max_threads()*m];
+  // a level can have m vertices, so each thread needs room for m + 1 row pointers
+  rowptrs = new int[omp_get_max_threads()*(m + 1)];
   nnzPrefixSum = new int[omp_get_max_threads() + 1];
 
   candidates = new int[m];
@@ -640,9 +641,9 @@ int bfs(
     }
     else {
       iBegin = upper_bound(
-          rowptrs + tBegin*max(A->m, A->n), rowptrs + tBegin*max(A->m, A->n) + qTail[1 - numLevels%2][tBegin],
+          rowptrs + tBegin*(max(A->m, A->n) + 1), rowptrs + tBegin*(max(A->m, A->n) + 1) + qTail[1 - numLevels%2][tBegin],
           nnzPerThread*tid - nnzPrefixSum[tBegin]) -
-        (rowptrs + tBegin*max(A->m, A->n)) - 1;
+        (rowptrs + tBegin*(max(A->m, A->n) + 1)) - 1;
     }
 
     if (tEnd == nthreads) {
@@ -650,9 +651,9 @@ int bfs(
     }
     else {
       iEnd = upper_bound(
-          rowptrs + tEnd*max(A->m, A->n), rowptrs + tEnd*max(A->m, A->n) + qTail[1 - numLevels%2][tEnd],
+          rowptrs + tEnd*(max(A->m, A->n) + 1), rowptrs + tEnd*(max(A->m, A->n) + 1) + qTail[1 - numLevels%2][tEnd],
           nnzPerThread*(tid + 1) - nnzPrefixSum[tEnd]) -
-        (rowptrs + tEnd*max(A->m, A->n)) - 1;
+        (rowptrs + tEnd*(max(A->m, A->n) + 1)) - 1;
     }
 
     memcpy(
@@ -663,7 +664,7 @@ int bfs(
     synk::Barrier::getInstance()->wait(tid);
 
     int *tailPtr = q[numLevels%2] + tid*max(A->m, A->n);
-    int *rowptr = rowptrs + tid*max(A->m, A->n);
+    int *rowptr = rowptrs + tid*(max(A->m, A->n) + 1);
     *rowptr = 0;
 
     for (int t = tBegin; t <= tEnd; ++t) {
-- 
2.43.0


From 5140bc674c6fc6a9c8e957be108d848dfd31ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 43/61] fix: align blocks of the memory pool, not only their
 sizes

---
 MemoryPool.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/MemoryPool.cpp b/MemoryPool.cpp
index 5c45180..b1dc3c6 100644
--- a/MemoryPool.cpp
+++ b/MemoryPool.cpp
@@ -127,22 +127,24 @@ size_t MemoryPool::getTail() const
 void *MemoryPool::allocate(size_t sz, int align /*=64*/)
 {
   sz = (sz + align - 1)/align*align;
+  // the tail may have been left by a request with a different alignment
+  size_t begin = (tail_ + align - 1)/align*align;
 
   if (tail_ >= head_) { // not wrapped around
-    if (tail_ + sz >= size_) { // wrap around
+    if (begin + sz >= size_) { // wrap around
       tail_ = sz;
       assert(tail_ < head_); // check overflow
       return buffer_;
     }
     else {
-      tail_ += sz;
-      return buffer_ + (tail_ - sz);
+      tail_ = begin + sz;
+      return buffer_ + begin;
     }
   }
   else { // wrapped around
-    assert(tail_ + sz < head_); // check overflow
-    tail_ += sz;
-    return buffer_ + (tail_ - sz);
+    assert(begin + sz < head_); // check overflow
+    tail_ = begin + sz;
+    return buffer_ + begin;
   }
 }
 
@@ -152,16 +154,17 @@ void *MemoryPool::allocateFront(size_t sz, int align /*=64*/)
 
   if (tail_ >= head_) { // not wrapped around
     if (head_ < sz) { // wrap around
-      head_ = size_ - sz;
+      head_ = (size_ - sz)/align*align;
       assert(head_ > tail_); // check overflow
     }
     else {
-      head_ -= sz;
+      head_ = (head_ - sz)/align*align;
     }
   }
   else { // wrapped around
     assert(head_ > tail_ + sz); // check overflow
-    head_ -= sz;
+    head_ = (head_ - sz)/align*align;
+    assert(head_ > tail_); // check overflow
   }
 
   return buffer_ + head_;
-- 
2.43.0


From 7146588f823e3a1967d59bda141705a6100e5e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 44/61] fix: don't free memory of the pool when transitive
 edges are kept

---
 LevelSchedule.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index b49d2f5..08b9d5b 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -1711,7 +1711,9 @@ void constructTaskGraph_(
         cForward += nparentsForward[i];
         cBackward += nparentsBackward[i];
       }
-      FREE(taskInvAdjacencyLengths);
+      if (!useMemoryPool) {
+        FREE(taskInvAdjacencyLengths);
+      }
 
       parentsBuf[0] = schedule->allocate<int>(cForward);
       parentsBuf[1] = schedule->allocate<int>(cBackward);
-- 
2.43.0


From cb2ad54b0a9f21ef1d23c52dbd343d3e41323e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:09 +0000
Subject: [PATCH 45/61] fix: define LoadImba::deleteInstance instead of a
 second Barrier::deleteInstance

---
 synk/loadimba.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/synk/loadimba.cpp b/synk/loadimba.cpp
index 50b1511..be3e4d5 100644
--- a/synk/loadimba.cpp
+++ b/synk/loadimba.cpp
@@ -112,9 +112,10 @@ LoadImba *LoadImba::getInstance()
     return instance;
 }
 
-void Barrier::deleteInstance()
+void LoadImba::deleteInstance()
 {
     delete instance;
+    instance = NULL;
 }
 
 /* constructor */
-- 
2.43.0


From e49446d037803b0c14e74f08461c6d0e636a855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:09 +0000
Subject: [PATCH 46/61] fix: free the per-thread records of LoadImba

---
 synk/loadimba.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/synk/loadimba.cpp b/synk/loadimba.cpp
index be3e4d5..2a86832 100644
--- a/synk/loadimba.cpp
+++ b/synk/loadimba.cpp
@@ -274,6 +274,7 @@ LoadImba::~LoadImba()
         _mm_free(limba[i]->tot);
         _mm_free(limba[i]->cnt);
         _mm_free(limba[i]->bar);
+        _mm_free(limba[i]);
     }
     _mm_free(limba);
 }
-- 
2.43.0


From 4fafc9b27f9cd0bf29d0abec793942f78057995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:39 +0000
Subject: [PATCH 47/61] fix: do not free the records of a LoadImba that was
 never initialized

---
 synk/loadimba.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/synk/loadimba.cpp b/synk/loadimba.cpp
index 2a86832..7e9ef18 100644
--- a/synk/loadimba.cpp
+++ b/synk/loadimba.cpp
@@ -268,13 +268,15 @@ void LoadImba::printLoadImbalance(unsigned long long refTime) {
 LoadImba::~LoadImba()
 {
     delete red;
-    for (int i = 0;  i < numThreads;  i++) {
-        _mm_free(limba[i]->min);
-        _mm_free(limba[i]->max);
-        _mm_free(limba[i]->tot);
-        _mm_free(limba[i]->cnt);
-        _mm_free(limba[i]->bar);
-        _mm_free(limba[i]);
+    if (initState) {
+        for (int i = 0;  i < numThreads;  i++) {
+            _mm_free(limba[i]->min);
+            _mm_free(limba[i]->max);
+            _mm_free(limba[i]->tot);
+            _mm_free(limba[i]->cnt);
+            _mm_free(limba[i]->bar);
+            _mm_free(limba[i]);
+        }
     }
     _mm_free(limba);
 }
-- 
2.43.0


From 510d43e4d1529edd737039fab82d3ddfde39d9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:12 +0000
Subject: [PATCH 48/61] fix: let matrices the library allocates own their
 arrays

The results of transpose, permute*, splitLU and generate3D27PtLaplacian were
never freed, as a CSR made by the default constructor does not own its data.
---
 CSR.cpp       | 7 +++++++
 CSR.hpp       | 4 ++++
 Laplacian.cpp | 1 +
 Permute.cpp   | 1 +
 SymGS.cpp     | 1 +
 5 files changed, 14 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 4d67f40..05a9d7b 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -155,6 +155,12 @@ void CSR::dealloc()
       FREE(colidx);
       FREE(values);
     }
+    else {
+      rowptr = NULL;
+      extptr = NULL;
+      colidx = NULL;
+      values = NULL;
+    }
 
     FREE(idiag);
     FREE(diag);
@@ -501,6 +507,7 @@ CSR *CSR::transpose() const
   int nnz = getNnz();
 
   CSR *AT = new CSR();
+  AT->ownData_ = true;
 
   AT->m = n;
   AT->n = m;
diff --git a/CSR.hpp b/CSR.hpp
index c9722cd..46cf39b 100644
--- a/CSR.hpp
+++ b/CSR.hpp
@@ -190,6 +190,10 @@ public:
 
 private:
   bool ownData_;
+
+  // these allocate the arrays of the matrices they are given
+  friend void splitLU(CSR& A, CSR *L, CSR *U);
+  friend void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base);
 }; // CSR
 
 void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base = 0);
diff --git a/Laplacian.cpp b/Laplacian.cpp
index 25eca61..1e78ea1 100644
--- a/Laplacian.cpp
+++ b/Laplacian.cpp
@@ -29,6 +29,7 @@ namespace SpMP
 
 void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base /*=0*/) {
   A->dealloc();
+  A->ownData_ = true;
 
   A->m = A->n = nx*ny*nz;
   A->rowptr = MALLOC(int, A->m + 1);
diff --git a/Permute.cpp b/Permute.cpp
index ae17324..a8f9131 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -81,6 +81,7 @@ void CSR::permuteRowptr(CSR *ret, const int *inversePerm) const
 CSR *CSR::permuteRowptr(const int *inversePerm) const
 {
   CSR *ret = new CSR();
+  ret->ownData_ = true;
 
   ret->m = m;
   ret->n = n;
diff --git a/SymGS.cpp b/SymGS.cpp
index 97142de..21ee365 100644
--- a/SymGS.cpp
+++ b/SymGS.cpp
@@ -16,6 +16,7 @@ void splitLU(CSR& A, CSR *L, CSR *U)
 
   L->dealloc();
   U->dealloc();
+  L->ownData_ = U->ownData_ = true;
 
   L->m = U->m = A.m;
   L->n = U->n = A.n;
-- 
2.43.0


From e915bf457d834ba0cdd40b639620340b9ed02191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:12 +0000
Subject: [PATCH 49/61] fix: free the union-find array of
 findConnectedComponents

---
 reordering/ConnectedComponents.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index fcc6bbd..8ac7e7d 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -325,6 +325,7 @@ void findConnectedComponents_(
 
   //printf("num of connected components = %d\n", (*numOfComponents));
 
+  delete[] p;
   delete[] rootToComp;
   if (nodesToFind) delete[] nodesToFind;
 }
-- 
2.43.0


From 4622d265e155e09687f36009f87866f2c80fadcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:12 +0000
Subject: [PATCH 50/61] fix: free the connected components found for RCM and
 BFS orderings

---
 reordering/RCM.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index fd0b178..1bdcdc1 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -951,6 +951,11 @@ void CSR::getRCMPermutation(int *perm, int *inversePerm, bool pseudoDiameterSour
   delete[] write_offset;
   delete[] prefixSum_array;
 
+  delete[] compToRoot;
+  delete[] compSizes;
+  delete[] compSizePrefixSum;
+  delete[] nodesSortedByComp;
+
 #if 0
   printf("num of connected components = %d (singleton = %d, twin = %d, large (>=%d) = %d)\n", numOfComponents, singletonCnt, twinCnt, PAR_THR, largeCompCnt);
   printf("connectedComponentTime = %f\n", timeConnectedComponents);
@@ -1116,6 +1121,11 @@ void CSR::getBFSPermutation(int *perm, int *inversePerm)
 
   timeSecondPhase += omp_get_wtime();
 
+  delete[] compToRoot;
+  delete[] compSizes;
+  delete[] compSizePrefixSum;
+  delete[] nodesSortedByComp;
+
 #if 0
   printf("num of connected components = %d (singleton = %d, twin = %d, large (>=%d) = %d)\n", numOfComponents, singletonCnt, twinCnt, PAR_THR, largeCompCnt);
   printf("connectedComponentTime = %f\n", timeConnectedComponents);
-- 
2.43.0


From 2f9b8c340a544a91958a9db0a5f327c07e87d164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:12 +0000
Subject: [PATCH 51/61] fix: close the file COO::storeMatrixMarket opens

---
 COO.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/COO.cpp b/COO.cpp
index 1776051..22585a8 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -58,6 +58,7 @@ void COO::storeMatrixMarket(const char *fileName) const
     fprintf(stderr, "Fail to open file %s\n", fileName);
     return;
   }
+  fclose(fp); // mm_write_mtx_crd opens it again
 
   MM_typecode matcode;
   mm_initialize_typecode(&matcode);
-- 
2.43.0


From 5365f274dbed886125c1df4bcc517195e5d997b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:12 +0000
Subject: [PATCH 52/61] fix: free the type string of Matrix Market files

---
 CSR.cpp   | 4 +++-
 mm_io.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 05a9d7b..371f379 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -302,7 +302,9 @@ void CSR::storeMatrixMarket(const char *fileName) const
 
   // print banner followed by typecode.
   fprintf(fp, "%s ", MatrixMarketBanner);
-  fprintf(fp, "%s\n", mm_typecode_to_str(matcode));
+  char *str = mm_typecode_to_str(matcode);
+  fprintf(fp, "%s\n", str);
+  free(str);
 
   // print matrix size and nonzeros.
   fprintf(fp, "%d %d %d\n", m, n, rowptr[m] - base);
diff --git a/mm_io.cpp b/mm_io.cpp
index e4bf68a..b4d19b1 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -727,7 +727,9 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
   print banner followed by typecode.
 */
     fprintf(f, "%s ", MatrixMarketBanner);
-    fprintf(f, "%s\n", mm_typecode_to_str(matcode));
+    char *str = mm_typecode_to_str(matcode);
+    fprintf(f, "%s\n", str);
+    free(str);
 
 /*
   print matrix sizes and nonzeros.
-- 
2.43.0


From eb779ba8967eacabfe52525ea605bb71211f3d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:48 +0000
Subject: [PATCH 53/61] fix: free the buffers of Matrix Market files that are
 rejected

---
 COO.cpp | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index 22585a8..cee65ae 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -185,6 +185,23 @@ void dcoo2csr(CSR *Acrs, const COO *Acoo, int outBase /*=0*/, bool createSeparat
   }
 }
 
+// buffers of loadMatrixMarket_, freed on return unless handed over to the COO
+struct LoadBuffers
+{
+  double *values;
+  int *colidx, *rowidx, *colidx_temp, *rowcnt;
+
+  LoadBuffers() : values(NULL), colidx(NULL), rowidx(NULL), colidx_temp(NULL), rowcnt(NULL) {}
+  ~LoadBuffers()
+  {
+    FREE(values);
+    FREE(colidx);
+    FREE(rowidx);
+    FREE(colidx_temp);
+    FREE(rowcnt);
+  }
+};
+
 static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric, bool transpose, int pad)
 {
   FILE *fp=fopen(file, "r");
@@ -247,19 +264,20 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
 
   // allocate memory
   size_t extraCount = min(m, n) - min(origM, origN);
-  double *values = MALLOC(double, count + extraCount);
-  int *colidx = MALLOC(int, count + extraCount);
-  int *rowidx = MALLOC(int, count + extraCount);
+  LoadBuffers buffers;
+  double *values = buffers.values = MALLOC(double, count + extraCount);
+  int *colidx = buffers.colidx = MALLOC(int, count + extraCount);
+  int *rowidx = buffers.rowidx = MALLOC(int, count + extraCount);
   if (!values || !colidx || !rowidx) {
     fprintf(stderr, "Failed to allocate memory\n");
     fclose(fp);
     return false;
   }
 
-  int *colidx_temp, *rowcnt = NULL;
+  int *colidx_temp = NULL, *rowcnt = NULL;
   if (isSymmetric) {
-    colidx_temp = MALLOC(int, count + extraCount);
-    rowcnt = MALLOC(int, m + 1);
+    colidx_temp = buffers.colidx_temp = MALLOC(int, count + extraCount);
+    rowcnt = buffers.rowcnt = MALLOC(int, m + 1);
     if (!colidx_temp || !rowcnt) {
       fprintf(stderr, "Failed to allocate memory\n");
       fclose(fp);
@@ -362,9 +380,6 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
       }
     }
     count = real_count;
-
-    FREE(rowcnt);
-    FREE(colidx_temp);
   }
 
   coo.m = m;
@@ -375,6 +390,8 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   coo.values = values;
   coo.colidx = colidx;
   coo.rowidx = rowidx;
+  buffers.values = NULL;
+  buffers.colidx = buffers.rowidx = NULL;
 
   return true;
 }
-- 
2.43.0


From 20343c17582d48f5ceee91b439c41b1266cffb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:59 +0000
Subject: [PATCH 54/61] fix: free the task graph when transitive edges are kept

---
 LevelSchedule.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 08b9d5b..7cf2823 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -1739,6 +1739,14 @@ void constructTaskGraph_(
         }
       }
 
+      if (!useMemoryPool) {
+        FREE(taskAdjacency.rowptr);
+        FREE(taskAdjacency.colidx);
+
+        FREE(taskInvAdjacency.rowptr);
+        FREE(taskInvAdjacency.colidx);
+      }
+
       taskAdjacency.~CSR();
       taskInvAdjacency.~CSR();
     } // omp single
-- 
2.43.0


From a766aadeee5e5bc2633774b182a6e1646ef63f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:51 +0000
Subject: [PATCH 55/61] fix: don't report Matrix Market lines that were written
 as failures

fprintf returns the number of characters, not of items.
---
 mm_io.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index b4d19b1..b966c8e 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -674,7 +674,7 @@ int mm_write_banner ( FILE *f, MM_typecode matcode )
 
     ret_code = fprintf(f, "%s %s\n", MatrixMarketBanner, str);
     free(str);
-    if (ret_code !=2 )
+    if (ret_code < 0)
         return MM_COULD_NOT_WRITE_FILE;
     else
         return 0;
@@ -694,7 +694,7 @@ int mm_write_mtx_array_size(FILE *f, int M, int N)
     31 October 2008
 */
 {
-    if (fprintf(f, "%d %d\n", M, N) != 2)
+    if (fprintf(f, "%d %d\n", M, N) < 0)
         return MM_COULD_NOT_WRITE_FILE;
     else 
         return 0;
@@ -781,7 +781,7 @@ int mm_write_mtx_crd_size ( FILE *f, int M, int N, int nz )
     Input, FILE *F, a pointer to the output file.
 */
 {
-  if ( fprintf ( f, "%d %d %d\n", M, N, nz ) != 3 )
+  if ( fprintf ( f, "%d %d %d\n", M, N, nz ) < 0 )
   {
     return MM_COULD_NOT_WRITE_FILE;
   }
-- 
2.43.0


From 2eaeb52a34be205ce042a88487c500413ca72cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:51 +0000
Subject: [PATCH 56/61] fix: read the entries of integer Matrix Market files in
 mm_read_mtx_crd

---
 mm_io.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index b966c8e..4f44349 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -281,7 +281,7 @@ int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J,
                 *matcode);
         if (ret_code != 0) return ret_code;
     }
-    else if (mm_is_real(*matcode))
+    else if (mm_is_real(*matcode) || mm_is_integer(*matcode))
     {
         *val = (double *) malloc(*nz * sizeof(double));
         ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, 
@@ -340,6 +340,17 @@ int mm_read_mtx_crd_data(FILE *f, int M, int N, int nz, int I[], int J[],
         }
     }
 
+    else if (mm_is_integer(matcode))
+    {
+        for (i=0; i<nz; i++)
+        {
+            long long integer;
+            if (fscanf(f, "%d %d %lld\n", &I[i], &J[i], &integer)
+                != 3) return MM_PREMATURE_EOF;
+            val[i] = integer;
+        }
+    }
+
     else if (mm_is_pattern(matcode))
     {
         for (i=0; i<nz; i++)
-- 
2.43.0


From 250058359630bd62200f35383d07fbd9c771fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:08 +0000
Subject: [PATCH 57/61] fix: close Matrix Market files that turn out unreadable

---
 mm_io.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 4f44349..b720800 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -222,6 +222,13 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
 }
 /******************************************************************************/
 
+static int close_file(FILE *f, int ret_code)
+{
+    if (f != stdin) fclose(f);
+    return ret_code;
+}
+/******************************************************************************/
+
 int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J, 
         double **val, MM_typecode *matcode)
 
@@ -260,14 +267,14 @@ int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J,
 
 
     if ((ret_code = mm_read_banner(f, matcode)) != 0)
-        return ret_code;
+        return close_file(f, ret_code);
 
     if (!(mm_is_valid(*matcode) && mm_is_sparse(*matcode) && 
             mm_is_matrix(*matcode)))
-        return MM_UNSUPPORTED_TYPE;
+        return close_file(f, MM_UNSUPPORTED_TYPE);
 
     if ((ret_code = mm_read_mtx_crd_size(f, M, N, nz)) != 0)
-        return ret_code;
+        return close_file(f, ret_code);
 
 
     *I = (int *)  malloc(*nz * sizeof(int));
@@ -279,25 +286,24 @@ int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J,
         *val = (double *) malloc(*nz * 2 * sizeof(double));
         ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, 
                 *matcode);
-        if (ret_code != 0) return ret_code;
+        if (ret_code != 0) return close_file(f, ret_code);
     }
     else if (mm_is_real(*matcode) || mm_is_integer(*matcode))
     {
         *val = (double *) malloc(*nz * sizeof(double));
         ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, 
                 *matcode);
-        if (ret_code != 0) return ret_code;
+        if (ret_code != 0) return close_file(f, ret_code);
     }
 
     else if (mm_is_pattern(*matcode))
     {
         ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, 
                 *matcode);
-        if (ret_code != 0) return ret_code;
+        if (ret_code != 0) return close_file(f, ret_code);
     }
 
-    if (f != stdin) fclose(f);
-    return 0;
+    return close_file(f, 0);
 }
 /******************************************************************************/
 
@@ -508,7 +514,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     {
         printf("mm_read_unsymetric: Could not process Matrix Market banner ");
         printf(" in file [%s]\n", fname);
-        return -1;
+        return close_file(f, -1);
     }
  
  
@@ -519,7 +525,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
         fprintf(stderr, "Sorry, this application does not support ");
         fprintf(stderr, "Market Market type: [%s]\n",
                 mm_typecode_to_str(matcode));
-        return -1;
+        return close_file(f, -1);
     }
  
 /* 
@@ -529,7 +535,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     if (mm_read_mtx_crd_size(f, &M, &N, &nz) !=0)
     {
         fprintf(stderr, "read_unsymmetric_sparse(): could not parse matrix size.\n");
-        return -1;
+        return close_file(f, -1);
     }
  
     *M_ = M;
-- 
2.43.0


From fa5cb12446ac6ab5c5b798366d3f4007ff6509fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:08 +0000
Subject: [PATCH 58/61] fix: report entries mm_read_unsymmetric_sparse cannot
 read

---
 mm_io.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index b720800..9dd6337 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -559,7 +559,11 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
  
     for (i=0; i<nz; i++)
     {
-        fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]);
+        if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]) != 3)
+        {
+            fprintf(stderr, "read_unsymmetric_sparse(): premature end of file.\n");
+            return close_file(f, -1);
+        }
 /*
   Adjust from 1-based to 0-based.
 */
-- 
2.43.0


From c862487961a07660fb7c7cb68b169af1b7cbd8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:47 +0000
Subject: [PATCH 59/61] fix: storing a matrix without values read NULL values

---
 COO.cpp |  3 ++-
 CSR.cpp | 21 ++++++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index cee65ae..6fa4a01 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -64,7 +64,8 @@ void COO::storeMatrixMarket(const char *fileName) const
   mm_initialize_typecode(&matcode);
   mm_set_matrix(&matcode);
   mm_set_sparse(&matcode);
-  mm_set_real(&matcode);
+  if (values) mm_set_real(&matcode);
+  else mm_set_pattern(&matcode);
 
   int err = mm_write_mtx_crd(
     (char *)fileName, m, n, nnz, rowidx, colidx, values, matcode);
diff --git a/CSR.cpp b/CSR.cpp
index 371f379..84e5dcc 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -298,7 +298,8 @@ void CSR::storeMatrixMarket(const char *fileName) const
   mm_initialize_typecode(&matcode);
   mm_set_matrix(&matcode);
   mm_set_sparse(&matcode);
-  mm_set_real(&matcode);
+  if (values) mm_set_real(&matcode);
+  else mm_set_pattern(&matcode);
 
   // print banner followed by typecode.
   fprintf(fp, "%s ", MatrixMarketBanner);
@@ -312,7 +313,12 @@ void CSR::storeMatrixMarket(const char *fileName) const
   // print values
   for (int i = 0; i < m; ++i) {
     for (int j = rowptr[i] - base; j < rowptr[i + 1] - base; ++j) {
-      fprintf(fp, "%d %d %24.17g\n", i + 1, colidx[j] - base + 1, values[j]);
+      if (values) {
+        fprintf(fp, "%d %d %24.17g\n", i + 1, colidx[j] - base + 1, values[j]);
+      }
+      else {
+        fprintf(fp, "%d %d\n", i + 1, colidx[j] - base + 1);
+      }
     }
   }
 
@@ -406,7 +412,16 @@ void CSR::storeBin(const char *fileName)
   free(rownnz);
 
   fwrite(colidx, sizeof(colidx[0]), nnz, fp);
-  fwrite(values, sizeof(values[0]), nnz, fp);
+  if (values) {
+    fwrite(values, sizeof(values[0]), nnz, fp);
+  }
+  else {
+    // the format has no patterns: entries count as 1, as in products
+    double one = 1;
+    for (int j = 0; j < nnz; ++j) {
+      fwrite(&one, sizeof(one), 1, fp);
+    }
+  }
 
   fclose(fp);
 
-- 
2.43.0


From 1fba28bfa36bc31098dd7c9a385cb16215016807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 60/61] fix: reject binary matrix files that are cut off or
 inconsistent

---
 CSR.cpp | 48 ++++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 84e5dcc..07b268f 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -330,6 +330,7 @@ static const int MAT_FILE_CLASSID = 1211216;
 void CSR::loadBin(const char *file_name, int base /*=0*/)
 {
   dealloc();
+  m = n = 0;
 
   FILE *fp = fopen(file_name, "r");
   if (!fp) {
@@ -337,27 +338,40 @@ void CSR::loadBin(const char *file_name, int base /*=0*/)
     return;
   }
 
-  int id;
-  fread(&id, sizeof(id), 1, fp);
-  if (MAT_FILE_CLASSID != id) {
-    fprintf(stderr, "Wrong file ID (%d)\n", id);
-  }
+  int id, nnz;
+  bool valid =
+    fread(&id, sizeof(id), 1, fp) == 1 && MAT_FILE_CLASSID == id &&
+    fread(&m, sizeof(m), 1, fp) == 1 && m >= 0 && m < INT_MAX &&
+    fread(&n, sizeof(n), 1, fp) == 1 && n >= 0 &&
+    fread(&nnz, sizeof(nnz), 1, fp) == 1 && nnz >= 0;
 
-  fread(&m, sizeof(m), 1, fp);
-  fread(&n, sizeof(n), 1, fp);
-  int nnz;
-  fread(&nnz, sizeof(nnz), 1, fp);
+  if (valid) {
+    alloc(m, nnz);
 
-  alloc(m, nnz);
+    valid = fread(rowptr + 1, sizeof(rowptr[0]), m, fp) == (size_t)m;
+    rowptr[0] = 0;
+    for (int i = 0; valid && i < m; ++i) {
+      // row lengths must add up to nnz
+      valid = rowptr[i + 1] >= 0 && rowptr[i + 1] <= nnz - rowptr[i];
+      if (valid) rowptr[i + 1] += rowptr[i];
+    }
 
-  fread(rowptr + 1, sizeof(rowptr[0]), m, fp);
-  rowptr[0] = 0;
-  for (int i = 1; i < m; ++i) {
-    rowptr[i + 1] += rowptr[i];
+    valid = valid && rowptr[m] == nnz &&
+      fread(colidx, sizeof(colidx[0]), nnz, fp) == (size_t)nnz &&
+      fread(values, sizeof(values[0]), nnz, fp) == (size_t)nnz;
+    for (int j = 0; valid && j < nnz; ++j) {
+      valid = colidx[j] >= 0;
+    }
   }
 
-  fread(colidx, sizeof(colidx[0]), nnz, fp);
-  fread(values, sizeof(values[0]), nnz, fp);
+  fclose(fp);
+
+  if (!valid) {
+    fprintf(stderr, "%s is not a valid binary matrix file\n", file_name);
+    dealloc();
+    m = n = 0;
+    return;
+  }
 
 #pragma omp parallel for
   for (int i = 0; i < m; ++i) {
@@ -370,8 +384,6 @@ void CSR::loadBin(const char *file_name, int base /*=0*/)
     }
   }
 
-  fclose(fp);
-
   if (1 == base) {
     make1BasedIndexing();
   }
-- 
2.43.0


From a97888a2fa99ec8384b5ac0083fcfee2abb32601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:30 +0000
Subject: [PATCH 61/61] fix: correctnessCheck accepted vectors with NaN

---
 Utils.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Utils.hpp b/Utils.hpp
index 088cec1..6d7561c 100644
--- a/Utils.hpp
+++ b/Utils.hpp
@@ -44,9 +44,11 @@ bool correctnessCheck(
   int n,
   double tol = 1e-5, double ignoreSmallerThanThis = 0) {
   for (int i = 0; i < n; ++i) {
-    if (fabs(expected[i] - actual[i])/fabs(expected[i]) >= tol &&
-      (fabs(expected[i]) >= ignoreSmallerThanThis ||
-        fabs(actual[i]) >= ignoreSmallerThanThis)) {
+    // comparisons with NaN are false: don't take it for a small difference
+    if (expected[i] != actual[i] &&
+      !(fabs(expected[i] - actual[i])/fabs(expected[i]) < tol) &&
+      !(fabs(expected[i]) < ignoreSmallerThanThis &&
+        fabs(actual[i]) < ignoreSmallerThanThis)) {
       printf("Error at %d expected %g actual %g\n", i, expected[i], actual[i]);
       assert(false);
       return false;
-- 
2.43.0

