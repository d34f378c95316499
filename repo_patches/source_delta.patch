From 136a66ecf6395727b024ef5b6891f23875faebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 01/57] fix: bounding-box direction must start its maximum from
 lowest(), not min(), for negative coordinates

---
 include/htool/clustering/tree_builder/direction_computation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/clustering/tree_builder/direction_computation.hpp b/include/htool/clustering/tree_builder/direction_computation.hpp
index 9ee1c8c..976439c 100644
--- a/include/htool/clustering/tree_builder/direction_computation.hpp
+++ b/include/htool/clustering/tree_builder/direction_computation.hpp
@@ -63,7 +63,7 @@ class ComputeBoundingBox final : public VirtualDirectionComputationStrategy<T> {
 
         // min max for each axis
         std::vector<T> min_point(spatial_dimension, std::numeric_limits<T>::max());
-        std::vector<T> max_point(spatial_dimension, std::numeric_limits<T>::min());
+        std::vector<T> max_point(spatial_dimension, std::numeric_limits<T>::lowest());
         for (int j = 0; j < cluster->get_size(); j++) {
             std::vector<T> u(spatial_dimension, 0);
             for (int p = 0; p < spatial_dimension; p++) {
-- 
2.43.0


From 3a06b3fd75133aa0f9d9fb087bf15b1e3959e23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 02/57] fix: principal direction of degenerate covariances
 (axis-aligned in 2D, multiple eigenvalue in 3D) was rounding noise or NaN

---
 include/htool/misc/evp.hpp | 42 +++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/include/htool/misc/evp.hpp b/include/htool/misc/evp.hpp
index 95eb27b..12958d1 100644
--- a/include/htool/misc/evp.hpp
+++ b/include/htool/misc/evp.hpp
@@ -3,6 +3,8 @@
 
 #include "../basic_types/vector.hpp" // for dprod
 #include "../matrix/matrix.hpp"      // for Matrix
+#include <algorithm>                 // for max
+#include <cmath>                     // for abs, sqrt
 #include <limits>                    // for numeric_limits
 #include <vector>                    // for vector
 
@@ -18,19 +20,19 @@ std::vector<T> solve_EVP_2(const Matrix<T> &cov) {
     Matrix<T> prod(2, 2);
     T trace = cov(0, 0) + cov(1, 1);
     T det   = cov(0, 0) * cov(1, 1) - cov(0, 1) * cov(1, 0);
-    eigs[0] = trace / static_cast<T>(2.) + std::sqrt((trace * trace / static_cast<T>(4.) - det));
-    eigs[1] = trace / static_cast<T>(2.) - std::sqrt((trace * trace / static_cast<T>(4.) - det));
+    T delta = std::sqrt(std::max(trace * trace / static_cast<T>(4.) - det, static_cast<T>(0)));
+    eigs[0] = trace / static_cast<T>(2.) + delta;
+    eigs[1] = trace / static_cast<T>(2.) - delta;
     if (std::abs(eigs[0]) > std::numeric_limits<T>::epsilon()) {
 
-        prod      = (cov - eigs[1] * I);
-        int ind   = 0;
-        T dirnorm = 0;
-        do {
-            dir[0]  = prod(0, ind);
-            dir[1]  = prod(1, ind);
-            dirnorm = std::sqrt(dir[0] * dir[0] + dir[1] * dir[1]);
-            ind++;
-        } while ((dirnorm < std::numeric_limits<T>::epsilon()) && (ind < 2));
+        prod = (cov - eigs[1] * I);
+        // largest column, the other one may contain nothing but rounding errors
+        T norm0   = std::sqrt(prod(0, 0) * prod(0, 0) + prod(1, 0) * prod(1, 0));
+        T norm1   = std::sqrt(prod(0, 1) * prod(0, 1) + prod(1, 1) * prod(1, 1));
+        int ind   = norm0 < norm1 ? 1 : 0;
+        T dirnorm = ind == 0 ? norm0 : norm1;
+        dir[0]    = prod(0, ind);
+        dir[1]    = prod(1, ind);
         if (dirnorm < std::numeric_limits<T>::epsilon()) {
             dir[0] = 1;
             dir[1] = 0;
@@ -133,10 +135,26 @@ std::vector<T> solve_EVP_3(const Matrix<T> &cov) {
                 imax = 1;
             }
             if (d2 > dmax) {
+                dmax = d2;
                 imax = 2;
             }
 
-            if (imax == 0) {
+            // largest column
+            T n0            = col0[0] * col0[0] + col0[1] * col0[1] + col0[2] * col0[2];
+            T n1            = col1[0] * col1[0] + col1[1] * col1[1] + col1[2] * col1[2];
+            T n2            = col2[0] * col2[0] + col2[1] * col2[1] + col2[2] * col2[2];
+            T nmax          = std::max(n0, std::max(n1, n2));
+            const T *colmax = nmax == n0 ? col0 : (nmax == n1 ? col1 : col2);
+
+            if (dmax <= std::numeric_limits<T>::epsilon() * nmax * nmax) {
+                // largest eigenvalue with multiplicity, the columns are parallel up to rounding errors: any direction orthogonal to them is an associated eigenvector.
+                int imin       = std::abs(colmax[0]) <= std::abs(colmax[1]) ? 0 : 1;
+                imin           = std::abs(colmax[imin]) <= std::abs(colmax[2]) ? imin : 2;
+                T colmax_norm2 = nmax > 0 ? nmax : static_cast<T>(1);
+                for (int i = 0; i < 3; i++)
+                    dir[i] = (i == imin ? static_cast<T>(1) : static_cast<T>(0)) - colmax[imin] * colmax[i] / colmax_norm2;
+                dir = dir / std::sqrt(dprod(dir, dir));
+            } else if (imax == 0) {
                 dir = c0xc1 / std::sqrt(d0);
             } else if (imax == 1) {
                 dir = c0xc2 / std::sqrt(d1);
-- 
2.43.0


From d1af6bb301254f5f276ae858496d696e504a12f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 03/57] fix: ACA stopped early on blocks with small
 coefficients because of an absolute zero-pivot threshold

---
 include/htool/hmatrix/lrmat/fullACA.hpp       |  8 ++++++--
 include/htool/hmatrix/lrmat/partialACA.hpp    | 10 +++++++---
 include/htool/hmatrix/lrmat/sympartialACA.hpp | 10 +++++++---
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/htool/hmatrix/lrmat/fullACA.hpp b/include/htool/hmatrix/lrmat/fullACA.hpp
index f8de95a..ef16cdb 100644
--- a/include/htool/hmatrix/lrmat/fullACA.hpp
+++ b/include/htool/hmatrix/lrmat/fullACA.hpp
@@ -56,7 +56,8 @@ class fullACA final : public VirtualLowRankGenerator<CoefficientPrecision, Coord
         int reqrank = rank;
         std::vector<std::vector<CoefficientPrecision>> uu;
         std::vector<std::vector<CoefficientPrecision>> vv;
-        double Norm = normFrob(mat);
+        double Norm           = normFrob(mat);
+        double zero_threshold = 1e-15;
 
         while (((reqrank > 0) && (q < std::min(reqrank, std::min(M, N)))) || ((reqrank < 0) && (normFrob(mat) / Norm > epsilon || q == 0))) {
 
@@ -67,10 +68,13 @@ class fullACA final : public VirtualLowRankGenerator<CoefficientPrecision, Coord
             } else {
                 std::pair<int, int> ind    = argmax(mat);
                 CoefficientPrecision pivot = mat(ind.first, ind.second);
-                if (std::abs(pivot) < 1e-15) {
+                if (std::abs(pivot) < zero_threshold) {
                     q += -1;
                     break;
                 }
+                if (q == 1) { // zero residuals are detected relatively to the first pivot for small coefficients
+                    zero_threshold *= std::min<double>(1, std::abs(pivot));
+                }
                 uu.push_back(mat.get_col(ind.second));
                 vv.push_back(mat.get_row(ind.first) / pivot);
 
diff --git a/include/htool/hmatrix/lrmat/partialACA.hpp b/include/htool/hmatrix/lrmat/partialACA.hpp
index d8262ee..8fe4f85 100644
--- a/include/htool/hmatrix/lrmat/partialACA.hpp
+++ b/include/htool/hmatrix/lrmat/partialACA.hpp
@@ -73,8 +73,9 @@ class partialACA final : public VirtualLowRankGenerator<CoefficientPrecision, Co
         std::vector<bool> visited_row(target_size, false);
         std::vector<bool> visited_col(source_size, false);
 
-        underlying_type<CoefficientPrecision> frob = 0;
-        underlying_type<CoefficientPrecision> aux  = 0;
+        underlying_type<CoefficientPrecision> frob           = 0;
+        underlying_type<CoefficientPrecision> aux            = 0;
+        underlying_type<CoefficientPrecision> zero_threshold = 1e-15;
         underlying_type<CoefficientPrecision> pivot, tmp;
         CoefficientPrecision coef;
         int incx(1), incy(1);
@@ -120,7 +121,7 @@ class partialACA final : public VirtualLowRankGenerator<CoefficientPrecision, Co
                 CoefficientPrecision gamma = CoefficientPrecision(1.) / r[J];
                 //==================//
                 // Look for a line
-                if (std::abs(r[J]) > 1e-15) {
+                if (std::abs(r[J]) > zero_threshold) {
                     std::fill(c.begin(), c.end(), CoefficientPrecision(0));
                     A.copy_submatrix(target_size, 1, target_offset, J + source_offset, c.data());
                     for (int k = 0; k < uu.size(); k++) {
@@ -160,6 +161,9 @@ class partialACA final : public VirtualLowRankGenerator<CoefficientPrecision, Co
                     // uu.push_back(M.get_col(J));
                     // vv.push_back(M.get_row(I)/M(I,J));
                     // New cross added
+                    if (q == 1) { // zero rows are detected relatively to the first pivot for small coefficients
+                        zero_threshold *= std::min<underlying_type<CoefficientPrecision>>(1, std::abs(r[J]));
+                    }
                     uu.push_back(c);
                     vv.push_back(r);
 
diff --git a/include/htool/hmatrix/lrmat/sympartialACA.hpp b/include/htool/hmatrix/lrmat/sympartialACA.hpp
index 36e4575..baa3a1a 100644
--- a/include/htool/hmatrix/lrmat/sympartialACA.hpp
+++ b/include/htool/hmatrix/lrmat/sympartialACA.hpp
@@ -89,8 +89,9 @@ class sympartialACA final : public VirtualLowRankGenerator<CoefficientPrecision,
         std::vector<bool> visited_1(n1, false);
         std::vector<bool> visited_2(n2, false);
 
-        underlying_type<CoefficientPrecision> frob = 0;
-        underlying_type<CoefficientPrecision> aux  = 0;
+        underlying_type<CoefficientPrecision> frob           = 0;
+        underlying_type<CoefficientPrecision> aux            = 0;
+        underlying_type<CoefficientPrecision> zero_threshold = 1e-15;
 
         underlying_type<CoefficientPrecision> pivot, tmp;
         CoefficientPrecision coef;
@@ -137,7 +138,7 @@ class sympartialACA final : public VirtualLowRankGenerator<CoefficientPrecision,
 
                 //==================//
                 // Look for a line
-                if (std::abs(u1[I2]) > 1e-15) {
+                if (std::abs(u1[I2]) > zero_threshold) {
                     std::fill(u2.begin(), u2.end(), CoefficientPrecision(0));
                     if (t.get_offset() >= s.get_offset()) {
                         A.copy_submatrix(n1, 1, i1, i2 + I2, u2.data());
@@ -180,6 +181,9 @@ class sympartialACA final : public VirtualLowRankGenerator<CoefficientPrecision,
                     // uu.push_back(M.get_col(J));
                     // vv.push_back(M.get_row(I)/M(I,J));
                     // New cross added
+                    if (q == 1) { // zero rows are detected relatively to the first pivot for small coefficients
+                        zero_threshold *= std::min<underlying_type<CoefficientPrecision>>(1, std::abs(u1[I2]));
+                    }
                     uu.push_back(u2);
                     vv.push_back(u1);
 
-- 
2.43.0


From 37496f03214ca0c24b12b0a8f3d76199e49401bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 04/57] fix: partial ACA stopped at the first zero residual
 row, leaving other rows unapproximated

---
 include/htool/hmatrix/lrmat/partialACA.hpp    | 14 ++++++++++----
 include/htool/hmatrix/lrmat/sympartialACA.hpp | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/htool/hmatrix/lrmat/partialACA.hpp b/include/htool/hmatrix/lrmat/partialACA.hpp
index 8fe4f85..2743174 100644
--- a/include/htool/hmatrix/lrmat/partialACA.hpp
+++ b/include/htool/hmatrix/lrmat/partialACA.hpp
@@ -9,9 +9,10 @@
 #include "../../misc/logger.hpp"                                // for Logger
 #include "../../misc/misc.hpp"                                  // for unde...
 #include "../../wrappers/wrapper_blas.hpp"                      // for Blas
-#include <algorithm>                                            // for min
+#include <algorithm>                                            // for find, min
 #include <cmath>                                                // for sqrt
 #include <complex>                                              // for real
+#include <iterator>                                             // for distance
 #include <string>                                               // for oper...
 #include <vector>                                               // for vector
 
@@ -168,12 +169,17 @@ class partialACA final : public VirtualLowRankGenerator<CoefficientPrecision, Co
                     vv.push_back(r);
 
                 } else {
+                    // zero row: the residual may not vanish on the rows that have not been visited yet
                     q -= 1;
-                    if (q == 0) { // corner case where first row is zero, ACA fails, we build a dense block instead
+                    I = std::distance(visited_row.begin(), std::find(visited_row.begin(), visited_row.end(), false));
+                    if (I < target_size) {
+                        continue;
+                    }
+                    if (q == 0) { // corner case where all rows are zero, ACA fails, we build a dense block instead
                         q = -1;
                     }
-                    htool::Logger::get_instance().log(LogLevel::WARNING, "ACA found a zero row in a " + std::to_string(target_size) + "x" + std::to_string(source_size) + " block. Final rank is " + std::to_string(q)); // LCOV_EXCL_LINE
-                    // std::cout << "[Htool warning] ACA found a zero row in a " + std::to_string(target_size) + "x" + std::to_string(source_size) + " block. Final rank is " + std::to_string(q) << std::endl;
+                    htool::Logger::get_instance().log(LogLevel::WARNING, "ACA found only zero rows in a " + std::to_string(target_size) + "x" + std::to_string(source_size) + " block. Final rank is " + std::to_string(q)); // LCOV_EXCL_LINE
+                    // std::cout << "[Htool warning] ACA found only zero rows in a " + std::to_string(target_size) + "x" + std::to_string(source_size) + " block. Final rank is " + std::to_string(q) << std::endl;
                     break;
                 }
             }
diff --git a/include/htool/hmatrix/lrmat/sympartialACA.hpp b/include/htool/hmatrix/lrmat/sympartialACA.hpp
index baa3a1a..107f2bc 100644
--- a/include/htool/hmatrix/lrmat/sympartialACA.hpp
+++ b/include/htool/hmatrix/lrmat/sympartialACA.hpp
@@ -9,9 +9,10 @@
 #include "../../misc/logger.hpp"                                // for Logger
 #include "../../misc/misc.hpp"                                  // for unde...
 #include "../../wrappers/wrapper_blas.hpp"                      // for Blas
-#include <algorithm>                                            // for min
+#include <algorithm>                                            // for find, min
 #include <cmath>                                                // for sqrt
 #include <complex>                                              // for real
+#include <iterator>                                             // for distance
 #include <string>                                               // for to_s...
 #include <vector>                                               // for vector
 
@@ -188,12 +189,17 @@ class sympartialACA final : public VirtualLowRankGenerator<CoefficientPrecision,
                     vv.push_back(u1);
 
                 } else {
+                    // zero row: the residual may not vanish on the rows that have not been visited yet
                     q -= 1;
-                    if (q == 0) { // corner case where first row is zero, ACA fails, we build a dense block instead
+                    I1 = std::distance(visited_1.begin(), std::find(visited_1.begin(), visited_1.end(), false));
+                    if (I1 < n1) {
+                        continue;
+                    }
+                    if (q == 0) { // corner case where all rows are zero, ACA fails, we build a dense block instead
                         q = -1;
                     }
-                    htool::Logger::get_instance().log(LogLevel::WARNING, "ACA found a zero row in a " + std::to_string(t.get_size()) + "x" + std::to_string(s.get_size()) + " block. Final rank is " + std::to_string(q)); // LCOV_EXCL_LINE
-                    // std::cout << "[Htool warning] ACA found a zero row in a " + std::to_string(t.get_size()) + "x" + std::to_string(s.get_size()) + " block. Final rank is " + std::to_string(q) << std::endl;
+                    htool::Logger::get_instance().log(LogLevel::WARNING, "ACA found only zero rows in a " + std::to_string(t.get_size()) + "x" + std::to_string(s.get_size()) + " block. Final rank is " + std::to_string(q)); // LCOV_EXCL_LINE
+                    // std::cout << "[Htool warning] ACA found only zero rows in a " + std::to_string(t.get_size()) + "x" + std::to_string(s.get_size()) + " block. Final rank is " + std::to_string(q) << std::endl;
                     break;
                 }
             }
-- 
2.43.0


From d2bad4193eaacbccaca50470d1d3201c8b2033cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 05/57] fix: products with a rank-zero low-rank matrix ignored
 beta and left the result unset

---
 .../hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp      | 8 ++++++++
 .../hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp     | 8 ++++++++
 .../lrmat/linalg/add_lrmat_matrix_product_row_major.hpp   | 4 ++++
 .../hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp     | 4 ++++
 .../hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp     | 8 ++++++++
 5 files changed, 32 insertions(+)

diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
index a9a026d..228bee4 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
@@ -8,6 +8,7 @@
 #include "../../../misc/misc.hpp"                               // for conj...
 #include "../lrmat.hpp"                                         // for LowR...
 #include "add_lrmat_matrix_product.hpp"                         // for add_...
+#include "scale.hpp"                                            // for scale
 #include <algorithm>                                            // for copy_n
 
 namespace htool {
@@ -28,6 +29,8 @@ void add_lrmat_lrmat_product(char transa, char transb, CoefficientPrecision alph
             add_lrmat_matrix_product(transa, transb, CoefficientPrecision(1), A, V_B, CoefficientPrecision(0), AVBt);
             add_matrix_matrix_product('N', transb, alpha, AVBt, U_B, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -95,6 +98,11 @@ void add_lrmat_lrmat_product(char transa, char transb, CoefficientPrecision alph
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta == CoefficientPrecision(0) || C.rank_of() == 0) {
+        C.get_U().resize(transa == 'N' ? A.nb_rows() : A.nb_cols(), 0);
+        C.get_V().resize(0, transb == 'N' ? B.nb_cols() : B.nb_rows());
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
index d921453..224f70b 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
@@ -8,6 +8,7 @@
 #include "../utils/recompression.hpp"                           // for reco...
 #include "htool/matrix/matrix.hpp"                              // for Matrix
 #include "htool/misc/misc.hpp"                                  // for conj...
+#include "scale.hpp"                                            // for scale
 #include <algorithm>                                            // for copy_n
 
 namespace htool {
@@ -29,6 +30,8 @@ void add_lrmat_matrix_product(char transa, char transb, CoefficientPrecision alp
             add_matrix_matrix_product<CoefficientPrecision>(transa, transb, 1, U, B, 0, UtB);
             add_matrix_matrix_product<CoefficientPrecision>(transa, 'N', alpha, V, UtB, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -103,6 +106,11 @@ void add_lrmat_matrix_product(char transa, char transb, CoefficientPrecision alp
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta == CoefficientPrecision(0) || C.rank_of() == 0) {
+        C.get_U().resize(transa == 'N' ? A.nb_rows() : A.nb_cols(), 0);
+        C.get_V().resize(0, transb == 'N' ? B.nb_cols() : B.nb_rows());
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
index 434b68e..7a3912e 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
@@ -3,6 +3,7 @@
 
 #include "../../../matrix/linalg/add_matrix_matrix_product_row_major.hpp"
 #include "../lrmat.hpp"
+#include <algorithm>
 #include <vector>
 
 namespace htool {
@@ -23,6 +24,9 @@ void add_lrmat_matrix_product_row_major(char transa, char transb, CoefficientPre
             add_matrix_matrix_product_row_major(transa, transb, CoefficientPrecision(1), U, in, CoefficientPrecision(0), a.data(), mu);
             add_matrix_matrix_product_row_major(transa, 'N', alpha, V, a.data(), beta, out, mu);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        int out_size = ((transa == 'N') ? A.nb_rows() : A.nb_cols()) * mu;
+        std::transform(out, out + out_size, out, [&beta](CoefficientPrecision &c) { return c * beta; });
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
index bc34cd7..7ce8850 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
@@ -2,6 +2,7 @@
 #define HTOOL_LRMAT_LINALG_ADD_LRMAT_VECTOR_PRODUCT_HPP
 #include "../../../matrix/linalg/add_matrix_vector_product.hpp" // for add_...
 #include "../lrmat.hpp"                                         // for LowR...
+#include <algorithm>                                            // for transform
 #include <vector>                                               // for vector
 namespace htool {
 
@@ -20,6 +21,9 @@ void add_lrmat_vector_product(char trans, CoefficientPrecision alpha, const LowR
             add_matrix_vector_product<CoefficientPrecision>(trans, CoefficientPrecision(1.), U, in, 0, a.data());
             add_matrix_vector_product<CoefficientPrecision>(trans, alpha, V, a.data(), beta, out);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        int out_size = (trans == 'N') ? A.nb_rows() : A.nb_cols();
+        std::transform(out, out + out_size, out, [&beta](CoefficientPrecision &c) { return c * beta; });
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
index b50a74a..492e924 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
@@ -8,6 +8,7 @@
 #include "../../../misc/misc.hpp"                               // for conj...
 #include "../lrmat.hpp"                                         // for LowR...
 #include "../utils/recompression.hpp"                           // for reco...
+#include "scale.hpp"                                            // for scale
 #include <algorithm>                                            // for copy_n
 
 namespace htool {
@@ -32,6 +33,8 @@ void add_matrix_lrmat_product(char transa, char transb, CoefficientPrecision alp
             add_matrix_matrix_product<CoefficientPrecision>(transa, transb, 1, A, V, 0, AU);
             add_matrix_matrix_product<CoefficientPrecision>('N', transb, alpha, AU, U, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -107,6 +110,11 @@ void add_matrix_lrmat_product(char transa, char transb, CoefficientPrecision alp
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta == CoefficientPrecision(0) || C.rank_of() == 0) {
+        C.get_U().resize(transa == 'N' ? A.nb_rows() : A.nb_cols(), 0);
+        C.get_V().resize(0, transb == 'N' ? B.nb_cols() : B.nb_rows());
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
-- 
2.43.0


From 3abe5ff4377b19197caa0c9ead301a0c96873cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 06/57] fix: matrix times symmetric H-matrix read out of bounds
 on rectangular H-matrices and was wrong for transposed matrix times Hermitian
 H-matrix

---
 .../linalg/add_matrix_hmatrix_product.hpp     | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
index b959315..9d9cbfe 100644
--- a/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
@@ -19,32 +19,31 @@ namespace htool {
 template <typename CoefficientPrecision, typename CoordinatePrecision = CoefficientPrecision>
 void internal_add_matrix_hmatrix_product(char transa, char transb, CoefficientPrecision alpha, const Matrix<CoefficientPrecision> &A, const HMatrix<CoefficientPrecision, CoordinatePrecision> &B, CoefficientPrecision beta, Matrix<CoefficientPrecision> &C) {
 
-    char new_transa = transb == 'N' ? 'T' : 'N';
-    new_transa      = B.get_symmetry_for_leaves() == 'H' and transb == 'N' ? 'N' : new_transa;
-    new_transa      = B.get_symmetry_for_leaves() == 'S' and transb == 'N' ? 'N' : new_transa;
+    // C^T = op(B)^T op(A)^T, conjugated when op(B)^T is only available as B or B^H
+    bool need_conj  = transb == 'C' or (B.get_symmetry_for_leaves() == 'H' and transb == 'N');
+    char new_transa = transb != 'N' ? 'N' : (need_conj ? 'C' : 'T');
     if (transa == 'N') {
-        bool need_buffer_for_conj = transb == 'C' or (B.get_symmetry_for_leaves() == 'H' and transb == 'N');
-        std::vector<CoefficientPrecision> buffer_A(need_buffer_for_conj ? A.nb_cols() * A.nb_rows() : 0);
-        if (need_buffer_for_conj) {
+        std::vector<CoefficientPrecision> buffer_A(need_conj ? A.nb_cols() * A.nb_rows() : 0);
+        if (need_conj) {
             std::copy(A.data(), A.data() + A.nb_cols() * A.nb_rows(), buffer_A.data());
             conj_if_complex(buffer_A.data(), buffer_A.size());
             conj_if_complex(C.data(), C.nb_rows() * C.nb_cols());
         }
-        sequential_internal_add_hmatrix_matrix_product_row_major(new_transa, 'N', need_buffer_for_conj ? conj_if_complex(alpha) : alpha, B, need_buffer_for_conj ? buffer_A.data() : A.data(), need_buffer_for_conj ? conj_if_complex(beta) : beta, C.data(), C.nb_rows());
-        if (need_buffer_for_conj) {
+        sequential_internal_add_hmatrix_matrix_product_row_major(new_transa, 'N', need_conj ? conj_if_complex(alpha) : alpha, B, need_conj ? buffer_A.data() : A.data(), need_conj ? conj_if_complex(beta) : beta, C.data(), C.nb_rows());
+        if (need_conj) {
             conj_if_complex(C.data(), C.nb_rows() * C.nb_cols());
         }
     } else {
         Matrix<CoefficientPrecision> transposed_A(A.nb_cols(), A.nb_rows());
         transpose(A, transposed_A);
-        if (transb == 'C') {
+        if (need_conj) {
             conj_if_complex(C.data(), C.nb_rows() * C.nb_cols());
         }
-        if ((transa == 'T' && transb == 'C') or (transa == 'C' and transb != 'C')) {
+        if ((transa == 'T' && need_conj) or (transa == 'C' and !need_conj)) {
             conj_if_complex(transposed_A.data(), transposed_A.nb_rows() * transposed_A.nb_cols());
         }
-        sequential_internal_add_hmatrix_matrix_product_row_major(new_transa, 'N', transb == 'C' ? conj_if_complex(alpha) : alpha, B, transposed_A.data(), transb == 'C' ? conj_if_complex(beta) : beta, C.data(), C.nb_rows());
-        if (transb == 'C') {
+        sequential_internal_add_hmatrix_matrix_product_row_major(new_transa, 'N', need_conj ? conj_if_complex(alpha) : alpha, B, transposed_A.data(), need_conj ? conj_if_complex(beta) : beta, C.data(), C.nb_rows());
+        if (need_conj) {
             conj_if_complex(C.data(), C.nb_rows() * C.nb_cols());
         }
     }
-- 
2.43.0


From d813bb311a7cdeb835a8980d16372440ed1b34bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 07/57] fix: unsupported transposed products of symmetric
 H-matrices by a vector were answered wrongly without being reported

---
 .../hmatrix/linalg/add_hmatrix_vector_product.hpp     | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp
index 91da819..8f5da01 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_vector_product.hpp
@@ -2,12 +2,14 @@
 #define HTOOL_HMATRIX_LINALG_ADD_HMATRIX_VECTOR_PRODUCT_HPP
 
 #include "../../matrix/linalg/add_matrix_vector_product.hpp" // for add_mat...
+#include "../../misc/logger.hpp"                             // for Logger
 #include "../../misc/misc.hpp"                               // for underly...
 #include "../../wrappers/wrapper_blas.hpp"                   // for Blas
 #include "../hmatrix.hpp"                                    // for HMatrix
 #include "../lrmat/linalg/add_lrmat_vector_product.hpp"      // for add_lrm...
 #include <algorithm>                                         // for transform
 #include <complex>                                           // for complex
+#include <string>                                            // for string
 #include <vector>                                            // for vector
 
 namespace htool {
@@ -54,6 +56,10 @@ void internal_add_hmatrix_vector_product(char trans, std::complex<CoefficientPre
 
 template <typename CoefficientPrecision, typename CoordinatePrecision = CoefficientPrecision>
 void sequential_internal_add_hmatrix_vector_product(char trans, CoefficientPrecision alpha, const HMatrix<CoefficientPrecision, CoordinatePrecision> &A, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out) {
+    if ((trans == 'T' && A.get_symmetry_for_leaves() == 'H')
+        || (trans == 'C' && A.get_symmetry_for_leaves() == 'S')) {
+        htool::Logger::get_instance().log(LogLevel::ERROR, "Operation is not supported (trans=" + std::string(1, trans) + " with " + A.get_symmetry_for_leaves() + ")"); // LCOV_EXCL_LINE
+    }
 
     int out_size(A.get_target_cluster().get_size());
     auto get_output_cluster{&HMatrix<CoefficientPrecision, CoordinatePrecision>::get_target_cluster};
@@ -102,6 +108,11 @@ void openmp_internal_add_hmatrix_vector_product(char trans, CoefficientPrecision
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> leaves_for_symmetry;
     std::tie(leaves, leaves_for_symmetry) = get_leaves_from(A); // C++17 structured binding
 
+    if ((trans == 'T' && A.get_symmetry_for_leaves() == 'H')
+        || (trans == 'C' && A.get_symmetry_for_leaves() == 'S')) {
+        htool::Logger::get_instance().log(LogLevel::ERROR, "Operation is not supported (trans=" + std::string(1, trans) + " with " + A.get_symmetry_for_leaves() + ")"); // LCOV_EXCL_LINE
+    }
+
     int out_size(A.get_target_cluster().get_size());
     auto get_output_cluster{&HMatrix<CoefficientPrecision, CoordinatePrecision>::get_target_cluster};
     auto get_input_cluster{&HMatrix<CoefficientPrecision, CoordinatePrecision>::get_source_cluster};
-- 
2.43.0


From 325f318f8ea2597b7dcf8fd1c84cb34bda090858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 08/57] fix: densifying, recompressing or adding a rank-zero
 low-rank matrix passed invalid sizes to BLAS/LAPACK

---
 include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp  | 3 +++
 include/htool/hmatrix/lrmat/lrmat.hpp               | 4 ++--
 include/htool/hmatrix/lrmat/utils/recompression.hpp | 3 +++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp b/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp
index 520d7b3..b387973 100644
--- a/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp
+++ b/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp
@@ -13,6 +13,9 @@ namespace htool {
 
 template <typename CoefficientPrecision, typename CoordinatePrecision = CoefficientPrecision>
 void internal_add_lrmat_hmatrix(const LowRankMatrix<CoefficientPrecision, CoordinatePrecision> &lrmat, HMatrix<CoefficientPrecision, CoordinatePrecision> &hmatrix) {
+    if (lrmat.rank_of() == 0) {
+        return;
+    }
     std::vector<HMatrix<CoefficientPrecision, CoordinatePrecision> *> leaves;
     preorder_tree_traversal(hmatrix, [&leaves](HMatrix<CoefficientPrecision, CoordinatePrecision> &current_node) {
         if (!current_node.is_hierarchical()) {
diff --git a/include/htool/hmatrix/lrmat/lrmat.hpp b/include/htool/hmatrix/lrmat/lrmat.hpp
index d4cc908..2dc2dc3 100644
--- a/include/htool/hmatrix/lrmat/lrmat.hpp
+++ b/include/htool/hmatrix/lrmat/lrmat.hpp
@@ -7,7 +7,7 @@
 #include "../../misc/misc.hpp"                            // for underlying_type
 #include "../../wrappers/wrapper_blas.hpp"                // for Blas
 #include "../interfaces/virtual_lrmat_generator.hpp"      // for VirtualLowRankG...
-#include <algorithm>                                      // for fill
+#include <algorithm>                                      // for fill, max
 #include <vector>                                         // for vector
 
 namespace htool {
@@ -127,7 +127,7 @@ class LowRankMatrix {
         int K                      = m_U.nb_cols();
         CoefficientPrecision alpha = 1;
         int lda                    = m_U.nb_rows();
-        int ldb                    = m_V.nb_rows();
+        int ldb                    = std::max(1, m_V.nb_rows());
         CoefficientPrecision beta  = 0;
         int ldc                    = m_U.nb_rows();
 
diff --git a/include/htool/hmatrix/lrmat/utils/recompression.hpp b/include/htool/hmatrix/lrmat/utils/recompression.hpp
index 7e64e13..9f10809 100644
--- a/include/htool/hmatrix/lrmat/utils/recompression.hpp
+++ b/include/htool/hmatrix/lrmat/utils/recompression.hpp
@@ -17,6 +17,9 @@ namespace htool {
 
 template <typename CoefficientPrecision>
 void recompression(LowRankMatrix<CoefficientPrecision> &lrmat) {
+    if (lrmat.rank_of() == 0) {
+        return;
+    }
     Matrix<CoefficientPrecision> U = lrmat.get_U();
     Matrix<CoefficientPrecision> V = lrmat.get_V();
     auto rank                      = lrmat.rank_of();
-- 
2.43.0


From f337f0cf1fb9926e832f840fc65c96736602e0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 09/57] fix: product of an H-matrix with a rank-zero low-rank
 matrix ignored beta

---
 .../htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp    | 8 ++++++++
 .../htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp    | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
index 9f64341..62a4755 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
@@ -6,6 +6,7 @@
 #include "../../matrix/matrix.hpp"           // for Matrix
 #include "../../misc/misc.hpp"               // for conj_if_complex
 #include "../hmatrix.hpp"                    // for HMatrix
+#include "../lrmat/linalg/scale.hpp"         // for scale
 #include "../lrmat/lrmat.hpp"                // for LowRankMatrix
 #include "../lrmat/utils/recompression.hpp"  // for recompression
 #include "add_hmatrix_matrix_product.hpp"    // for add_hmatrix_m...
@@ -34,6 +35,8 @@ void internal_add_hmatrix_lrmat_product(char transa, char transb, CoefficientPre
             internal_add_hmatrix_matrix_product<CoefficientPrecision>(transa, transb, 1, A, V, 0, AU);
             add_matrix_matrix_product<CoefficientPrecision>('N', transb, alpha, AU, U, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -110,6 +113,11 @@ void internal_add_hmatrix_lrmat_product(char transa, char transb, CoefficientPre
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta == CoefficientPrecision(0) || C.rank_of() == 0) {
+        C.get_U().resize(transa == 'N' ? A.nb_rows() : A.nb_cols(), 0);
+        C.get_V().resize(0, transb == 'N' ? B.nb_cols() : B.nb_rows());
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
diff --git a/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
index eaccdf2..9d10f9e 100644
--- a/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
@@ -6,6 +6,7 @@
 #include "../../matrix/matrix.hpp"           // for Matrix
 #include "../../misc/misc.hpp"               // for conj_if_complex
 #include "../hmatrix.hpp"                    // for HMatrix
+#include "../lrmat/linalg/scale.hpp"         // for scale
 #include "../lrmat/lrmat.hpp"                // for LowRankMatrix
 #include "../lrmat/utils/recompression.hpp"  // for recompression
 #include "add_lrmat_hmatrix.hpp"             // for add_lrmat_hma...
@@ -29,6 +30,8 @@ void internal_add_lrmat_hmatrix_product(char transa, char transb, CoefficientPre
             internal_add_matrix_hmatrix_product<CoefficientPrecision>(transa, transb, CoefficientPrecision(1), U, B, CoefficientPrecision(0), UtB);
             add_matrix_matrix_product<CoefficientPrecision>(transa, 'N', alpha, V, UtB, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -100,6 +103,11 @@ void internal_add_lrmat_hmatrix_product(char transa, char transb, CoefficientPre
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta == CoefficientPrecision(0) || C.rank_of() == 0) {
+        C.get_U().resize(transa == 'N' ? A.nb_rows() : A.nb_cols(), 0);
+        C.get_V().resize(0, transb == 'N' ? B.nb_cols() : B.nb_rows());
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
-- 
2.43.0


From af32408723ccab25a7506f552458ad49b4a65297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 10/57] fix: H-matrix products into a hierarchical H-matrix
 ignored beta when an operand was a single block

---
 .../linalg/add_hmatrix_hmatrix_product.hpp    | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
index 4a23020..9e0eff3 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
@@ -214,10 +214,10 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
     } else if (C.is_low_rank()) {
         internal_add_hmatrix_hmatrix_product(transa, transb, alpha, A, B, beta, *C.get_low_rank_data());
     } else {
+        if (beta != CoefficientPrecision(1)) {
+            sequential_scale(beta, C);
+        }
         if (A.is_hierarchical() and B.is_hierarchical()) {
-            if (beta != CoefficientPrecision(1)) {
-                sequential_scale(beta, C);
-            }
             bool block_tree_not_consistent = (A.get_target_cluster().get_rank() < 0 || A.get_source_cluster().get_rank() < 0 || B.get_target_cluster().get_rank() < 0 || B.get_source_cluster().get_rank() < 0);
 
             std::vector<const Cluster<CoordinatePrecision> *> output_clusters, middle_clusters, input_clusters;
@@ -279,26 +279,26 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
                 LowRankMatrix<CoefficientPrecision, CoordinatePrecision> lrmat(A.is_low_rank() ? A.get_low_rank_data()->get_epsilon() : B.get_low_rank_data()->get_epsilon());
 
                 if (A.is_dense() and B.is_low_rank()) {
-                    add_matrix_lrmat_product(transa, transb, alpha, *A.get_dense_data(), *B.get_low_rank_data(), beta, lrmat);
+                    add_matrix_lrmat_product(transa, transb, alpha, *A.get_dense_data(), *B.get_low_rank_data(), CoefficientPrecision(1), lrmat);
                 } else if (A.is_hierarchical() and B.is_low_rank()) {
-                    internal_add_hmatrix_lrmat_product(transa, transb, alpha, A, *B.get_low_rank_data(), beta, lrmat);
+                    internal_add_hmatrix_lrmat_product(transa, transb, alpha, A, *B.get_low_rank_data(), CoefficientPrecision(1), lrmat);
                 } else if (A.is_low_rank() and B.is_low_rank()) {
-                    add_lrmat_lrmat_product(transa, transb, alpha, *A.get_low_rank_data(), *B.get_low_rank_data(), beta, lrmat);
+                    add_lrmat_lrmat_product(transa, transb, alpha, *A.get_low_rank_data(), *B.get_low_rank_data(), CoefficientPrecision(1), lrmat);
                 } else if (A.is_low_rank() and B.is_dense()) {
-                    add_lrmat_matrix_product(transa, transb, alpha, *A.get_low_rank_data(), *B.get_dense_data(), beta, lrmat);
+                    add_lrmat_matrix_product(transa, transb, alpha, *A.get_low_rank_data(), *B.get_dense_data(), CoefficientPrecision(1), lrmat);
                 } else if (A.is_low_rank() and B.is_hierarchical()) {
-                    internal_add_lrmat_hmatrix_product(transa, transb, alpha, *A.get_low_rank_data(), B, beta, lrmat);
+                    internal_add_lrmat_hmatrix_product(transa, transb, alpha, *A.get_low_rank_data(), B, CoefficientPrecision(1), lrmat);
                 }
 
                 internal_add_lrmat_hmatrix(lrmat, C);
             } else {
                 LowRankMatrix<CoefficientPrecision, CoordinatePrecision> lrmat(C.get_epsilon());
                 if (A.is_dense() and B.is_dense()) {
-                    add_matrix_matrix_product(transa, transb, alpha, *A.get_dense_data(), *B.get_dense_data(), beta, lrmat);
+                    add_matrix_matrix_product(transa, transb, alpha, *A.get_dense_data(), *B.get_dense_data(), CoefficientPrecision(1), lrmat);
                 } else if (A.is_dense() and B.is_hierarchical()) {
-                    internal_add_matrix_hmatrix_product(transa, transb, alpha, *A.get_dense_data(), B, beta, lrmat);
+                    internal_add_matrix_hmatrix_product(transa, transb, alpha, *A.get_dense_data(), B, CoefficientPrecision(1), lrmat);
                 } else if (A.is_hierarchical() and B.is_dense()) {
-                    internal_add_hmatrix_matrix_product(transa, transb, alpha, A, *B.get_dense_data(), beta, lrmat);
+                    internal_add_hmatrix_matrix_product(transa, transb, alpha, A, *B.get_dense_data(), CoefficientPrecision(1), lrmat);
                 }
 
                 internal_add_lrmat_hmatrix(lrmat, C);
-- 
2.43.0


From c61f98db4ef440e73941d089ef57ece26ad49bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:07 +0000
Subject: [PATCH 11/57] fix: product of root H-matrices into an H-matrix
 skipped partition clusters that are not direct children of the root

---
 .../htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
index 9e0eff3..9f7321f 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
@@ -265,11 +265,11 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
             for (auto &output_cluster_child : output_clusters) {
                 for (auto &input_cluster_child : input_clusters) {
                     for (auto &middle_cluster_child : middle_clusters) {
-                        auto &&A_child = (transa == 'N') ? A.get_child_or_this(*output_cluster_child, *middle_cluster_child) : A.get_child_or_this(*middle_cluster_child, *output_cluster_child);
-                        auto &&B_child = (transb == 'N') ? B.get_child_or_this(*middle_cluster_child, *input_cluster_child) : B.get_child_or_this(*input_cluster_child, *middle_cluster_child);
-                        auto &&C_child = C.get_child_or_this(*output_cluster_child, *input_cluster_child);
+                        auto &&A_child = (transa == 'N') ? A.get_sub_hmatrix(*output_cluster_child, *middle_cluster_child) : A.get_sub_hmatrix(*middle_cluster_child, *output_cluster_child);
+                        auto &&B_child = (transb == 'N') ? B.get_sub_hmatrix(*middle_cluster_child, *input_cluster_child) : B.get_sub_hmatrix(*input_cluster_child, *middle_cluster_child);
+                        auto &&C_child = C.get_sub_hmatrix(*output_cluster_child, *input_cluster_child);
                         if (A_child != nullptr && B_child != nullptr && C_child != nullptr) {
-                            internal_add_hmatrix_hmatrix_product(transa, transb, alpha, *A_child, *B_child, CoefficientPrecision(1), *C.get_child_or_this(*output_cluster_child, *input_cluster_child));
+                            internal_add_hmatrix_hmatrix_product(transa, transb, alpha, *A_child, *B_child, CoefficientPrecision(1), *C_child);
                         }
                     }
                 }
-- 
2.43.0


From 31b1b17598cd6274be4750e60930c626cd35980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:45 +0000
Subject: [PATCH 12/57] fix: Cholesky Schur complement of an off-diagonal block
 uses both panel blocks

With more than two children (or partition clusters) the update of block (i,j)
used the same panel block on both sides instead of L(i,k)*L(j,k)^H (resp.
U(k,i)^H*U(k,j)), giving wrong factors or out-of-bounds accesses.
---
 include/htool/hmatrix/linalg/factorization.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/htool/hmatrix/linalg/factorization.hpp b/include/htool/hmatrix/linalg/factorization.hpp
index 6124716..6df4e2f 100644
--- a/include/htool/hmatrix/linalg/factorization.hpp
+++ b/include/htool/hmatrix/linalg/factorization.hpp
@@ -132,20 +132,22 @@ void cholesky_factorization(char UPLO, HMatrix<CoefficientPrecision, CoordinateP
                 for (auto &input_cluster_child : clusters) {
                     if (UPLO == 'L' && output_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() > cluster_child->get_offset() && output_cluster_child->get_offset() >= input_cluster_child->get_offset()) {
                         HMatrix<CoefficientPrecision, CoordinatePrecision> *A_child = hmatrix.get_sub_hmatrix(*output_cluster_child, *input_cluster_child);
-                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *L = hmatrix.get_sub_hmatrix(*output_cluster_child, *cluster_child);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *L_output = hmatrix.get_sub_hmatrix(*output_cluster_child, *cluster_child);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *L_input = hmatrix.get_sub_hmatrix(*input_cluster_child, *cluster_child);
 
                         // if (*output_cluster_child == *input_cluster_child) {
                         //     symmetric_rank_k_update(UPLO, 'N', CoefficientPrecision(-1), *L, CoefficientPrecision(1), *A_child);
                         // } else {
-                        internal_add_hmatrix_hmatrix_product('N', is_complex<CoefficientPrecision>() ? 'C' : 'T', CoefficientPrecision(-1), *L, *L, CoefficientPrecision(1), *A_child);
+                        internal_add_hmatrix_hmatrix_product('N', is_complex<CoefficientPrecision>() ? 'C' : 'T', CoefficientPrecision(-1), *L_output, *L_input, CoefficientPrecision(1), *A_child);
                         // }
                     } else if (UPLO == 'U' && output_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() >= output_cluster_child->get_offset()) {
                         HMatrix<CoefficientPrecision, CoordinatePrecision> *A_child = hmatrix.get_sub_hmatrix(*output_cluster_child, *input_cluster_child);
-                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *U = hmatrix.get_sub_hmatrix(*cluster_child, *input_cluster_child);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *U_output = hmatrix.get_sub_hmatrix(*cluster_child, *output_cluster_child);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *U_input = hmatrix.get_sub_hmatrix(*cluster_child, *input_cluster_child);
                         // if (*output_cluster_child == *input_cluster_child) {
                         //     symmetric_rank_k_update(UPLO, 'C', CoefficientPrecision(-1), *U, CoefficientPrecision(1), *A_child);
                         // } else {
-                        internal_add_hmatrix_hmatrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), *U, *U, CoefficientPrecision(1), *A_child);
+                        internal_add_hmatrix_hmatrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), *U_output, *U_input, CoefficientPrecision(1), *A_child);
                         // }
                     }
                 }
-- 
2.43.0


From 65ef8f6c37d24ce67ca9659b84d69caedcbbd2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:45 +0000
Subject: [PATCH 13/57] fix: triangular solve with an empty right-hand side
 returns instead of calling BLAS with ldb=0

Rank-zero low-rank blocks met during an H-matrix factorisation passed an
invalid leading dimension to trsm (xerbla stops the program).
---
 include/htool/matrix/linalg/factorization.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/htool/matrix/linalg/factorization.hpp b/include/htool/matrix/linalg/factorization.hpp
index 02619b0..0bd8172 100644
--- a/include/htool/matrix/linalg/factorization.hpp
+++ b/include/htool/matrix/linalg/factorization.hpp
@@ -26,6 +26,9 @@ void triangular_matrix_matrix_solve(char side, char UPLO, char transa, char diag
     int n           = B.nb_cols();
     int lda         = side == 'L' ? m : n;
     int ldb         = m;
+    if (m == 0 || n == 0) { // e.g. a factor of a low-rank matrix of rank zero
+        return;
+    }
     auto &ipiv      = A.get_pivots();
     bool is_pivoted = false;
 
-- 
2.43.0


From a162cbc068dc26f7e6791f9062ad1f3343bf7640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 14/57] fix: triangular H-matrix solve with a low-rank
 right-hand side of rank zero returns at once

The recursive solve passed empty panels to gemm with a zero leading dimension.
---
 .../htool/hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/htool/hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp b/include/htool/hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp
index afb4ed5..623cb0e 100644
--- a/include/htool/hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp
+++ b/include/htool/hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp
@@ -9,6 +9,9 @@
 namespace htool {
 template <typename CoefficientPrecision, typename CoordinatePrecision = underlying_type<CoefficientPrecision>>
 void internal_triangular_hmatrix_lrmat_solve(char side, char UPLO, char transa, char diag, CoefficientPrecision alpha, const HMatrix<CoefficientPrecision, CoordinatePrecision> &A, LowRankMatrix<CoefficientPrecision, CoordinatePrecision> &B) {
+    if (B.rank_of() == 0) {
+        return;
+    }
     if (alpha != CoefficientPrecision(1)) {
         scale(alpha, B);
     }
-- 
2.43.0


From 36332a80e832cef16d0c2c331556d0d54836a51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 15/57] fix: copy of an HMatrix keeps the symmetry and triangle
 used for its leaves

---
 include/htool/hmatrix/hmatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 314600e..fbf47cb 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -57,7 +57,7 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
     // Child constructor
     HMatrix(const HMatrix &parent, const Cluster<CoordinatePrecision> *target_cluster, const Cluster<CoordinatePrecision> *source_cluster) : TreeNode<HMatrix, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(parent), m_target_cluster(target_cluster), m_source_cluster(source_cluster) {}
 
-    HMatrix(const HMatrix &rhs) : TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecision>, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(rhs), m_target_cluster(rhs.m_target_cluster), m_source_cluster(rhs.m_source_cluster), m_symmetry(rhs.m_symmetry), m_UPLO(rhs.m_UPLO), m_symmetry_type_for_leaves(), m_storage_type(rhs.m_storage_type) {
+    HMatrix(const HMatrix &rhs) : TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecision>, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(rhs), m_target_cluster(rhs.m_target_cluster), m_source_cluster(rhs.m_source_cluster), m_symmetry(rhs.m_symmetry), m_UPLO(rhs.m_UPLO), m_symmetry_type_for_leaves(rhs.m_symmetry_type_for_leaves), m_UPLO_for_leaves(rhs.m_UPLO_for_leaves), m_storage_type(rhs.m_storage_type) {
         if (m_target_cluster->is_root() or is_cluster_on_partition(*m_target_cluster)) {
             Logger::get_instance().log(LogLevel::INFO, "Deep copy of HMatrix");
         }
-- 
2.43.0


From a056f9b178da5054c5bf6d8323c7824aecf1d307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 16/57] fix: assigning over an HMatrix drops the dense or
 low-rank data it held before

---
 include/htool/hmatrix/hmatrix.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index fbf47cb..b86e7c7 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -95,6 +95,8 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
         m_symmetry_type_for_leaves = rhs.m_symmetry_type_for_leaves;
         m_UPLO_for_leaves          = rhs.m_UPLO_for_leaves;
 
+        m_dense_data.reset();
+        m_low_rank_data.reset();
         if (rhs.m_dense_data) {
             m_dense_data = std::make_unique<Matrix<CoefficientPrecision>>(*rhs.m_dense_data);
         }
-- 
2.43.0


From 2fb12e640c21d5fc36beae763f99e1b9cb3604bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 17/57] fix: blocks of a copied HMatrix share the tree data of
 the copy

---
 include/htool/hmatrix/hmatrix.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index b86e7c7..5ef8068 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -49,6 +49,14 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
 
     StorageType m_storage_type{StorageType::Hierarchical};
 
+    // all the nodes of a tree refer to the same tree data
+    void share_tree_data_with_children() {
+        for (auto &child : this->m_children) {
+            child->m_tree_data = this->m_tree_data;
+            child->share_tree_data_with_children();
+        }
+    }
+
   public:
     // Root constructor
     HMatrix(const Cluster<CoordinatePrecision> &target_cluster, const Cluster<CoordinatePrecision> &source_cluster) : TreeNode<HMatrix, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(), m_target_cluster(&target_cluster), m_source_cluster(&source_cluster) {
@@ -68,6 +76,7 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
         for (auto &child : rhs.m_children) {
             this->m_children.emplace_back(std::make_unique<HMatrix<CoefficientPrecision, CoordinatePrecision>>(*child));
         }
+        share_tree_data_with_children();
         if (rhs.m_dense_data) {
             m_dense_data = std::make_unique<Matrix<CoefficientPrecision>>(*rhs.m_dense_data);
         }
@@ -87,6 +96,7 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
         for (auto &child : rhs.m_children) {
             this->m_children.emplace_back(std::make_unique<HMatrix<CoefficientPrecision, CoordinatePrecision>>(*child));
         }
+        share_tree_data_with_children();
         m_target_cluster           = rhs.m_target_cluster;
         m_source_cluster           = rhs.m_source_cluster;
         m_symmetry                 = rhs.m_symmetry;
-- 
2.43.0


From 608616c9345be5f509f3ec6c9da7e0ea4fa76bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 18/57] fix: the root of a moved cluster tree is the moved-to
 cluster

---
 include/htool/clustering/cluster_node.hpp | 25 +++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/htool/clustering/cluster_node.hpp b/include/htool/clustering/cluster_node.hpp
index ae6adcb..3c513c7 100644
--- a/include/htool/clustering/cluster_node.hpp
+++ b/include/htool/clustering/cluster_node.hpp
@@ -23,6 +23,13 @@ class Cluster : public TreeNode<Cluster<CoordinatesPrecision>, ClusterTreeData<C
     int m_size;                                   // number of geometric points
     int m_counter;                                // numbering of the nodes level-wise
 
+    // the tree data refer to the root by address
+    void update_root_cluster_after_move(const Cluster &moved_cluster) noexcept {
+        if (this->m_tree_data && this->m_tree_data->m_root_cluster == &moved_cluster) {
+            this->m_tree_data->m_root_cluster = this;
+        }
+    }
+
   public:
     // Root constructor
     Cluster(CoordinatesPrecision radius, std::vector<CoordinatesPrecision> &center, int rank, int offset, int size) : TreeNode<Cluster, ClusterTreeData<CoordinatesPrecision>>(), m_radius(radius), m_center(center), m_rank(rank), m_offset(offset), m_size(size), m_counter(0) {
@@ -44,8 +51,22 @@ class Cluster : public TreeNode<Cluster<CoordinatesPrecision>, ClusterTreeData<C
     // no copy
     Cluster(const Cluster &)                       = delete;
     Cluster &operator=(const Cluster &)            = delete;
-    Cluster(Cluster &&cluster) noexcept            = default;
-    Cluster &operator=(Cluster &&cluster) noexcept = default;
+    Cluster(Cluster &&cluster) noexcept : TreeNode<Cluster, ClusterTreeData<CoordinatesPrecision>>(std::move(cluster)), m_radius(cluster.m_radius), m_center(std::move(cluster.m_center)), m_rank(cluster.m_rank), m_offset(cluster.m_offset), m_size(cluster.m_size), m_counter(cluster.m_counter) {
+        this->update_root_cluster_after_move(cluster);
+    }
+    Cluster &operator=(Cluster &&cluster) noexcept {
+        if (this != &cluster) {
+            TreeNode<Cluster, ClusterTreeData<CoordinatesPrecision>>::operator=(std::move(cluster));
+            m_radius  = cluster.m_radius;
+            m_center  = std::move(cluster.m_center);
+            m_rank    = cluster.m_rank;
+            m_offset  = cluster.m_offset;
+            m_size    = cluster.m_size;
+            m_counter = cluster.m_counter;
+            this->update_root_cluster_after_move(cluster);
+        }
+        return *this;
+    }
     virtual ~Cluster()                             = default;
 
     // Cluster getters
-- 
2.43.0


From cf17e5160c570bb8910db60f29f5833c1c79c487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 19/57] fix: moved-from and released matrices can be assigned
 again

---
 include/htool/matrix/matrix.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 9298e3b..13354fa 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -41,7 +41,7 @@ class Matrix {
         if (&rhs == this) {
             return *this;
         }
-        if (m_number_of_rows * m_number_of_cols == rhs.m_number_of_cols * rhs.m_number_of_rows) {
+        if (m_data != nullptr && m_number_of_rows * m_number_of_cols == rhs.m_number_of_cols * rhs.m_number_of_rows) {
             std::copy_n(rhs.m_data, m_number_of_rows * m_number_of_cols, m_data);
             m_number_of_rows = rhs.m_number_of_rows;
             m_number_of_cols = rhs.m_number_of_cols;
@@ -59,7 +59,9 @@ class Matrix {
         return *this;
     }
     Matrix(Matrix &&rhs) : m_number_of_rows(rhs.m_number_of_rows), m_number_of_cols(rhs.m_number_of_cols), m_data(rhs.m_data), m_is_owning_data(rhs.m_is_owning_data), m_pivots(rhs.m_pivots) {
-        rhs.m_data = nullptr;
+        rhs.m_number_of_rows = 0;
+        rhs.m_number_of_cols = 0;
+        rhs.m_data           = nullptr;
     }
 
     Matrix &operator=(Matrix &&rhs) {
@@ -70,8 +72,11 @@ class Matrix {
             m_number_of_cols = rhs.m_number_of_cols;
             m_data           = rhs.m_data;
             m_is_owning_data = rhs.m_is_owning_data;
-            rhs.m_data       = nullptr;
             m_pivots         = rhs.m_pivots;
+
+            rhs.m_number_of_rows = 0;
+            rhs.m_number_of_cols = 0;
+            rhs.m_data           = nullptr;
         }
         return *this;
     }
-- 
2.43.0


From ae201cb8455665c347b2c039cec6dc6962f104c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 20/57] fix: resizing a matrix that refers to an external
 buffer does not take that buffer over

---
 include/htool/matrix/matrix.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 13354fa..b645983 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -225,12 +225,11 @@ class Matrix {
     the number of columns is set to _nbc_.
     */
     void resize(int nbr, int nbc, T value = 0) {
-        if (m_data != nullptr and m_is_owning_data and m_number_of_rows * m_number_of_cols != nbr * nbc) {
-            delete[] m_data;
+        if (m_data == nullptr or !m_is_owning_data or m_number_of_rows * m_number_of_cols != nbr * nbc) {
+            if (m_is_owning_data)
+                delete[] m_data;
             m_data = nullptr;
             m_data = new T[nbr * nbc];
-        } else if (m_number_of_rows * m_number_of_cols != nbr * nbc) {
-            m_data = new T[nbr * nbc];
         }
 
         m_number_of_rows = nbr;
-- 
2.43.0


From e4cc1171959b338244db04f159b2adabbe14d55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 21/57] fix: a matrix given a new size or buffer forgets the
 pivots of its previous factorization

---
 include/htool/matrix/matrix.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index b645983..e28e797 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -137,6 +137,7 @@ class Matrix {
         m_number_of_cols = number_of_cols;
         m_data           = ptr;
         m_is_owning_data = owning_data;
+        m_pivots.clear();
     }
 
     int nb_cols() const { return m_number_of_cols; }
@@ -236,6 +237,7 @@ class Matrix {
         m_number_of_cols = nbc;
         std::fill_n(m_data, nbr * nbc, value);
         m_is_owning_data = true;
+        m_pivots.clear();
     }
 
     //! ### Matrix-scalar product
-- 
2.43.0


From 49e276d30724c11483760266c1f6615534bbb1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 22/57] fix: assigning a buffer to an empty matrix releases its
 allocation

---
 include/htool/matrix/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index e28e797..d9c2904 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -130,7 +130,7 @@ class Matrix {
     }
 
     void assign(int number_of_rows, int number_of_cols, T *ptr, bool owning_data) {
-        if (m_number_of_rows * m_number_of_cols > 0 && m_is_owning_data)
+        if (m_is_owning_data)
             delete[] m_data;
 
         m_number_of_rows = number_of_rows;
-- 
2.43.0


From 736edb8eb83159b7c5517da283393289b93b39e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 23/57] fix: transposed local-to-local matrix product no longer
 adds to the previous content of its output

---
 include/htool/distributed_operator/distributed_operator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/htool/distributed_operator/distributed_operator.hpp b/include/htool/distributed_operator/distributed_operator.hpp
index c3705c0..e40d499 100644
--- a/include/htool/distributed_operator/distributed_operator.hpp
+++ b/include/htool/distributed_operator/distributed_operator.hpp
@@ -635,6 +635,7 @@ void DistributedOperator<CoefficientPrecision>::internal_matrix_product_transp_l
     std::vector<CoefficientPrecision> buffer((work == nullptr) ? (nc + local_size_source * sizeWorld) * mu : 0);
     CoefficientPrecision *buffer_ptr = (work == nullptr) ? buffer.data() : work;
 
+    std::fill(out, out + local_size_source * mu, 0);
     std::fill(buffer_ptr, buffer_ptr + nc * mu, 0);
     CoefficientPrecision *rbuf = buffer_ptr + nc * mu;
 
-- 
2.43.0


From 6af4903c91c31fd5607b8f55ac492921fb93bcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 24/57] fix: transposed local-to-local products of a Hermitian
 operator apply the transpose, not the operator

---
 .../distributed_operator.hpp                  | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/htool/distributed_operator/distributed_operator.hpp b/include/htool/distributed_operator/distributed_operator.hpp
index e40d499..57e1d01 100644
--- a/include/htool/distributed_operator/distributed_operator.hpp
+++ b/include/htool/distributed_operator/distributed_operator.hpp
@@ -575,9 +575,18 @@ void DistributedOperator<CoefficientPrecision>::internal_matrix_product_local_to
 
 template <typename CoefficientPrecision>
 void DistributedOperator<CoefficientPrecision>::internal_vector_product_transp_local_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, CoefficientPrecision *work) const {
-    if (m_symmetry == 'S' || m_symmetry == 'H') {
+    if (m_symmetry == 'S') {
         this->internal_vector_product_local_to_local(in, out, work);
         return;
+    } else if (m_symmetry == 'H') {
+        int rank;
+        MPI_Comm_rank(m_comm, &rank);
+        int local_size = m_target_partition.get_size_of_partition(rank);
+        std::vector<CoefficientPrecision> in_conj(in, in + local_size);
+        conj_if_complex<CoefficientPrecision>(in_conj.data(), local_size);
+        this->internal_vector_product_local_to_local(in_conj.data(), out, work);
+        conj_if_complex<CoefficientPrecision>(out, m_source_partition.get_size_of_partition(rank));
+        return;
     }
 
     int sizeWorld, rankWorld;
@@ -621,9 +630,18 @@ void DistributedOperator<CoefficientPrecision>::internal_vector_product_transp_l
 
 template <typename CoefficientPrecision>
 void DistributedOperator<CoefficientPrecision>::internal_matrix_product_transp_local_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, CoefficientPrecision *work) const {
-    if (m_symmetry == 'S' || m_symmetry == 'H') {
+    if (m_symmetry == 'S') {
         this->internal_matrix_product_local_to_local(in, out, mu, work);
         return;
+    } else if (m_symmetry == 'H') {
+        int rank;
+        MPI_Comm_rank(m_comm, &rank);
+        int local_size = m_target_partition.get_size_of_partition(rank);
+        std::vector<CoefficientPrecision> in_conj(in, in + local_size * mu);
+        conj_if_complex<CoefficientPrecision>(in_conj.data(), local_size * mu);
+        this->internal_matrix_product_local_to_local(in_conj.data(), out, mu, work);
+        conj_if_complex<CoefficientPrecision>(out, m_source_partition.get_size_of_partition(rank) * mu);
+        return;
     }
 
     int sizeWorld, rankWorld;
-- 
2.43.0


From ff3d8f8617c6b468a8421c51fec10f5a4ef6a334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 25/57] fix: transposed products with a Hermitian local
 operator apply the transpose for vectors, matrices, dense and hierarchical
 operators alike

---
 .../local_operators/local_dense_matrix.hpp    | 26 ++++++++++++++++---
 .../htool/local_operators/local_hmatrix.hpp   | 24 +++++++++++++++--
 .../htool/local_operators/local_operator.hpp  | 14 ++--------
 3 files changed, 46 insertions(+), 18 deletions(-)

diff --git a/include/htool/local_operators/local_dense_matrix.hpp b/include/htool/local_operators/local_dense_matrix.hpp
index 9c36258..c4d592a 100644
--- a/include/htool/local_operators/local_dense_matrix.hpp
+++ b/include/htool/local_operators/local_dense_matrix.hpp
@@ -4,7 +4,9 @@
 
 #include "../clustering/cluster_node.hpp" // for Cluster
 #include "../matrix/matrix.hpp"           // for Matrix
+#include "../misc/misc.hpp"               // for conj_if_complex
 #include "local_operator.hpp"             // for LocalOperator
+#include <vector>                         // for vector
 
 namespace htool {
 
@@ -24,21 +26,37 @@ class LocalDenseMatrix final : public LocalOperator<CoefficientPrecision, Coordi
     void local_add_vector_product(char trans, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out) const override {
         add_matrix_vector_product(trans, alpha, m_data, in, beta, out);
     }
-    void local_add_vector_product_symmetric(char, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, char UPLO, char symmetry) const override {
+    void local_add_vector_product_symmetric(char trans, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, char UPLO, char symmetry) const override {
         if (symmetry == 'S') {
             add_symmetric_matrix_vector_product(UPLO, alpha, m_data, in, beta, out);
         } else if (symmetry == 'H') {
-            add_hermitian_matrix_vector_product(UPLO, alpha, m_data, in, beta, out);
+            if (trans == 'T') { // transposed Hermitian operator is its conjugate
+                std::vector<CoefficientPrecision> in_conj(in, in + m_data.nb_rows());
+                conj_if_complex<CoefficientPrecision>(in_conj.data(), in_conj.size());
+                conj_if_complex<CoefficientPrecision>(out, m_data.nb_cols());
+                add_hermitian_matrix_vector_product(UPLO, conj_if_complex<CoefficientPrecision>(alpha), m_data, in_conj.data(), conj_if_complex<CoefficientPrecision>(beta), out);
+                conj_if_complex<CoefficientPrecision>(out, m_data.nb_cols());
+            } else {
+                add_hermitian_matrix_vector_product(UPLO, alpha, m_data, in, beta, out);
+            }
         }
     }
     void local_add_matrix_product_row_major(char trans, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, int mu) const override {
         add_matrix_matrix_product_row_major(trans, 'N', alpha, m_data, in, beta, out, mu);
     }
-    void local_add_matrix_product_symmetric_row_major(char, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, int mu, char UPLO, char symmetry) const override {
+    void local_add_matrix_product_symmetric_row_major(char trans, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, int mu, char UPLO, char symmetry) const override {
         if (symmetry == 'S') {
             add_symmetric_matrix_matrix_product_row_major('L', UPLO, alpha, m_data, in, beta, out, mu);
         } else if (symmetry == 'H') {
-            add_hermitian_matrix_matrix_product_row_major('L', UPLO, alpha, m_data, in, beta, out, mu);
+            if (trans == 'T') { // transposed Hermitian operator is its conjugate
+                std::vector<CoefficientPrecision> in_conj(in, in + m_data.nb_rows() * mu);
+                conj_if_complex<CoefficientPrecision>(in_conj.data(), in_conj.size());
+                conj_if_complex<CoefficientPrecision>(out, m_data.nb_cols() * mu);
+                add_hermitian_matrix_matrix_product_row_major('L', UPLO, conj_if_complex<CoefficientPrecision>(alpha), m_data, in_conj.data(), conj_if_complex<CoefficientPrecision>(beta), out, mu);
+                conj_if_complex<CoefficientPrecision>(out, m_data.nb_cols() * mu);
+            } else {
+                add_hermitian_matrix_matrix_product_row_major('L', UPLO, alpha, m_data, in, beta, out, mu);
+            }
         }
     }
 };
diff --git a/include/htool/local_operators/local_hmatrix.hpp b/include/htool/local_operators/local_hmatrix.hpp
index fced428..ecc0db2 100644
--- a/include/htool/local_operators/local_hmatrix.hpp
+++ b/include/htool/local_operators/local_hmatrix.hpp
@@ -25,9 +25,29 @@ class LocalHMatrix final : public LocalOperator<CoefficientPrecision, Coordinate
     ~LocalHMatrix()                                               = default;
 
     void local_add_vector_product(char trans, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out) const override { openmp_internal_add_hmatrix_vector_product(trans, alpha, m_data, in, beta, out); }
-    void local_add_vector_product_symmetric(char trans, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, char, char) const override { openmp_internal_add_hmatrix_vector_product(trans, alpha, m_data, in, beta, out); }
+    void local_add_vector_product_symmetric(char trans, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, char, char symmetry) const override {
+        if (symmetry == 'H' && trans == 'T') { // transposed product from the conjugate transposed one
+            std::vector<CoefficientPrecision> in_conj(in, in + m_data.nb_rows());
+            conj_if_complex<CoefficientPrecision>(in_conj.data(), in_conj.size());
+            conj_if_complex<CoefficientPrecision>(out, m_data.nb_cols());
+            openmp_internal_add_hmatrix_vector_product('C', conj_if_complex<CoefficientPrecision>(alpha), m_data, in_conj.data(), conj_if_complex<CoefficientPrecision>(beta), out);
+            conj_if_complex<CoefficientPrecision>(out, m_data.nb_cols());
+        } else {
+            openmp_internal_add_hmatrix_vector_product(trans, alpha, m_data, in, beta, out);
+        }
+    }
     void local_add_matrix_product_row_major(char trans, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, int mu) const override { openmp_internal_add_hmatrix_matrix_product_row_major(trans, 'N', alpha, m_data, in, beta, out, mu); }
-    void local_add_matrix_product_symmetric_row_major(char trans, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, int mu, char, char) const override { openmp_internal_add_hmatrix_matrix_product_row_major(trans, 'N', alpha, m_data, in, beta, out, mu); }
+    void local_add_matrix_product_symmetric_row_major(char trans, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, int mu, char, char symmetry) const override {
+        if (symmetry == 'H' && trans == 'T') { // transposed product from the conjugate transposed one
+            std::vector<CoefficientPrecision> in_conj(in, in + m_data.nb_rows() * mu);
+            conj_if_complex<CoefficientPrecision>(in_conj.data(), in_conj.size());
+            conj_if_complex<CoefficientPrecision>(out, m_data.nb_cols() * mu);
+            openmp_internal_add_hmatrix_matrix_product_row_major('C', 'N', conj_if_complex<CoefficientPrecision>(alpha), m_data, in_conj.data(), conj_if_complex<CoefficientPrecision>(beta), out, mu);
+            conj_if_complex<CoefficientPrecision>(out, m_data.nb_cols() * mu);
+        } else {
+            openmp_internal_add_hmatrix_matrix_product_row_major(trans, 'N', alpha, m_data, in, beta, out, mu);
+        }
+    }
 
     const HMatrix<CoefficientPrecision, CoordinatePrecision> &get_hmatrix() const { return *m_data.get(); }
 };
diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index 93104a3..1892bfa 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -168,17 +168,10 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
     void add_matrix_product_transp_local_to_global(CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, int mu) const override {
 
         int nc = m_source_cluster.get_size();
-        int nr = m_target_cluster.get_size();
-        std::vector<CoefficientPrecision> input_perm(m_symmetry == 'H' ? nr * mu : 0);
         std::vector<CoefficientPrecision> buffer_out(m_source_use_permutation_to_mvprod ? nc * mu + nc : 0);
         std::vector<CoefficientPrecision> output_perm(nc * mu);
 
-        if (m_symmetry == 'H') { // we have to conjugate to apply in this particular case
-            std::copy_n(in, input_perm.size(), input_perm.data());
-            conj_if_complex<CoefficientPrecision>(input_perm.data(), input_perm.size());
-        }
-
-        const CoefficientPrecision *input = m_symmetry == 'H' ? input_perm.data() : in;
+        const CoefficientPrecision *input = in;
 
         // Local to local product
         if (m_symmetry == 'N') {
@@ -203,12 +196,9 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
                     out[i + (m_source_cluster.get_offset() + j) * mu] = buffer_out[nc + j + i * nc];
                 }
             }
-        } else { // we have to conjugate to apply in this particular case
+        } else {
             std::copy_n(output_perm.data(), output_perm.size(), out + m_source_cluster.get_offset() * mu);
         }
-        if (m_symmetry == 'H') {
-            conj_if_complex<CoefficientPrecision>(out + m_source_cluster.get_offset() * mu, nc * mu);
-        }
     }
 
     void sub_matrix_product_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, int offset, int size) const override {
-- 
2.43.0


From e8affca38704d9a0d1e5e19b07865b2ab920e4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 26/57] fix: transposed matrix products with several local
 operators are summed instead of overwriting one another

---
 include/htool/local_operators/local_operator.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index 1892bfa..83ad4bf 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -173,6 +173,21 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
 
         const CoefficientPrecision *input = in;
 
+        // Previous content of the output, in cluster numbering
+        if (m_source_use_permutation_to_mvprod) {
+            for (int i = 0; i < mu; i++) {
+                for (int j = 0; j < nc; j++) {
+                    buffer_out[j] = out[i + (m_source_cluster.get_offset() + j) * mu];
+                }
+                user_to_cluster(m_source_cluster, buffer_out.data(), buffer_out.data() + nc);
+                for (int j = 0; j < nc; j++) {
+                    output_perm[i + j * mu] = buffer_out[nc + j];
+                }
+            }
+        } else {
+            std::copy_n(out + m_source_cluster.get_offset() * mu, output_perm.size(), output_perm.data());
+        }
+
         // Local to local product
         if (m_symmetry == 'N') {
             local_add_matrix_product_row_major('T', alpha, input, beta, output_perm.data(), mu);
-- 
2.43.0


From 16ed159ec178016080ffd2d3ce69413d87a97971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 27/57] fix: local operators permute their rows in matrix and
 transposed products when they are declared in user numbering

---
 .../htool/local_operators/local_operator.hpp  | 64 ++++++++++++++-----
 1 file changed, 49 insertions(+), 15 deletions(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index 83ad4bf..d9d38bf 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -94,6 +94,18 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         std::vector<CoefficientPrecision> buffer_out(m_target_use_permutation_to_mvprod ? nr * mu : 0);
 
         CoefficientPrecision *output = m_target_use_permutation_to_mvprod ? buffer_out.data() : out;
+        std::vector<CoefficientPrecision> buffer_perm(m_target_use_permutation_to_mvprod ? 2 * nr : 0);
+        if (m_target_use_permutation_to_mvprod) {
+            for (int i = 0; i < mu; i++) {
+                for (int j = 0; j < nr; j++) {
+                    buffer_perm[j] = out[i + j * mu];
+                }
+                user_to_cluster(m_target_cluster, buffer_perm.data(), buffer_perm.data() + nr);
+                for (int j = 0; j < nr; j++) {
+                    buffer_out[i + j * mu] = buffer_perm[nr + j];
+                }
+            }
+        }
         // Permutation + transpose
         if (m_source_use_permutation_to_mvprod) {
             for (int i = 0; i < mu; i++) {
@@ -127,22 +139,30 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
             // throw std::invalid_argument("[Htool error] Invalid arguments for LocalDenseMatrix");
         }
 
-        // if (m_symmetry == 'H') {
-        //     conj_if_complex<CoefficientPrecision>(output, nr * mu);
-        // }
-
-        // Permutation TODO
-        // if (m_target_use_permutation_to_mvprod) {
-        //     for (int i = 0; i < mu; i++) {
-        //         cluster_to_user(m_cluster_tree_target.get(), output + i * nr, out + i * nr);
-        //     }
-        // }
+        // Permutation
+        if (m_target_use_permutation_to_mvprod) {
+            for (int i = 0; i < mu; i++) {
+                for (int j = 0; j < nr; j++) {
+                    buffer_perm[j] = buffer_out[i + j * mu];
+                }
+                cluster_to_user(m_target_cluster, buffer_perm.data(), buffer_perm.data() + nr);
+                for (int j = 0; j < nr; j++) {
+                    out[i + j * mu] = buffer_perm[nr + j];
+                }
+            }
+        }
     }
 
     void add_vector_product_transp_local_to_global(CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out) const override {
 
+        std::vector<CoefficientPrecision> buffer_in(m_target_use_permutation_to_mvprod ? m_target_cluster.get_size() : 0);
         std::vector<CoefficientPrecision> buffer_out(m_source_use_permutation_to_mvprod ? m_source_cluster.get_size() : 0);
-        CoefficientPrecision *output = m_source_use_permutation_to_mvprod ? buffer_out.data() : out + m_source_cluster.get_offset();
+        const CoefficientPrecision *input = m_target_use_permutation_to_mvprod ? buffer_in.data() : in;
+        CoefficientPrecision *output      = m_source_use_permutation_to_mvprod ? buffer_out.data() : out + m_source_cluster.get_offset();
+
+        if (m_target_use_permutation_to_mvprod) {
+            user_to_cluster(m_target_cluster, in, buffer_in.data());
+        }
 
         if (m_source_use_permutation_to_mvprod) {
             user_to_cluster(m_source_cluster, out + m_source_cluster.get_offset(), buffer_out.data());
@@ -150,10 +170,9 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
 
         // Local to local product
         if (m_symmetry == 'N') {
-            local_add_vector_product('T', alpha, in, beta, output);
+            local_add_vector_product('T', alpha, input, beta, output);
         } else if (m_symmetry == 'S' || m_symmetry == 'H') {
-            // m_data.add_vector_product('T', alpha, in, beta, output);
-            local_add_vector_product_symmetric('T', alpha, in, beta, output, m_UPLO, m_symmetry);
+            local_add_vector_product_symmetric('T', alpha, input, beta, output, m_UPLO, m_symmetry);
         } else {
             htool::Logger::get_instance().log(LogLevel::ERROR, "Invalid arguments for LocalDenseMatrix"); // LCOV_EXCL_LINE
             // throw std::invalid_argument("[Htool error] Invalid arguments for LocalDenseMatrix");
@@ -171,7 +190,22 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         std::vector<CoefficientPrecision> buffer_out(m_source_use_permutation_to_mvprod ? nc * mu + nc : 0);
         std::vector<CoefficientPrecision> output_perm(nc * mu);
 
-        const CoefficientPrecision *input = in;
+        int nr = m_target_cluster.get_size();
+        std::vector<CoefficientPrecision> input_perm(m_target_use_permutation_to_mvprod ? nr * mu : 0);
+        std::vector<CoefficientPrecision> buffer_in(m_target_use_permutation_to_mvprod ? 2 * nr : 0);
+        const CoefficientPrecision *input = m_target_use_permutation_to_mvprod ? input_perm.data() : in;
+
+        if (m_target_use_permutation_to_mvprod) {
+            for (int i = 0; i < mu; i++) {
+                for (int j = 0; j < nr; j++) {
+                    buffer_in[j] = in[i + j * mu];
+                }
+                user_to_cluster(m_target_cluster, buffer_in.data(), buffer_in.data() + nr);
+                for (int j = 0; j < nr; j++) {
+                    input_perm[i + j * mu] = buffer_in[nr + j];
+                }
+            }
+        }
 
         // Previous content of the output, in cluster numbering
         if (m_source_use_permutation_to_mvprod) {
-- 
2.43.0


From aa2bc3df8caaf0c65e25a6d0724d0b1115eb76b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 28/57] fix: products of a local operator with a range of
 columns use the range and the numbering of its own columns

---
 include/htool/local_operators/local_operator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index d9d38bf..6398579 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -36,7 +36,7 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
     virtual void local_add_matrix_product_symmetric_row_major(char trans, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, int mu, char UPLO, char symmetry) const = 0;
 
     virtual void local_sub_matrix_vector_product(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, int offset, int size) const {
-        std::vector<CoefficientPrecision> temp(m_source_cluster.get_size() * mu, 0);
+        std::vector<CoefficientPrecision> temp((m_source_cluster.get_offset() + m_source_cluster.get_size()) * mu, 0);
         std::copy_n(in, size * mu, temp.data() + offset * mu);
         add_matrix_product_global_to_local(1, temp.data(), 0, out, mu);
     }
@@ -253,16 +253,16 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
     void sub_matrix_product_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, int offset, int size) const override {
         int source_offset   = m_source_cluster.get_offset();
         int source_size     = m_source_cluster.get_size();
-        bool is_output_null = ((offset + size) < source_offset) || (source_offset + m_source_cluster.get_size() < offset);
+        bool is_output_null = ((offset + size) <= source_offset) || (source_offset + m_source_cluster.get_size() <= offset);
 
         if (!is_output_null) {
             // Same size as local operator
-            if (source_offset == offset && source_size + source_offset == size + offset)
+            if (source_offset == offset && source_size + source_offset == size + offset && m_symmetry == 'N' && !m_source_use_permutation_to_mvprod && !m_target_use_permutation_to_mvprod)
                 local_add_matrix_product_row_major('N', 1, in, 0, out, mu);
             else {
 
                 int temp_offset                           = std::max(offset, source_offset);
-                const CoefficientPrecision *const temp_in = (offset < source_offset) ? in + source_offset - offset : in;
+                const CoefficientPrecision *const temp_in = (offset < source_offset) ? in + (source_offset - offset) * mu : in;
                 int temp_size                             = (size + offset <= source_size + source_offset) ? size - std::max(source_offset - offset, 0) : size - std::max(source_offset - offset, 0) - (size + offset - source_offset - source_size);
 
                 local_sub_matrix_vector_product(temp_in, out, mu, temp_offset, temp_size);
-- 
2.43.0


From 6b8eaf99cf88b142c9cfe0a8b75afc2a9a98c1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 29/57] fix: the product with a range of columns sums the local
 operators and does not depend on the previous content of its output

---
 .../htool/distributed_operator/distributed_operator.hpp  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/htool/distributed_operator/distributed_operator.hpp b/include/htool/distributed_operator/distributed_operator.hpp
index 57e1d01..9f34276 100644
--- a/include/htool/distributed_operator/distributed_operator.hpp
+++ b/include/htool/distributed_operator/distributed_operator.hpp
@@ -684,8 +684,15 @@ void DistributedOperator<CoefficientPrecision>::internal_matrix_product_transp_l
 
 template <typename CoefficientPrecision>
 void DistributedOperator<CoefficientPrecision>::internal_sub_matrix_product_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, int offset, int size) const {
+    int rankWorld;
+    MPI_Comm_rank(m_comm, &rankWorld);
+    int local_size = m_target_partition.get_size_of_partition(rankWorld);
+    std::fill_n(out, local_size * mu, CoefficientPrecision(0));
+    std::vector<CoefficientPrecision> local_out(local_size * mu);
     for (auto &local_operator : m_local_operators) {
-        local_operator->sub_matrix_product_to_local(in, out, mu, offset, size);
+        std::fill(local_out.begin(), local_out.end(), CoefficientPrecision(0));
+        local_operator->sub_matrix_product_to_local(in, local_out.data(), mu, offset, size);
+        std::transform(out, out + local_size * mu, local_out.begin(), out, std::plus<CoefficientPrecision>());
     }
 }
 
-- 
2.43.0


From 5dfd474c75c0b356364252fec2f4ead612238d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 30/57] fix: the extracted diagonal includes entries in blocks
 that do not start on the diagonal, and follows the numbering of both clusters

---
 include/htool/hmatrix/hmatrix.hpp | 57 ++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 5ef8068..8626d2c 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -400,15 +400,21 @@ void copy_diagonal(const HMatrix<CoefficientPrecision, CoordinatePrecision> &hma
         int local_nc = leaf->get_source_cluster().get_size();
         int offset_i = leaf->get_target_cluster().get_offset() - target_offset;
         int offset_j = leaf->get_source_cluster().get_offset() - source_offset;
-        if (leaf->is_dense() && offset_i == offset_j) {
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[k + offset_i] = (*leaf->get_dense_data())(k, k);
+        // A block can hold a part of the diagonal without starting on it
+        int diagonal_begin = std::max(offset_i, offset_j);
+        int diagonal_end   = std::min(offset_i + local_nr, offset_j + local_nc);
+        if (diagonal_begin >= diagonal_end) {
+            continue;
+        }
+        if (leaf->is_dense()) {
+            for (int k = diagonal_begin; k < diagonal_end; k++) {
+                ptr[k] = (*leaf->get_dense_data())(k - offset_i, k - offset_j);
             }
-        } else if (leaf->is_low_rank() && offset_i == offset_j) { // pretty rare...
-            Matrix<CoefficientPrecision> low_rank_to_dense(local_nc, local_nr);
+        } else if (leaf->is_low_rank()) { // pretty rare...
+            Matrix<CoefficientPrecision> low_rank_to_dense(local_nr, local_nc);
             leaf->get_low_rank_data()->copy_to_dense(low_rank_to_dense.data());
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[k + offset_i] = (low_rank_to_dense)(k, k);
+            for (int k = diagonal_begin; k < diagonal_end; k++) {
+                ptr[k] = low_rank_to_dense(k - offset_i, k - offset_j);
             }
         }
     }
@@ -428,9 +434,15 @@ void copy_diagonal_in_user_numbering(const HMatrix<CoefficientPrecision, Coordin
         htool::Logger::get_instance().log(LogLevel::ERROR, "Clusters are local, but permutations are not local, copy_diagonal_in_user_numbering cannot be used"); // LCOV_EXCL_LINE}
     }
 
-    const auto &permutation = hmatrix.get_target_cluster().get_permutation();
-    int target_offset       = hmatrix.get_target_cluster().get_offset();
-    // int source_offset       = hmatrix.get_source_cluster().get_offset();
+    const auto &target_permutation = hmatrix.get_target_cluster().get_permutation();
+    const auto &source_permutation = hmatrix.get_source_cluster().get_permutation();
+    int target_offset              = hmatrix.get_target_cluster().get_offset();
+    int source_offset              = hmatrix.get_source_cluster().get_offset();
+    int source_size                = hmatrix.get_source_cluster().get_size();
+    std::vector<int> source_position(source_size);
+    for (int k = 0; k < source_size; k++) {
+        source_position[source_permutation[k + source_offset] - source_offset] = k + source_offset;
+    }
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> leaves;
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> leaves_for_symmetry;
     std::tie(leaves, leaves_for_symmetry) = get_leaves_from(hmatrix); // C++17 structured binding
@@ -440,15 +452,26 @@ void copy_diagonal_in_user_numbering(const HMatrix<CoefficientPrecision, Coordin
         int local_nc = leaf->get_source_cluster().get_size();
         int offset_i = leaf->get_target_cluster().get_offset();
         int offset_j = leaf->get_source_cluster().get_offset();
-        if (leaf->is_dense() && offset_i == offset_j) {
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[permutation[k + offset_i] - target_offset] = (*leaf->get_dense_data())(k, k);
+        // Position in the columns of the block of the entry of each of its rows that is on the diagonal in user numbering
+        std::vector<std::pair<int, int>> diagonal_entries;
+        for (int k = 0; k < local_nr; k++) {
+            int column = source_position[target_permutation[k + offset_i] - target_offset] - offset_j;
+            if (column >= 0 && column < local_nc) {
+                diagonal_entries.emplace_back(k, column);
             }
-        } else if (leaf->is_low_rank() && offset_i == offset_j) { // pretty rare...
-            Matrix<CoefficientPrecision> low_rank_to_dense(local_nc, local_nr);
+        }
+        if (diagonal_entries.empty()) {
+            continue;
+        }
+        if (leaf->is_dense()) {
+            for (const auto &entry : diagonal_entries) {
+                ptr[target_permutation[entry.first + offset_i] - target_offset] = (*leaf->get_dense_data())(entry.first, entry.second);
+            }
+        } else if (leaf->is_low_rank()) { // pretty rare...
+            Matrix<CoefficientPrecision> low_rank_to_dense(local_nr, local_nc);
             leaf->get_low_rank_data()->copy_to_dense(low_rank_to_dense.data());
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[permutation[k + offset_i] - target_offset] = (low_rank_to_dense)(k, k);
+            for (const auto &entry : diagonal_entries) {
+                ptr[target_permutation[entry.first + offset_i] - target_offset] = low_rank_to_dense(entry.first, entry.second);
             }
         }
     }
-- 
2.43.0


From 6f295d2705fc4216284ca679a809e305c43d1d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:50 +0000
Subject: [PATCH 31/57] fix: a builder used again does not recompute the blocks
 of the hierarchical matrices it built before

---
 include/htool/hmatrix/tree_builder/tree_builder.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/htool/hmatrix/tree_builder/tree_builder.hpp b/include/htool/hmatrix/tree_builder/tree_builder.hpp
index d08a746..d617516 100644
--- a/include/htool/hmatrix/tree_builder/tree_builder.hpp
+++ b/include/htool/hmatrix/tree_builder/tree_builder.hpp
@@ -179,6 +179,11 @@ class HMatrixTreeBuilder {
 
 template <typename CoefficientPrecision, typename CoordinatePrecision>
 HMatrix<CoefficientPrecision, CoordinatePrecision> HMatrixTreeBuilder<CoefficientPrecision, CoordinatePrecision>::build(const VirtualInternalGenerator<CoefficientPrecision> &generator) const {
+    // Forget previous builds
+    m_admissible_tasks.clear();
+    m_dense_tasks.clear();
+    m_false_positive = 0;
+
     // Create root hmatrix
     HMatrixType root_hmatrix(m_target_root_cluster, m_source_root_cluster);
     root_hmatrix.set_admissibility_condition(m_admissibility_condition);
-- 
2.43.0


From 30602269a6c5db71fe990ab88f08a85299ba7642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:48 +0000
Subject: [PATCH 32/57] fix: a cluster tree records the minimal cluster size it
 was built with

---
 include/htool/clustering/tree_builder/recursive_build.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/htool/clustering/tree_builder/recursive_build.hpp b/include/htool/clustering/tree_builder/recursive_build.hpp
index 17d3442..de42fed 100644
--- a/include/htool/clustering/tree_builder/recursive_build.hpp
+++ b/include/htool/clustering/tree_builder/recursive_build.hpp
@@ -71,6 +71,7 @@ Cluster<T> ClusterTreeBuilder<T>::create_cluster_tree(int number_of_points, int
     T radius              = compute_radius(spatial_dimension, coordinates, radii, center, 0, number_of_points);
 
     Cluster<T> root_cluster(radius, center, -1, 0, number_of_points);
+    root_cluster.set_minclustersize(m_minclustersize);
     std::vector<int> &permutation = root_cluster.get_permutation();
 
     // Taking care of partition initialisation
-- 
2.43.0


From 5a169c9537d6304d51c6eb7c91845ade6641cfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:48 +0000
Subject: [PATCH 33/57] fix: minimal block sizes and compression of large
 hierarchical matrices are reported correctly

---
 include/htool/hmatrix/hmatrix_output.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix_output.hpp b/include/htool/hmatrix/hmatrix_output.hpp
index 0e7891d..cc5968c 100644
--- a/include/htool/hmatrix/hmatrix_output.hpp
+++ b/include/htool/hmatrix/hmatrix_output.hpp
@@ -136,13 +136,13 @@ std::map<std::string, std::string> get_hmatrix_information(const HMatrix<Coeffic
 
     std::map<std::string, std::string> hmatrix_information;
 
-    unsigned int nb_rows = hmatrix.get_target_cluster().get_size();
-    unsigned int nb_cols = hmatrix.get_source_cluster().get_size();
+    std::size_t nb_rows = hmatrix.get_target_cluster().get_size();
+    std::size_t nb_cols = hmatrix.get_source_cluster().get_size();
 
     // 0 : dense mat ; 1 : lr mat ; 2 : rank ; 3 : local_size
     std::array<std::size_t, 3> maxinfos = {0, 0, 0};
     std::array<double, 3> meaninfos     = {0, 0, 0};
-    std::array<std::size_t, 3> mininfos = {std::max(nb_cols, nb_rows), std::max(nb_cols, nb_rows), std::max(nb_cols, nb_rows)};
+    std::array<std::size_t, 3> mininfos = {nb_rows * nb_cols, nb_rows * nb_cols, nb_rows * nb_cols};
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> dense_blocks;
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> low_rank_blocks;
     get_leaves(hmatrix, dense_blocks, low_rank_blocks);
-- 
2.43.0


From 4b6a3d3f2e55fe5ee4e91f8a68cf10e73cc3f61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:48 +0000
Subject: [PATCH 34/57] fix: distributed minimal block sizes ignore ranks
 without such blocks, and sizes of large local blocks do not overflow

---
 include/htool/hmatrix/hmatrix_distributed_output.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix_distributed_output.hpp b/include/htool/hmatrix/hmatrix_distributed_output.hpp
index 6f671eb..a61e178 100644
--- a/include/htool/hmatrix/hmatrix_distributed_output.hpp
+++ b/include/htool/hmatrix/hmatrix_distributed_output.hpp
@@ -12,6 +12,7 @@
 #include <cstddef>                             // for size_t
 #include <iomanip>                             // for operator<<, setfill, setw
 #include <iostream>                            // for basic_ostream, basic_ios, bas...
+#include <limits>                              // for numeric_limits
 #include <map>                                 // for map
 #include <mpi.h>                               // for MPI_Reduce, MPI_DOUBLE, MPI_I...
 #include <string>                              // for basic_string, to_string, oper...
@@ -36,14 +37,14 @@ std::map<std::string, std::string> get_distributed_hmatrix_information(const HMa
 
     const HMatrixTreeData<CoefficientPrecision, CoordinatePrecision> *hmatrix_tree_data = hmatrix.get_hmatrix_tree_data();
 
-    unsigned int local_nb_rows = hmatrix.get_target_cluster().get_size();
-    unsigned int local_nb_cols = hmatrix.get_source_cluster().get_size();
-    std::size_t local_size     = local_nb_cols * local_nb_rows;
+    std::size_t local_nb_rows = hmatrix.get_target_cluster().get_size();
+    std::size_t local_nb_cols = hmatrix.get_source_cluster().get_size();
+    std::size_t local_size    = local_nb_cols * local_nb_rows;
 
     // 0 : dense mat size ; 1 : lr mat size ; 2 : rank ; 3 : nb_rows, 4: nb_cols
     std::array<std::size_t, 5> maxinfos = {0, 0, 0, local_nb_rows, local_nb_cols};
     std::array<double, 5> meaninfos     = {0, 0, 0, double(local_nb_rows), double(local_nb_cols)};
-    std::array<std::size_t, 5> mininfos = {local_size, local_size, local_size, local_nb_rows, local_nb_cols};
+    std::array<std::size_t, 5> mininfos = {std::numeric_limits<std::size_t>::max(), std::numeric_limits<std::size_t>::max(), std::numeric_limits<std::size_t>::max(), local_nb_rows, local_nb_cols};
 
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> local_dense_blocks;
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> local_low_rank_blocks;
-- 
2.43.0


From 75e63402ad780219e71c14e4b003ea3edcf5448d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 35/57] fix: printing a vector writes its entries to the given
 stream

---
 include/htool/basic_types/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/basic_types/vector.hpp b/include/htool/basic_types/vector.hpp
index e19266d..223ade3 100644
--- a/include/htool/basic_types/vector.hpp
+++ b/include/htool/basic_types/vector.hpp
@@ -27,7 +27,7 @@ std::ostream &operator<<(std::ostream &out, const std::vector<T> &v) {
     if (!v.empty()) {
         out << '[';
         for (typename std::vector<T>::const_iterator i = v.begin(); i != v.end(); ++i)
-            std::cout << *i << ',';
+            out << *i << ',';
         out << "\b]";
     }
     return out;
-- 
2.43.0


From ef8073f9fb809ab4b87d79c4e719e664381299a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 36/57] fix: empty vectors can be written to and read from
 files

---
 include/htool/basic_types/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/htool/basic_types/vector.hpp b/include/htool/basic_types/vector.hpp
index 223ade3..3446f27 100644
--- a/include/htool/basic_types/vector.hpp
+++ b/include/htool/basic_types/vector.hpp
@@ -134,7 +134,7 @@ int vector_to_bytes(const std::vector<T> vect, const std::string &file) {
     }
     int size = vect.size();
     out.write((char *)(&size), sizeof(int));
-    out.write((char *)&(vect[0]), size * sizeof(T));
+    out.write((char *)vect.data(), size * sizeof(T));
 
     out.close();
     return 0;
@@ -153,7 +153,7 @@ int bytes_to_vector(std::vector<T> &vect, const std::string &file) {
     int size = 0;
     in.read((char *)(&size), sizeof(int));
     vect.resize(size);
-    in.read((char *)&(vect[0]), size * sizeof(T));
+    in.read((char *)vect.data(), size * sizeof(T));
 
     in.close();
     return 0;
-- 
2.43.0


From 8807b5c0be6d4d0fd2df0d57ccb663d1fa0fc470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 37/57] fix: reading a matrix from a file replaces the previous
 content completely

---
 include/htool/matrix/matrix.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index d9c2904..6c4189f 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -669,13 +669,14 @@ class Matrix {
         int rows = 0, cols = 0;
         in.read((char *)(&rows), sizeof(int));
         in.read((char *)(&cols), sizeof(int));
-        if (m_number_of_rows != 0 && m_number_of_cols != 0 && m_is_owning_data)
+        if (m_is_owning_data)
             delete[] m_data;
         m_data           = new T[rows * cols];
         m_number_of_rows = rows;
         m_number_of_cols = cols;
         m_is_owning_data = true;
-        in.read((char *)&(m_data[0]), rows * cols * sizeof(T));
+        m_pivots.clear();
+        in.read((char *)m_data, rows * cols * sizeof(T));
 
         in.close();
         return 0;
-- 
2.43.0


From 877ca88a87a283ab90703c9f0e984bf873d2145d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 38/57] fix: a matrix that cannot be saved as csv is reported
 to the caller

---
 include/htool/matrix/matrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 6c4189f..7895afc 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -701,6 +701,7 @@ class Matrix {
         try {
             if (!os) {
                 htool::Logger::get_instance().log(LogLevel::WARNING, "Cannot create file " + file); // LCOV_EXCL_LINE
+                return 1;                                                                           // LCOV_EXCL_LINE
                 // throw std::string("Cannot create file " + file);
             }
         } catch (std::string const &error) {
-- 
2.43.0


From d17a3d6104a3bed50b88c57be330b0567c0dab05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:09 +0000
Subject: [PATCH 39/57] fix: subdomain solver with overlap applies the whole
 Cholesky factor of the overlap block

---
 .../local_solvers/local_hmatrix_plus_overlap_solvers.hpp     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp b/include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp
index e552d56..28c6379 100644
--- a/include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp
+++ b/include/htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp
@@ -99,7 +99,7 @@ class LocalHMatrixPlusOverlapSolver : public VirtualLocalSolver<CoefficientPreci
 
             if (m_C.nb_rows() > 0) {
                 add_matrix_matrix_product('N', 'N', CoefficientPrecision(-1), m_C, b1, CoefficientPrecision(1), b2);
-                triangular_matrix_matrix_solve('L', 'L', 'N', 'U', CoefficientPrecision(1), m_D, b2);
+                triangular_matrix_matrix_solve('L', 'L', 'N', 'N', CoefficientPrecision(1), m_D, b2);
                 triangular_matrix_matrix_solve('L', 'L', is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(1), m_D, b2);
                 add_matrix_matrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), m_C, b2, CoefficientPrecision(1), b1);
             }
@@ -109,7 +109,8 @@ class LocalHMatrixPlusOverlapSolver : public VirtualLocalSolver<CoefficientPreci
 
             if (m_B.nb_cols() > 0) {
                 add_matrix_matrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), m_B, b1, CoefficientPrecision(1), b2);
-                triangular_matrix_matrix_solve('L', 'U', 'N', 'U', CoefficientPrecision(1), m_D, b2);
+                triangular_matrix_matrix_solve('L', 'U', is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(1), m_D, b2);
+                triangular_matrix_matrix_solve('L', 'U', 'N', 'N', CoefficientPrecision(1), m_D, b2);
                 add_matrix_matrix_product('N', 'N', CoefficientPrecision(-1), m_B, b2, CoefficientPrecision(1), b1);
             }
 
-- 
2.43.0


From c43dd396b665bf9d596a07cf896f9e62290ce029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 40/57] fix: GenEO coarse spaces can be built in single
 precision

---
 include/htool/solvers/geneo/coarse_space_builder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/solvers/geneo/coarse_space_builder.hpp b/include/htool/solvers/geneo/coarse_space_builder.hpp
index 125d9b7..3d6871d 100644
--- a/include/htool/solvers/geneo/coarse_space_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_space_builder.hpp
@@ -67,7 +67,7 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
         int ldvl = n, ldvr = n, lwork = -1;
         int lda = n, ldb = n;
         std::vector<CoefficientPrecision> work(n);
-        std::vector<double> rwork;
+        std::vector<underlying_type<CoefficientPrecision>> rwork;
         std::vector<int> index(n, 0);
         std::iota(index.begin(), index.end(), int(0));
         int nevi = m_geneo_nu;
-- 
2.43.0


From 5a28cb6b85642e9ae35cd6ccbb2d8ed509de2f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:20 +0000
Subject: [PATCH 41/57] fix: GenEO threshold selection stops after the last
 eigenvalue

---
 include/htool/solvers/geneo/coarse_space_builder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/geneo/coarse_space_builder.hpp b/include/htool/solvers/geneo/coarse_space_builder.hpp
index 3d6871d..afb7f26 100644
--- a/include/htool/solvers/geneo/coarse_space_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_space_builder.hpp
@@ -97,7 +97,7 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
             });
             if (m_geneo_threshold > 0.0) {
                 nevi = 0;
-                while (std::abs(w[index[nevi]]) > m_geneo_threshold && nevi < index.size()) {
+                while (nevi < index.size() && std::abs(w[index[nevi]]) > m_geneo_threshold) {
                     nevi++;
                 }
             }
@@ -145,7 +145,7 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
         });
         if (m_geneo_threshold > 0.0) {
             nevi = 0;
-            while (std::abs(beta[index[nevi]]) < 1e-15 || (std::abs(alphar[index[nevi]] / beta[index[nevi]]) > m_geneo_threshold && nevi < index.size())) {
+            while (nevi < index.size() && (std::abs(beta[index[nevi]]) < 1e-15 || std::abs(alphar[index[nevi]] / beta[index[nevi]]) > m_geneo_threshold)) {
                 nevi++;
             }
         }
-- 
2.43.0


From 96ff8a0e952019789dc69e4bdd44f164ad9450ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:20 +0000
Subject: [PATCH 42/57] fix: GenEO orders complex conjugate eigenvalues of real
 local problems by their modulus

---
 .../solvers/geneo/coarse_space_builder.hpp     | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/htool/solvers/geneo/coarse_space_builder.hpp b/include/htool/solvers/geneo/coarse_space_builder.hpp
index afb7f26..b97fee5 100644
--- a/include/htool/solvers/geneo/coarse_space_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_space_builder.hpp
@@ -6,7 +6,9 @@
 #include "../interfaces/virtual_coarse_space_builder.hpp" // for VirtualCoa...
 #include "htool/misc/misc.hpp"                            // for underlying...
 #include <algorithm>                                      // for copy, max
+#include <cmath>                                          // for hypot
 #include <complex>                                        // for real
+#include <limits>                                         // for numeric_limits
 #include <numeric>                                        // for iota
 #include <vector>                                         // for vector
 
@@ -140,12 +142,20 @@ class GeneoCoarseSpaceDenseBuilder : public VirtualCoarseSpaceBuilder<Coefficien
         work.resize(lwork);
         Lapack<CoefficientPrecision>::ggev("N", "V", &n, m_DAiD.data(), &lda, m_Bi.data(), &ldb, alphar.data(), alphai.data(), beta.data(), vl.data(), &ldvl, vr.data(), &ldvr, work.data(), &lwork, rwork.data(), &info);
 
-        std::sort(index.begin(), index.end(), [&](const int &a, const int &b) {
-            return ((std::abs(beta[a]) < 1e-15 || (std::abs(alphar[a] / beta[a]) > std::abs(alphar[b] / beta[b]))) && !(std::abs(beta[b]) < 1e-15));
-        });
+        std::vector<underlying_type<CoefficientPrecision>> modulus(n);
+        for (int i = 0; i < n; i++) {
+            if (std::abs(beta[i]) < 1e-15) {
+                modulus[i] = std::numeric_limits<underlying_type<CoefficientPrecision>>::infinity();
+            } else if (i < alphai.size() && std::real(alphai[i]) < 0) { // second eigenvalue of a conjugate pair
+                modulus[i] = modulus[i - 1];
+            } else {
+                modulus[i] = std::hypot(std::abs(alphar[i]), i < alphai.size() ? std::abs(alphai[i]) : 0) / std::abs(beta[i]);
+            }
+        }
+        std::stable_sort(index.begin(), index.end(), [&](const int &a, const int &b) { return modulus[a] > modulus[b]; });
         if (m_geneo_threshold > 0.0) {
             nevi = 0;
-            while (nevi < index.size() && (std::abs(beta[index[nevi]]) < 1e-15 || std::abs(alphar[index[nevi]] / beta[index[nevi]]) > m_geneo_threshold)) {
+            while (nevi < index.size() && modulus[index[nevi]] > m_geneo_threshold) {
                 nevi++;
             }
         }
-- 
2.43.0


From 95b1c226405cfca0f4a3d20b5e01e392c3c397cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:20 +0000
Subject: [PATCH 43/57] fix: coarse operator of a Hermitian operator is its
 Galerkin projection

---
 .../htool/solvers/geneo/coarse_operator_builder.hpp   | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/htool/solvers/geneo/coarse_operator_builder.hpp b/include/htool/solvers/geneo/coarse_operator_builder.hpp
index 8877df2..62fe263 100644
--- a/include/htool/solvers/geneo/coarse_operator_builder.hpp
+++ b/include/htool/solvers/geneo/coarse_operator_builder.hpp
@@ -95,9 +95,6 @@ void build_geneo_coarse_operator(const DistributedOperator<CoefficientPrecision>
         //     std::cout << buffer << "\n";
         // }
         MPI_Bcast(buffer.data() + margin * recvcounts[i], HA.get_target_partition().get_size_of_partition(i) * recvcounts[i], wrapper_mpi<CoefficientPrecision>::mpi_type(), i, HA.get_comm());
-        if (HA.get_symmetry_type() == 'H') {
-            conj_if_complex(buffer.data(), buffer.size());
-        }
         HA.internal_sub_matrix_product_to_local(buffer.data(), AZ.data(), recvcounts[i], HA.get_target_partition().get_offset_of_partition(i), HA.get_target_partition().get_size_of_partition(i));
 
         // if (rankWorld == 0) {
@@ -105,10 +102,10 @@ void build_geneo_coarse_operator(const DistributedOperator<CoefficientPrecision>
         //     std::cout << AZ << "\n";
         // }
 
-        // Removed because complex scalar product afterward
-        // if (HA.get_symmetry_type() == 'H') {
-        //     conj_if_complex(AZ.data(), AZ.size());
-        // }
+        // complex scalar product afterward
+        if (HA.get_symmetry_type() == 'H') {
+            conj_if_complex(AZ.data(), AZ.size());
+        }
 
         for (int j = 0; j < recvcounts[i]; j++) {
             for (int k = 0; k < n_inside; k++) {
-- 
2.43.0


From 5652d2a0116dad8a81c1d5ac03950e89c844c73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:53 +0000
Subject: [PATCH 44/57] fix: DDM applies a Hermitian operator, not its
 conjugate, to several vectors

---
 include/htool/wrappers/wrapper_hpddm.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/htool/wrappers/wrapper_hpddm.hpp b/include/htool/wrappers/wrapper_hpddm.hpp
index 6655b0b..68c6afb 100644
--- a/include/htool/wrappers/wrapper_hpddm.hpp
+++ b/include/htool/wrappers/wrapper_hpddm.hpp
@@ -103,9 +103,6 @@ class HPDDMOperator final : public HPDDM::Dense<LocalSolver, HPDDM::LapackTR, 'G
                     (*buffer)[i + j * mu] = in[i * this->getDof() + j];
                 }
             }
-            if (HA->get_symmetry_type() == 'H') {
-                conj_if_complex(buffer->data(), local_size * mu);
-            }
         }
 
         // All gather
@@ -117,9 +114,6 @@ class HPDDMOperator final : public HPDDM::Dense<LocalSolver, HPDDM::LapackTR, 'G
 
         // Tranpose
         if (mu != 1) {
-            if (HA->get_symmetry_type() == 'H') {
-                conj_if_complex(buffer->data() + local_size * mu, local_size * mu);
-            }
             for (int i = 0; i < mu; i++) {
                 for (int j = 0; j < local_size; j++) {
                     out[i * this->getDof() + j] = (*buffer)[i + j * mu + local_size * mu];
-- 
2.43.0


From 2685da058da6084280b1bae2e85e5c6116036583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:53 +0000
Subject: [PATCH 45/57] fix: both off-diagonal blocks of the overlap are built
 for nonsymmetric operators

---
 include/htool/solvers/utility.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/htool/solvers/utility.hpp b/include/htool/solvers/utility.hpp
index 78de9b1..3a2c5f6 100644
--- a/include/htool/solvers/utility.hpp
+++ b/include/htool/solvers/utility.hpp
@@ -227,7 +227,8 @@ class DDMSolverBuilder {
         if (!sym or block_diagonal_hmatrix0.get_UPLO() == 'U') {
             B.resize(local_size_without_overlap, local_size_with_overlap - local_size_without_overlap);
             generator0.copy_submatrix(local_size_without_overlap, local_size_with_overlap - local_size_without_overlap, inside_num.data(), overlap_num.data(), B.data());
-        } else if (!sym or block_diagonal_hmatrix0.get_UPLO() == 'L') {
+        }
+        if (!sym or block_diagonal_hmatrix0.get_UPLO() == 'L') {
             C.resize(local_size_with_overlap - local_size_without_overlap, local_size_without_overlap);
 
             generator0.copy_submatrix(local_size_with_overlap - local_size_without_overlap, local_size_without_overlap, overlap_num.data(), inside_num.data(), C.data());
-- 
2.43.0


From b26186533312936d2ddd1303a99a7fa98010d649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:00 +0000
Subject: [PATCH 46/57] fix: DDM solvers building their local H-matrix work
 with any coordinate precision

---
 include/htool/solvers/utility.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/htool/solvers/utility.hpp b/include/htool/solvers/utility.hpp
index 3a2c5f6..b596aab 100644
--- a/include/htool/solvers/utility.hpp
+++ b/include/htool/solvers/utility.hpp
@@ -137,7 +137,7 @@ class DDMSolverWithDenseLocalSolver {
     std::function<Cluster<CoordinatePrecision>(int, const CoordinatePrecision *)> initialize_local_cluster = [this](int spatial_dimension0, const CoordinatePrecision *global_geometry0) {
         // Local geometry
         int local_size = local_to_global_numbering.size();
-        std::vector<double> local_geometry(spatial_dimension0 * local_size);
+        std::vector<CoordinatePrecision> local_geometry(spatial_dimension0 * local_size);
         for (int i = 0; i < local_to_global_numbering.size(); i++) {
             for (int dimension = 0; dimension < spatial_dimension0; dimension++) {
                 local_geometry[spatial_dimension0 * i + dimension] = global_geometry0[spatial_dimension0 * local_to_global_numbering[i] + dimension];
@@ -145,7 +145,7 @@ class DDMSolverWithDenseLocalSolver {
         }
 
         // Local cluster
-        ClusterTreeBuilder<double> recursive_build_strategy;
+        ClusterTreeBuilder<CoordinatePrecision> recursive_build_strategy;
         return recursive_build_strategy.create_cluster_tree(local_to_global_numbering.size(), spatial_dimension0, local_geometry.data(), 2, 2, nullptr);
     };
 
@@ -239,7 +239,7 @@ class DDMSolverBuilder {
     std::function<Cluster<CoordinatePrecision>(int, const CoordinatePrecision *)> initialize_local_cluster = [this](int spatial_dimension0, const CoordinatePrecision *global_geometry0) {
         // Local geometry
         int local_size = local_to_global_numbering.size();
-        std::vector<double> local_geometry(spatial_dimension0 * local_size);
+        std::vector<CoordinatePrecision> local_geometry(spatial_dimension0 * local_size);
         for (int i = 0; i < local_to_global_numbering.size(); i++) {
             for (int dimension = 0; dimension < spatial_dimension0; dimension++) {
                 local_geometry[spatial_dimension0 * i + dimension] = global_geometry0[spatial_dimension0 * local_to_global_numbering[i] + dimension];
@@ -247,7 +247,7 @@ class DDMSolverBuilder {
         }
 
         // Local cluster
-        ClusterTreeBuilder<double> recursive_build_strategy;
+        ClusterTreeBuilder<CoordinatePrecision> recursive_build_strategy;
         return recursive_build_strategy.create_cluster_tree(local_to_global_numbering.size(), spatial_dimension0, local_geometry.data(), 2, 2);
     };
 
-- 
2.43.0


From 6574745d11c62b8918f60583e2c530e485945af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:12 +0000
Subject: [PATCH 47/57] fix: DDM solvers build the local cluster tree of small
 subdomains

---
 include/htool/solvers/utility.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/htool/solvers/utility.hpp b/include/htool/solvers/utility.hpp
index b596aab..1bf1e04 100644
--- a/include/htool/solvers/utility.hpp
+++ b/include/htool/solvers/utility.hpp
@@ -146,7 +146,8 @@ class DDMSolverWithDenseLocalSolver {
 
         // Local cluster
         ClusterTreeBuilder<CoordinatePrecision> recursive_build_strategy;
-        return recursive_build_strategy.create_cluster_tree(local_to_global_numbering.size(), spatial_dimension0, local_geometry.data(), 2, 2, nullptr);
+        const int local_partition[2] = {0, local_size}; // a single piece: small subdomains cannot be split further
+        return recursive_build_strategy.create_cluster_tree(local_size, spatial_dimension0, local_geometry.data(), 2, 1, local_partition);
     };
 
     std::unique_ptr<Cluster<CoordinatePrecision>> local_cluster;
@@ -248,7 +249,8 @@ class DDMSolverBuilder {
 
         // Local cluster
         ClusterTreeBuilder<CoordinatePrecision> recursive_build_strategy;
-        return recursive_build_strategy.create_cluster_tree(local_to_global_numbering.size(), spatial_dimension0, local_geometry.data(), 2, 2);
+        const int local_partition[2] = {0, local_size}; // a single piece: small subdomains cannot be split further
+        return recursive_build_strategy.create_cluster_tree(local_size, spatial_dimension0, local_geometry.data(), 2, 1, local_partition);
     };
 
     std::unique_ptr<Cluster<CoordinatePrecision>> local_cluster;
-- 
2.43.0


From a07820a53fe35c0ecdac1c25e8fec7f6bb9a4475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 48/57] fix: depth of a partition whose size is a power of the
 number of children is exact

---
 include/htool/clustering/tree_builder/recursive_build.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/htool/clustering/tree_builder/recursive_build.hpp b/include/htool/clustering/tree_builder/recursive_build.hpp
index de42fed..d7a5334 100644
--- a/include/htool/clustering/tree_builder/recursive_build.hpp
+++ b/include/htool/clustering/tree_builder/recursive_build.hpp
@@ -94,7 +94,10 @@ Cluster<T> ClusterTreeBuilder<T>::create_cluster_tree(int number_of_points, int
     } else {
         m_partition_type = Simple;
         if (size_partition >= number_of_children) {
-            depth_of_partition                    = static_cast<int>(floor(log(size_partition) / log(number_of_children)));
+            depth_of_partition                    = 0;
+            for (int remaining = size_partition; remaining >= number_of_children; remaining /= number_of_children) {
+                depth_of_partition += 1;
+            }
             number_of_children_on_partition_level = number_of_children;
             if (size_partition != std::pow(number_of_children, depth_of_partition)) {
                 Logger::get_instance().log(LogLevel::WARNING, "The given size for the partition is not a power of the number of children in the cluster tree.");
-- 
2.43.0


From d4c52faa8dba3f57158ed00e3e565841341750b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:25 +0000
Subject: [PATCH 49/57] fix: numbers of clusters in their level do not overflow
 in deep cluster trees

---
 .../tree_builder/recursive_build.hpp           | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/htool/clustering/tree_builder/recursive_build.hpp b/include/htool/clustering/tree_builder/recursive_build.hpp
index d7a5334..4bb2f3f 100644
--- a/include/htool/clustering/tree_builder/recursive_build.hpp
+++ b/include/htool/clustering/tree_builder/recursive_build.hpp
@@ -88,8 +88,10 @@ Cluster<T> ClusterTreeBuilder<T>::create_cluster_tree(int number_of_points, int
         for (int p = 0; p < size_partition; p++) {
             center                           = compute_center(spatial_dimension, coordinates, weights, partition[2 * p], partition[2 * p + 1], permutation.data());
             radius                           = compute_radius(spatial_dimension, coordinates, radii, center, partition[2 * p], partition[2 * p + 1], permutation.data());
-            Cluster<T> *cluster_on_partition = root_cluster.add_child(radius, center, p, partition[2 * p], partition[2 * p + 1], p, is_child_on_partition);
-            cluster_stack.push(cluster_on_partition);
+            root_cluster.add_child(radius, center, p, partition[2 * p], partition[2 * p + 1], p, is_child_on_partition);
+        }
+        for (int p = size_partition - 1; p >= 0; p--) {
+            cluster_stack.push(root_cluster.get_children()[p].get());
         }
     } else {
         m_partition_type = Simple;
@@ -110,6 +112,7 @@ Cluster<T> ClusterTreeBuilder<T>::create_cluster_tree(int number_of_points, int
 
     // Recursive build
     std::vector<std::pair<int, int>> current_splitting(number_of_children);
+    std::vector<int> number_of_clusters_per_level; // below the partition
 
     while (!cluster_stack.empty()) {
         Cluster<T> *current_cluster = cluster_stack.top();
@@ -144,19 +147,24 @@ Cluster<T> ClusterTreeBuilder<T>::create_cluster_tree(int number_of_points, int
                 radius = compute_radius(spatial_dimension, coordinates, radii, center, current_splitting[p].first, current_splitting[p].second, permutation.data());
 
                 int rank_of_child    = current_cluster->get_rank();
-                int counter_of_child = current_cluster->get_counter() * current_number_of_children + p;
+                int counter_of_child = 0;
                 if ((current_cluster->get_depth() == depth_of_partition - 1) && (m_partition_type == Simple)) {
                     rank_of_child         = current_cluster->get_counter() * number_of_children_on_partition_level + p;
                     counter_of_child      = rank_of_child;
                     is_child_on_partition = true;
+                } else if (rank_of_child < 0) {
+                    counter_of_child = current_cluster->get_counter() * current_number_of_children + p;
+                } else { // the tree may be deep and incomplete, so that its nodes are numbered in order of creation
+                    number_of_clusters_per_level.resize(std::max<size_t>(number_of_clusters_per_level.size(), current_cluster->get_depth() + 2), 0);
+                    counter_of_child = number_of_clusters_per_level[current_cluster->get_depth() + 1]++;
                 }
 
                 children.emplace_back(current_cluster->add_child(radius, center, rank_of_child, current_splitting[p].first, current_splitting[p].second, counter_of_child, is_child_on_partition));
             }
 
             // Recursivity
-            for (auto &child : children) {
-                cluster_stack.push(child);
+            for (auto child = children.rbegin(); child != children.rend(); ++child) {
+                cluster_stack.push(*child);
             }
         } else if (current_cluster->get_rank() < 0) {
             htool::Logger::get_instance().log(LogLevel::ERROR, "Cluster tree reached maximal depth, but not enough children to define a partition"); // LCOV_EXCL_LINE
-- 
2.43.0


From a7db1c7aa05d244bd5890bd0b0020e653563598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:35 +0000
Subject: [PATCH 50/57] fix: compressors do not refuse large blocks whose
 number of entries overflows

---
 include/htool/hmatrix/lrmat/SVD.hpp           | 2 +-
 include/htool/hmatrix/lrmat/fullACA.hpp       | 2 +-
 include/htool/hmatrix/lrmat/partialACA.hpp    | 2 +-
 include/htool/hmatrix/lrmat/sympartialACA.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/htool/hmatrix/lrmat/SVD.hpp b/include/htool/hmatrix/lrmat/SVD.hpp
index 253ec32..3b0933f 100644
--- a/include/htool/hmatrix/lrmat/SVD.hpp
+++ b/include/htool/hmatrix/lrmat/SVD.hpp
@@ -35,7 +35,7 @@ class SVD final : public VirtualLowRankGenerator<CoefficientPrecision, Coordinat
         int truncated_rank = SVD_truncation(mat, epsilon, u, vt, singular_values);
 
         if (rank == -1) {
-            if (truncated_rank * (M + N) > (M * N)) {
+            if (truncated_rank * (double(M) + N) > double(M) * N) {
                 truncated_rank = -1;
             }
 
diff --git a/include/htool/hmatrix/lrmat/fullACA.hpp b/include/htool/hmatrix/lrmat/fullACA.hpp
index ef16cdb..fc38648 100644
--- a/include/htool/hmatrix/lrmat/fullACA.hpp
+++ b/include/htool/hmatrix/lrmat/fullACA.hpp
@@ -62,7 +62,7 @@ class fullACA final : public VirtualLowRankGenerator<CoefficientPrecision, Coord
         while (((reqrank > 0) && (q < std::min(reqrank, std::min(M, N)))) || ((reqrank < 0) && (normFrob(mat) / Norm > epsilon || q == 0))) {
 
             q += 1;
-            if (q * (M + N) > (M * N)) { // the current rank would not be advantageous
+            if (q * (double(M) + N) > double(M) * N) { // the current rank would not be advantageous
                 q = -1;
                 break;
             } else {
diff --git a/include/htool/hmatrix/lrmat/partialACA.hpp b/include/htool/hmatrix/lrmat/partialACA.hpp
index 2743174..42cf7f8 100644
--- a/include/htool/hmatrix/lrmat/partialACA.hpp
+++ b/include/htool/hmatrix/lrmat/partialACA.hpp
@@ -90,7 +90,7 @@ class partialACA final : public VirtualLowRankGenerator<CoefficientPrecision, Co
             // Next current rank
             q += 1;
 
-            if (q * (target_size + source_size) > (target_size * source_size)) { // the next current rank would not be advantageous
+            if (q * (double(target_size) + source_size) > double(target_size) * source_size) { // the next current rank would not be advantageous
                 q = -1;
                 break;
             } else {
diff --git a/include/htool/hmatrix/lrmat/sympartialACA.hpp b/include/htool/hmatrix/lrmat/sympartialACA.hpp
index 107f2bc..2313975 100644
--- a/include/htool/hmatrix/lrmat/sympartialACA.hpp
+++ b/include/htool/hmatrix/lrmat/sympartialACA.hpp
@@ -107,7 +107,7 @@ class sympartialACA final : public VirtualLowRankGenerator<CoefficientPrecision,
             // Next current rank
             q += 1;
 
-            if (q * (n1 + n2) > (n1 * n2)) { // the next current rank would not be advantageous
+            if (q * (double(n1) + n2) > double(n1) * n2) { // the next current rank would not be advantageous
                 q = -1;
                 break;
             } else {
-- 
2.43.0


From 28652971b8dbaf0cada1459262931792abed2d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:35 +0000
Subject: [PATCH 51/57] fix: SVD compressor reports the rank of its
 approximation

---
 include/htool/hmatrix/lrmat/SVD.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/htool/hmatrix/lrmat/SVD.hpp b/include/htool/hmatrix/lrmat/SVD.hpp
index 3b0933f..49ee882 100644
--- a/include/htool/hmatrix/lrmat/SVD.hpp
+++ b/include/htool/hmatrix/lrmat/SVD.hpp
@@ -43,6 +43,8 @@ class SVD final : public VirtualLowRankGenerator<CoefficientPrecision, Coordinat
             truncated_rank = std::min(rank, std::min(M, N));
         }
 
+        // Final rank
+        rank = truncated_rank;
         if (truncated_rank > 0) {
             U.resize(M, truncated_rank);
             V.resize(truncated_rank, N);
-- 
2.43.0


From ce30f07959a9dbb92ac110ad3b4c979303a3a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:35 +0000
Subject: [PATCH 52/57] fix: compression ratio of large low-rank matrices does
 not overflow

---
 include/htool/hmatrix/lrmat/lrmat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/hmatrix/lrmat/lrmat.hpp b/include/htool/hmatrix/lrmat/lrmat.hpp
index 2dc2dc3..f354a1a 100644
--- a/include/htool/hmatrix/lrmat/lrmat.hpp
+++ b/include/htool/hmatrix/lrmat/lrmat.hpp
@@ -135,7 +135,7 @@ class LowRankMatrix {
     }
 
     double compression_ratio() const {
-        return (m_U.nb_rows() * m_V.nb_cols()) / (double)(m_U.nb_cols() * (m_U.nb_rows() + m_V.nb_cols()));
+        return (double(m_U.nb_rows()) * m_V.nb_cols()) / (m_U.nb_cols() * (double(m_U.nb_rows()) + m_V.nb_cols()));
     }
 
     double space_saving() const {
-- 
2.43.0


From f52ce2f207acb23d0925d234e197ad6a41952ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:23 +0000
Subject: [PATCH 53/57] fix: incomplete reads and writes of matrix files are
 reported as failures

---
 include/htool/matrix/matrix.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 7895afc..1d181ff 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -10,6 +10,7 @@
 #include <fstream>                      // for basic_ofstream, basic_ostream
 #include <iostream>                     // for cout, cerr
 #include <iterator>                     // for ostream_iterator
+#include <memory>                       // for unique_ptr
 #include <string>                       // for operator+, basic_string, all...
 #include <type_traits>                  // for enable_if
 #include <utility>                      // for pair
@@ -651,6 +652,10 @@ class Matrix {
         out.write((char *)m_data, rows * cols * sizeof(T));
 
         out.close();
+        if (!out) {
+            std::cout << "Cannot write file." << std::endl; // LCOV_EXCL_LINE
+            return 1;                                       // LCOV_EXCL_LINE
+        }
         return 0;
     }
 
@@ -669,14 +674,24 @@ class Matrix {
         int rows = 0, cols = 0;
         in.read((char *)(&rows), sizeof(int));
         in.read((char *)(&cols), sizeof(int));
+        if (!in || rows < 0 || cols < 0) {
+            std::cout << "Cannot read file." << std::endl; // LCOV_EXCL_LINE
+            return 1;                                      // LCOV_EXCL_LINE
+        }
+        std::unique_ptr<T[]> data(new T[rows * cols]);
+        in.read((char *)data.get(), rows * cols * sizeof(T));
+        if (!in) {
+            std::cout << "Cannot read file." << std::endl; // LCOV_EXCL_LINE
+            return 1;                                      // LCOV_EXCL_LINE
+        }
+
         if (m_is_owning_data)
             delete[] m_data;
-        m_data           = new T[rows * cols];
+        m_data           = data.release();
         m_number_of_rows = rows;
         m_number_of_cols = cols;
         m_is_owning_data = true;
         m_pivots.clear();
-        in.read((char *)m_data, rows * cols * sizeof(T));
 
         in.close();
         return 0;
@@ -712,6 +727,10 @@ class Matrix {
         this->print(os, delimiter);
 
         os.close();
+        if (!os) {
+            htool::Logger::get_instance().log(LogLevel::WARNING, "Cannot write file " + file); // LCOV_EXCL_LINE
+            return 1;                                                                          // LCOV_EXCL_LINE
+        }
         return 0;
     }
 };
-- 
2.43.0


From 7c0f50df7d9189a072e10c479ee257022be8bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:34 +0000
Subject: [PATCH 54/57] fix: incomplete reads and writes of vector files are
 reported as failures

---
 include/htool/basic_types/vector.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/htool/basic_types/vector.hpp b/include/htool/basic_types/vector.hpp
index 3446f27..fca5cb7 100644
--- a/include/htool/basic_types/vector.hpp
+++ b/include/htool/basic_types/vector.hpp
@@ -137,6 +137,10 @@ int vector_to_bytes(const std::vector<T> vect, const std::string &file) {
     out.write((char *)vect.data(), size * sizeof(T));
 
     out.close();
+    if (!out) {
+        std::cout << "Cannot write file: " << file << std::endl; // LCOV_EXCL_LINE
+        return 1;                                                // LCOV_EXCL_LINE
+    }
     return 0;
 }
 
@@ -152,8 +156,17 @@ int bytes_to_vector(std::vector<T> &vect, const std::string &file) {
 
     int size = 0;
     in.read((char *)(&size), sizeof(int));
-    vect.resize(size);
-    in.read((char *)vect.data(), size * sizeof(T));
+    if (!in || size < 0) {
+        std::cout << "Cannot read file: " << file << std::endl; // LCOV_EXCL_LINE
+        return 1;                                               // LCOV_EXCL_LINE
+    }
+    std::vector<T> result(size);
+    in.read((char *)result.data(), size * sizeof(T));
+    if (!in) {
+        std::cout << "Cannot read file: " << file << std::endl; // LCOV_EXCL_LINE
+        return 1;                                               // LCOV_EXCL_LINE
+    }
+    vect = std::move(result);
 
     in.close();
     return 0;
@@ -182,6 +195,10 @@ int matlab_save(std::vector<T> vector, const std::string &file) {
         out << std::endl;
     }
     out.close();
+    if (!out) {
+        std::cout << "Cannot write file: " << file << std::endl;
+        return 1;
+    }
     return 0;
 }
 
-- 
2.43.0


From a192143b7dacd372815f58f65117219f46931940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:58 +0000
Subject: [PATCH 55/57] fix: log writers are called by one thread at a time

---
 include/htool/misc/logger.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/htool/misc/logger.hpp b/include/htool/misc/logger.hpp
index b8c4278..e84c2e1 100644
--- a/include/htool/misc/logger.hpp
+++ b/include/htool/misc/logger.hpp
@@ -2,6 +2,7 @@
 #define HTOOL_LOGGER
 #include <iostream> // for operator<<, basic_ostream, cout, ostream
 #include <memory>   // for shared_ptr, __shared_ptr_access, make_shared
+#include <mutex>    // for lock_guard, recursive_mutex
 #include <string>   // for string, operator+, operator<<, char_traits
 
 namespace htool {
@@ -62,16 +63,24 @@ class StandartOutputWriter : public IObjectWriter {
 
 class Logger {
   public:
-    void set_current_log_level(unsigned int log_level) { m_writer->set_log_level(static_cast<LogLevel>(log_level)); }
-    void set_current_log_level(LogLevel log_level) { m_writer->set_log_level(log_level); }
+    void set_current_log_level(unsigned int log_level) { set_current_log_level(static_cast<LogLevel>(log_level)); }
+    void set_current_log_level(LogLevel log_level) {
+        std::lock_guard<std::recursive_mutex> lock(m_mutex);
+        m_writer->set_log_level(log_level);
+    }
     static Logger &get_instance() {
         static Logger instance;
         return instance;
     }
 
-    void set_current_writer(std::shared_ptr<IObjectWriter> writer) { m_writer = writer; }
+    void set_current_writer(std::shared_ptr<IObjectWriter> writer) {
+        std::lock_guard<std::recursive_mutex> lock(m_mutex);
+        m_writer = writer;
+    }
 
+    // messages may come from parallel regions, writers are called by one thread at a time
     void log(LogLevel log_level, std::string message) {
+        std::lock_guard<std::recursive_mutex> lock(m_mutex);
         m_writer->write(log_level, message);
     }
 
@@ -83,6 +92,7 @@ class Logger {
     virtual ~Logger() {}
 
   private:
+    std::recursive_mutex m_mutex;
     std::shared_ptr<IObjectWriter> m_writer = std::make_shared<StandartOutputWriter>();
 };
 
-- 
2.43.0


From 14c0e06f84204d8e9cf2d7df1025cb9f3985e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:48 +0000
Subject: [PATCH 56/57] fix: integer overflow in the low-rank times matrix
 product of large blocks

---
 include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
index 224f70b..ef7b6de 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
@@ -57,7 +57,7 @@ void add_lrmat_matrix_product(char transa, char transb, CoefficientPrecision alp
                 }
                 add_matrix_matrix_product<CoefficientPrecision>(transa, transb, alpha, U_A, B, 0, V_C);
             }
-            if (C.rank_of() * (C.nb_rows() + C.nb_cols()) > (C.nb_rows() * C.nb_cols())) {
+            if (C.rank_of() * (double(C.nb_rows()) + C.nb_cols()) > double(C.nb_rows()) * C.nb_cols()) {
                 recompression(C);
             }
         } else {
-- 
2.43.0


From 1f4be07b36fdbaf9dbfb25b31f7fcc80d85a6cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:09 +0000
Subject: [PATCH 57/57] fix: integer overflow in the densification of large
 H-matrices

---
 include/htool/hmatrix/hmatrix.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 8626d2c..42b6604 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -282,9 +282,9 @@ std::pair<std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *
 template <typename CoefficientPrecision, typename CoordinatePrecision = underlying_type<CoefficientPrecision>>
 void copy_to_dense(const HMatrix<CoefficientPrecision, CoordinatePrecision> &hmatrix, CoefficientPrecision *ptr) {
 
-    int target_offset = hmatrix.get_target_cluster().get_offset();
-    int source_offset = hmatrix.get_source_cluster().get_offset();
-    int target_size   = hmatrix.get_target_cluster().get_size();
+    int target_offset       = hmatrix.get_target_cluster().get_offset();
+    int source_offset       = hmatrix.get_source_cluster().get_offset();
+    std::size_t target_size = hmatrix.get_target_cluster().get_size();
 
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> leaves;
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> leaves_for_symmetry;
@@ -336,7 +336,7 @@ void copy_to_dense_in_user_numbering(const HMatrix<CoefficientPrecision, Coordin
     }
     int target_offset              = target_cluster.get_offset();
     int source_offset              = source_cluster.get_offset();
-    int target_size                = target_cluster.get_size();
+    std::size_t target_size        = target_cluster.get_size();
     const auto &target_permutation = target_cluster.get_permutation();
     const auto &source_permutation = source_cluster.get_permutation();
     std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *> leaves;
-- 
2.43.0

