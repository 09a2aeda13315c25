From 5231f506e92319be9ab3161635d64563a2bdf799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:19 +0000
Subject: [PATCH 001/124] fix: standardize: degrees of freedom count the
 observations, not the number of statistics

---
 .../core/basic_statistics/statistical_utilities.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/core/basic_statistics/statistical_utilities.cpp b/source/core/basic_statistics/statistical_utilities.cpp
index bdaf37e..2e1bec4 100644
--- a/source/core/basic_statistics/statistical_utilities.cpp
+++ b/source/core/basic_statistics/statistical_utilities.cpp
@@ -74,16 +74,20 @@ da_status standardize(da_order order, da_axis axis_in, da_int n_in, da_int p_in,
     internal_scale = &scale;
 
     // By computing length we can avoid duplicating some of the logic for the different axis types
-    da_int length;
+    // n_obs is the number of observations each of them is computed from
+    da_int length, n_obs;
     switch (axis) {
     case da_axis_col:
         length = p;
+        n_obs = n;
         break;
     case da_axis_row:
         length = n;
+        n_obs = p;
         break;
     case da_axis_all:
         length = 1;
+        n_obs = n * p;
         break;
     default:
         return da_status_internal_error; // LCOV_EXCL_LINE
@@ -92,9 +96,10 @@ da_status standardize(da_order order, da_axis axis_in, da_int n_in, da_int p_in,
 
     da_int scale_factor = dof;
     if (dof < 0) {
-        scale_factor = length;
+        scale_factor = n_obs;
     } else if (dof == 0) {
-        scale_factor = length - 1;
+        // As in variance, a single observation is not divided by zero
+        scale_factor = n_obs > 1 ? n_obs - 1 : 1;
     }
 
     // These booleans will help us determine which route the computation should take
@@ -205,7 +210,7 @@ da_status standardize(da_order order, da_axis axis_in, da_int n_in, da_int p_in,
             for (da_int i = 0; i < length; i++) {
                 // Use wider_t so that in _Float16 we can safely compute the input to sqrt without overflowing
                 scale[i] = static_cast<T>(
-                    da_std::sqrt(static_cast<da_fp16::wider_t<T>>(length) *
+                    da_std::sqrt(static_cast<da_fp16::wider_t<T>>(n_obs) *
                                  static_cast<da_fp16::wider_t<T>>(scale[i]) /
                                  static_cast<da_fp16::wider_t<T>>(scale_factor)));
             }
-- 
2.43.0


From 7e75cc61fff66ed45e7835a064c458e7cb42c181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:24 +0000
Subject: [PATCH 002/124] fix: kernel functions: with several threads, blocks
 of the kernel of X with itself used a null Y or the wrong rows

---
 source/core/kernel_functions/kernel_functions.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/core/kernel_functions/kernel_functions.cpp b/source/core/kernel_functions/kernel_functions.cpp
index e028143..413ce56 100644
--- a/source/core/kernel_functions/kernel_functions.cpp
+++ b/source/core/kernel_functions/kernel_functions.cpp
@@ -405,6 +405,11 @@ inline void kernel_setup(da_order order, da_int m, da_int n, da_int k, const T *
     // Only use parallel blocks if dimensions are large enough for safe SIMD operations
     if (n_threads > 1 && min_block_dim >= SIMD_PADDING &&
         min_matrix_dim >= SIMD_PADDING) {
+        // Off-diagonal blocks pair different rows of X, so X also plays the part of Y
+        if (X_is_Y) {
+            Y = X;
+            ldy = ldx;
+        }
         if (order == row_major) {
 #pragma omp parallel for schedule(dynamic) collapse(2)                                   \
     num_threads(n_threads) default(none)                                                 \
@@ -578,6 +583,11 @@ void rbf_kernel_internal(da_order order, da_int m, da_int n, da_int k, const T *
     // Only use parallel blocks if dimensions are large enough for safe SIMD operations
     if (n_threads > 1 && min_block_dim >= SIMD_PADDING &&
         min_matrix_dim >= SIMD_PADDING) {
+        // Off-diagonal blocks pair different rows of X, so X also plays the part of Y
+        if (X_is_Y) {
+            Y = X;
+            ldy = ldx;
+        }
         if (order == row_major) {
 #pragma omp parallel for schedule(dynamic) collapse(2)                                   \
     num_threads(n_threads) default(none)                                                 \
@@ -602,7 +612,7 @@ void rbf_kernel_internal(da_order order, da_int m, da_int n, da_int k, const T *
                     ARCH::euclidean_gemm_distance(
                         order, m_in, n_in, k, X + X_block_offset, ldx, Y + Y_block_offset,
                         ldy, D + D_block_offset, ldd, static_cast<T *>(nullptr), 0,
-                        static_cast<T *>(nullptr), 0, true, X_is_Y);
+                        static_cast<T *>(nullptr), 0, true, false);
                     exp_kernel_func(n_in, m_in, D + D_block_offset, ldd, multiplier,
                                     Y_norms + Y_norm_offset, X_norms + X_norm_offset);
                 }
@@ -631,7 +641,7 @@ void rbf_kernel_internal(da_order order, da_int m, da_int n, da_int k, const T *
                     ARCH::euclidean_gemm_distance(
                         order, m_in, n_in, k, X + X_block_offset, ldx, Y + Y_block_offset,
                         ldy, D + D_block_offset, ldd, static_cast<T *>(nullptr), 0,
-                        static_cast<T *>(nullptr), 0, true, X_is_Y);
+                        static_cast<T *>(nullptr), 0, true, false);
                     exp_kernel_func(m_in, n_in, D + D_block_offset, ldd, multiplier,
                                     X_norms + X_norm_offset, Y_norms + Y_norm_offset);
                 }
-- 
2.43.0


From fd8aa1f911ea80f0d0a68be6a8c6a387ced4acb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:19 +0000
Subject: [PATCH 003/124] fix: gemm-based Euclidean distances: a squared
 distance rounded below zero gave NaN

---
 source/core/metrics/euclidean_gemm_distance.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/core/metrics/euclidean_gemm_distance.cpp b/source/core/metrics/euclidean_gemm_distance.cpp
index a096847..39bf757 100644
--- a/source/core/metrics/euclidean_gemm_distance.cpp
+++ b/source/core/metrics/euclidean_gemm_distance.cpp
@@ -166,9 +166,9 @@ void euclidean_gemm_distance(da_order order, da_int m, da_int n, da_int k, const
                 }
             } else {
                 if (order == column_major) {
-                    da_simd_math::sqrt_matrix(m, n, D, ldd);
+                    da_simd_math::sqrt_clamp_matrix(m, n, D, ldd);
                 } else {
-                    da_simd_math::sqrt_matrix(n, m, D, ldd);
+                    da_simd_math::sqrt_clamp_matrix(n, m, D, ldd);
                 }
             }
         }
@@ -205,7 +205,7 @@ void euclidean_gemm_distance(da_order order, da_int m, da_int n, da_int k, const
                             for (da_int idx = 0; idx < j; idx++)
                                 D[idx + j * ldd] = da_std::sqrt(D[idx + j * ldd]);
                         } else {
-                            da_simd_math::sqrt_vec(D + j * ldd, j);
+                            da_simd_math::sqrt_clamp_vec(D + j * ldd, j);
                         }
                     }
                     D[j + j * ldd] = (T)0.0;
@@ -219,7 +219,7 @@ void euclidean_gemm_distance(da_order order, da_int m, da_int n, da_int k, const
                                 D[i * ldd + (i + 1) + idx] =
                                     da_std::sqrt(D[i * ldd + (i + 1) + idx]);
                         } else {
-                            da_simd_math::sqrt_vec(D + i * ldd + (i + 1), len);
+                            da_simd_math::sqrt_clamp_vec(D + i * ldd + (i + 1), len);
                         }
                     }
                     D[i * ldd + i] = (T)0.0;
-- 
2.43.0


From 8a10a133ce6f6f9254eb8aa35202456f32c0391d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:43 +0000
Subject: [PATCH 004/124] fix: cosine distances: columns past the first 1024
 were divided by the norms of other rows

---
 source/core/metrics/cosine_distance.cpp             | 9 +++++----
 source/core/metrics/euclidean_distance.cpp          | 3 ++-
 source/core/metrics/minkowski_distance.cpp          | 3 ++-
 source/core/metrics/partitioning_infrastructure.hpp | 2 +-
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/source/core/metrics/cosine_distance.cpp b/source/core/metrics/cosine_distance.cpp
index 7eba961..c4aab2f 100644
--- a/source/core/metrics/cosine_distance.cpp
+++ b/source/core/metrics/cosine_distance.cpp
@@ -69,19 +69,20 @@ template <typename T> struct CosinePostOp {
     bool X_is_Y = false;
     CosinePostOp(std::vector<T> &&normX, std::vector<T> &&normY, bool X_is_Y)
         : normX(std::move(normX)), normY(std::move(normY)), X_is_Y(X_is_Y) {}
-    inline void operator()(da_int m, da_int n, T *C, da_int ldc) const {
+    // C is the block of n columns that starts at column j0 of the distance matrix
+    inline void operator()(da_int m, da_int n, da_int j0, T *C, da_int ldc) const {
         if (!X_is_Y) {
             for (da_int j = 0; j < n; j++) {
                 for (da_int i = 0; i < m; i++) {
-                    C[i + j * ldc] = 1.0 - C[i + j * ldc] / (normX[i] * normY[j]);
+                    C[i + j * ldc] = 1.0 - C[i + j * ldc] / (normX[i] * normY[j0 + j]);
                 }
             }
         } else {
             for (da_int j = 0; j < n; j++) {
                 for (da_int i = 0; i < m; i++) {
-                    C[i + j * ldc] = 1.0 - C[i + j * ldc] / (normX[i] * normY[j]);
+                    C[i + j * ldc] = 1.0 - C[i + j * ldc] / (normX[i] * normY[j0 + j]);
                 }
-                C[j + j * ldc] = 0.0;
+                C[j0 + j + j * ldc] = 0.0;
             }
         }
     }
diff --git a/source/core/metrics/euclidean_distance.cpp b/source/core/metrics/euclidean_distance.cpp
index b1c8032..d162d31 100644
--- a/source/core/metrics/euclidean_distance.cpp
+++ b/source/core/metrics/euclidean_distance.cpp
@@ -65,7 +65,8 @@ template <typename T, da_int MR, da_int NR> struct SqEuclideanKernelFunctor_pack
 
 // Functor for Euclidean distance calculation
 template <typename T> struct SqrtPostOp {
-    inline void operator()(da_int m, da_int n, T *C, da_int ldc) const {
+    inline void operator()(da_int m, da_int n, [[maybe_unused]] da_int j0, T *C,
+                           da_int ldc) const {
         // vectorized sqrt of matrix or vector elements
         da_simd_math::sqrt_matrix(m, n, C, ldc);
     }
diff --git a/source/core/metrics/minkowski_distance.cpp b/source/core/metrics/minkowski_distance.cpp
index 4714bb3..bdad75b 100644
--- a/source/core/metrics/minkowski_distance.cpp
+++ b/source/core/metrics/minkowski_distance.cpp
@@ -67,7 +67,8 @@ template <typename T, da_int MR, da_int NR> struct MinkowskiKernelFunctor_packed
 template <typename T> struct PowPostOp {
     T invp;
     PowPostOp(T p) : invp(1.0 / p) {}
-    inline void operator()(da_int m, da_int n, T *C, da_int ldc) const {
+    inline void operator()(da_int m, da_int n, [[maybe_unused]] da_int j0, T *C,
+                           da_int ldc) const {
         for (da_int j = 0; j < n; j++) {
             for (da_int i = 0; i < m; i++) {
                 C[i + j * ldc] = std::pow(C[i + j * ldc], invp);
diff --git a/source/core/metrics/partitioning_infrastructure.hpp b/source/core/metrics/partitioning_infrastructure.hpp
index 3dc03e9..35e6cda 100644
--- a/source/core/metrics/partitioning_infrastructure.hpp
+++ b/source/core/metrics/partitioning_infrastructure.hpp
@@ -231,7 +231,7 @@ inline da_status LoopFive_packed(da_int m, da_int n, da_int k, const T *A, da_in
         LoopFour_packed<T, MR, NR, MC, NC, KC, Kernel_Operator>(
             m, jb, k, A, lda, &b_matrix(j, 0), ldb, &c_matrix(0, j), ldc, kernelOp,
             Btilde, Atilde_all, n_threads);
-        postOp(m, jb, &c_matrix(0, j), ldc);
+        postOp(m, jb, j, &c_matrix(0, j), ldc);
     }
 
     aligned_free(Atilde_all);
-- 
2.43.0


From cddd65dbbea712dba549fa637973fd086b70af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:02 +0000
Subject: [PATCH 005/124] fix: nearest neighbors: the radius count result used
 the size of the array passed in instead of the number of queries

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 5f7226a..dcd3d79 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -219,7 +219,7 @@ da_status neighbors<T>::get_result(da_result query, da_int *dim, da_int *result)
                            "least size: " +
                                std::to_string(n_queries + 1) + ".");
         }
-        return neighbors<T>::radius_neighbors_count_internal(n_count, result);
+        return neighbors<T>::radius_neighbors_count_internal(n_queries + 1, result);
         break;
     }
     case da_result::da_nn_radius_neighbors_offsets: {
-- 
2.43.0


From 49799e6d9083c1076bc60e32871fd7fb0c50c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:02 +0000
Subject: [PATCH 006/124] fix: radius predict_proba: the probability of the
 manual outlier label was stored at the label, not at its position among the
 classes

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index dcd3d79..697ae85 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -1366,7 +1366,7 @@ da_status neighbors<T>::predict_proba_compute_rnn(da_int n_queries, da_int n_fea
                         da_std::fill(proba + j_local, proba + j_local + num_classes, 0.0);
                         // If the manually set outlier label is present in the training labels, set its probability to 1.0
                         if (this->manual_label_index != -1) {
-                            proba[classes[this->manual_label_index] + j_local] = 1.0;
+                            proba[this->manual_label_index + j_local] = 1.0;
                         }
                     } else if (this->outlier_handling ==
                                da_neighbors_types::nn_outlier_handling::most_frequent) {
@@ -1418,7 +1418,7 @@ da_status neighbors<T>::predict_proba_compute_rnn(da_int n_queries, da_int n_fea
                         da_std::fill(proba + j_local, proba + j_local + num_classes, 0.0);
                         // If the manually set outlier label is present in the training labels, set its probability to 1.0
                         if (this->manual_label_index != -1) {
-                            proba[classes[this->manual_label_index] + j_local] = 1.0;
+                            proba[this->manual_label_index + j_local] = 1.0;
                         }
                     } else if (this->outlier_handling ==
                                da_neighbors_types::nn_outlier_handling::most_frequent) {
-- 
2.43.0


From e3240d713c7499219a7415870e84065a2fb22c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:02 +0000
Subject: [PATCH 007/124] fix: radius regression: the last query was left out
 of the size of the work array, which it could overflow

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 697ae85..33087ae 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -1812,7 +1812,7 @@ neighbors<T>::predict_targets_rnn(da_int n_queries, da_int n_features, const T *
             // The size of the maximum number of neighbors for any query
             da_int max_n_neighbors = 0;
             max_n_neighbors = *std::max_element(temp_radius_neighbors_count.begin(),
-                                                temp_radius_neighbors_count.end() - 1);
+                                                temp_radius_neighbors_count.end());
             // Compute the predicted targets.
             // Depending on the indices of the neighbors, for each test data point return the
             // target of each of the neighbors.
-- 
2.43.0


From e3f9880efc15cc94cbb39c54a9255f5b836e4dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:02 +0000
Subject: [PATCH 008/124] fix: nearest neighbors: distances stayed squared
 after a change of metric and new training data

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 33087ae..89ad261 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -334,9 +334,10 @@ template <typename T> da_status neighbors<T>::set_params() {
         }
     }
 
-    if (metric == da_euclidean || (metric == da_minkowski && p == T(2.0)) ||
-        metric == da_euclidean_gemm) {
-        this->get_squares = true;
+    this->get_squares = metric == da_euclidean ||
+                        (metric == da_minkowski && p == T(2.0)) ||
+                        metric == da_euclidean_gemm;
+    if (this->get_squares) {
         if (this->working_algo == brute) {
             // If the algorithm is brute force, we need to use the squared Euclidean distance
             // to avoid computing the square root.
-- 
2.43.0


From e15d43308eba583e4a300bac123f5dba05f04da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:02 +0000
Subject: [PATCH 009/124] fix: nearest neighbors: classes, most frequent label,
 outlier label and mean target of earlier labels or targets were used after
 new ones were set

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 89ad261..4868f38 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -536,6 +536,10 @@ da_status neighbors<T>::set_labels(da_int n_samples, const da_int *y_train_class
     // Set internal pointer to user data
     this->y_train_class = y_train_class;
     this->istrained_labels = true;
+    // Anything computed from earlier labels is out of date
+    this->classes_computed = false;
+    this->most_frequent_label_computed = false;
+    this->manual_outlier_label_checked = false;
     return da_status_success;
 }
 
@@ -561,6 +565,8 @@ da_status neighbors<T>::set_targets(da_int n_samples, const T *y_train_reg) {
     // Set internal pointer to user data
     this->y_train_reg = y_train_reg;
     this->istrained_targets = true;
+    // The mean of earlier targets is out of date
+    this->mean_target_computed = false;
     return da_status_success;
 }
 
-- 
2.43.0


From 8586b75fe88ee1f7a02b9509042e7f87a0d9150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:12 +0000
Subject: [PATCH 010/124] fix: radius search: a squared distance computed with
 gemm and rounded below zero gave NaN distances and weights

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 4868f38..236eceb 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -2180,6 +2180,14 @@ da_status neighbors<T>::radius_neighbors_compute_brute_force(
                         threading_error = 1;
                     }
 
+                    // Clamp small negative values to zero for squared Euclidean GEMM
+                    // distances, as in the k-nearest neighbors search.
+                    if (this->internal_metric == da_sqeuclidean_gemm) {
+                        da_simd_math::clamp_nonneg_matrix(local_xtrain_block_size,
+                                                          local_xtest_block_size,
+                                                          this_D.data(), ldd);
+                    }
+
                     // Iterate through the distance matrix and store the indices of the samples within the radius
                     for (da_int jj = 0; jj < local_xtest_block_size; jj++) {
                         for (da_int ii = 0; ii < local_xtrain_block_size; ii++) {
-- 
2.43.0


From 83b2be9200211fab11777eb416ca6e50116e295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:26 +0000
Subject: [PATCH 011/124] fix: k-nearest neighbors predictions: more neighbors
 than samples are rejected, as in da_nn_kneighbors, instead of reading
 uninitialized neighbors

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 236eceb..aef0992 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -1183,6 +1183,11 @@ da_status neighbors<T>::predict_proba_compute_knn(da_int n_queries, da_int n_fea
                         "The inner product metric is not compatible with "
                         "weights=\"distance\". Use weights=\"uniform\" instead.");
 
+    if (this->n_neighbors > this->n_samples)
+        return da_error(this->err, da_status_invalid_input,
+                        "Number of requested neighbors must not be greater than the "
+                        "number of samples.");
+
     if (!this->classes_computed) {
         // From the input data y_train, find the available classes.
         status = neighbors<T>::available_classes();
@@ -1693,6 +1698,11 @@ neighbors<T>::predict_targets_knn(da_int n_queries, da_int n_features, const T *
                         "The inner product metric is not compatible with "
                         "weights=\"distance\". Use weights=\"uniform\" instead.");
 
+    if (this->n_neighbors > this->n_samples)
+        return da_error(this->err, da_status_invalid_input,
+                        "Number of requested neighbors must not be greater than the "
+                        "number of samples.");
+
     // Allocate memory to set neighbors' indices and corresponding distances.
     // If n_ind and n_dist were returned in row order, then we need to transpose them
     try {
-- 
2.43.0


From 2ccad872b8e7b01db18258360b8584f595888750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:14 +0000
Subject: [PATCH 012/124] fix: kd and ball trees: a squared distance computed
 from norms and rounded below zero gave NaN distances and lost neighbors

---
 source/core/nearest_neighbors/binary_tree.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/nearest_neighbors/binary_tree.cpp b/source/core/nearest_neighbors/binary_tree.cpp
index 3edeaf1..ef9dfa7 100644
--- a/source/core/nearest_neighbors/binary_tree.cpp
+++ b/source/core/nearest_neighbors/binary_tree.cpp
@@ -207,7 +207,8 @@ da_status binary_tree<Derived, NodeType>::compute_distance(T &dist, da_int index
         for (da_int i = 0; i < this->n_features; i++) {
             dist += X[i] * this->A[index_A + i * this->lda];
         }
-        dist = X_norm + this->A_norms[index_A] - 2 * dist;
+        // Rounding can take the result below zero, and its square root is taken later
+        dist = std::max(X_norm + this->A_norms[index_A] - 2 * dist, (T)0.0);
     } else {
         // Compute the distance matrix using the specified metric
         da_status status = ARCH::da_metrics::pairwise_distances::pairwise_distance_kernel(
-- 
2.43.0


From bc4b155a854ae39a0816f889912d7dd1b02fbadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:48 +0000
Subject: [PATCH 013/124] fix: decision tree: class probabilities ignored
 one-vs-all splits on categorical features

---
 .../tree/decision_tree_inference.hpp             | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_inference.hpp b/source/core/decision_forest/tree/decision_tree_inference.hpp
index b5935b0..ef6bb3c 100644
--- a/source/core/decision_forest/tree/decision_tree_inference.hpp
+++ b/source/core/decision_forest/tree/decision_tree_inference.hpp
@@ -152,13 +152,15 @@ da_status decision_tree<T>::predict_proba(da_int nsamp, da_int nfeat, const T *X
         da_int current_node_idx = 0;
         while (!current_node->is_leaf) {
             T feat_val = X_test_temp[ldx_test_temp * current_node->feature + i];
-            if (feat_val < current_node->x_threshold) {
-                current_node_idx = current_node->left_child_idx;
-                current_node = &tree[current_node_idx];
-            } else {
-                current_node_idx = current_node->right_child_idx;
-                current_node = &tree[current_node_idx];
-            }
+            bool go_left;
+            if (current_node->prop == continuous ||
+                current_node->prop == categorical_ordered)
+                go_left = feat_val < current_node->x_threshold;
+            else
+                go_left = (da_int)std::round(feat_val) == current_node->category;
+            current_node_idx = go_left ? current_node->left_child_idx
+                                       : current_node->right_child_idx;
+            current_node = &tree[current_node_idx];
         }
         for (da_int j = 0; j < n_class; j++)
             y_proba_pred_temp[ldy_proba_pred_temp * j + i] =
-- 
2.43.0


From 296ce441657f357cbe2384777fb46a5f50854b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:03 +0000
Subject: [PATCH 014/124] fix: decision tree: a tree of depth 0 has one leaf,
 not none

---
 source/core/decision_forest/tree/decision_tree_training_fit.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/core/decision_forest/tree/decision_tree_training_fit.hpp b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
index 1bdabd5..25ed808 100644
--- a/source/core/decision_forest/tree/decision_tree_training_fit.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
@@ -548,6 +548,8 @@ template <typename T> da_status decision_tree<T>::fit() {
     // Insert the root node in the queue if the maximum depth is big enough
     if (max_depth > 0)
         nodes_to_treat.push_back(0);
+    else
+        n_leaves = 1;
 
     if (n_threads_split > 1) {
         status = fit_parallel();
-- 
2.43.0


From ce68e971a98809a0f10eb992ad9f3ae43c334afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:18 +0000
Subject: [PATCH 015/124] fix: decision tree: the depth reported after a second
 fit was that of the deepest tree so far

---
 .../core/decision_forest/tree/decision_tree_training_fit.hpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_fit.hpp b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
index 25ed808..1515656 100644
--- a/source/core/decision_forest/tree/decision_tree_training_fit.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
@@ -519,8 +519,9 @@ template <typename T> da_status decision_tree<T>::fit() {
         n_obs = samples_idx.size();
     }
 
-    // Reset number of leaves (if calling fit multiple times)
+    // Reset number of leaves and depth (if calling fit multiple times)
     n_leaves = 0;
+    depth = 0;
 
     // Initialize the root node
     n_nodes = 1;
-- 
2.43.0


From 5149fcc6f0e023bbd3e935a0c9a8c2b738fa7114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:39 +0000
Subject: [PATCH 016/124] fix: decision tree: the root was split whatever its
 score, ignoring the minimum split score

---
 .../core/decision_forest/tree/decision_tree_training_fit.hpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_fit.hpp b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
index 1515656..e829f04 100644
--- a/source/core/decision_forest/tree/decision_tree_training_fit.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
@@ -547,7 +547,8 @@ template <typename T> da_status decision_tree<T>::fit() {
     }
 
     // Insert the root node in the queue if the maximum depth is big enough
-    if (max_depth > 0)
+    // and its score high enough
+    if (max_depth > 0 && tree[0].score > min_split_score)
         nodes_to_treat.push_back(0);
     else
         n_leaves = 1;
-- 
2.43.0


From 84261a472d9e31585e4fe30faaf3d74414e8628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:55 +0000
Subject: [PATCH 017/124] fix: decision tree: equal feature values were counted
 several times when the left side had too few samples

---
 .../core/decision_forest/tree/decision_tree_training_split.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index aa49997..0dbe8ac 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -383,7 +383,8 @@ void decision_tree<T>::split_raw_continuous(const node<T> &current_node, split<T
                             ns_left, ns_right, left_score, right_score, split_score,
                             ws.feature_values, ws, samp);
         if (ns_left < min_node_sample) {
-            ++sidx;
+            // All the samples up to next_idx have been counted
+            sidx = next_idx + 1;
             continue;
         }
         if (ns_right < min_node_sample)
-- 
2.43.0


From 55e41c0fdeb78d9adc2f8df08ad21ab60ad5b952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:51 +0000
Subject: [PATCH 018/124] fix: decision tree: binned data were indexed with the
 leading dimension of X when partitioning samples

---
 .../decision_forest/tree/decision_tree_training_partition.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_partition.hpp b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
index 6a3f8ff..d829d37 100644
--- a/source/core/decision_forest/tree/decision_tree_training_partition.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
@@ -96,7 +96,7 @@ da_int decision_tree<T>::partition_samples_hist_ordered(const node<T> &nd) {
     da_int head_idx = nd.start_idx;
     da_int tail_idx = nd.end_idx;
     uint16_t cat_thresh = nd.category;
-    da_int col_idx = ldx * nd.feature;
+    da_int col_idx = n_samples * nd.feature;
     while (head_idx < tail_idx) {
         da_int head = samples_idx[head_idx];
         da_int tail = samples_idx[tail_idx];
@@ -120,7 +120,7 @@ da_int decision_tree<T>::partition_samples_hist_onevall(const node<T> &nd) {
     da_int head_idx = nd.start_idx;
     da_int tail_idx = nd.end_idx;
     uint16_t cat_thresh = nd.category;
-    da_int col_idx = ldx * nd.feature;
+    da_int col_idx = n_samples * nd.feature;
     while (head_idx < tail_idx) {
         da_int head = samples_idx[head_idx];
         da_int tail = samples_idx[tail_idx];
-- 
2.43.0


From d6ad6fc0b1ae3b78fa0e884bd3133b78cc3e6cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:51 +0000
Subject: [PATCH 019/124] fix: decision tree and forest: predict_log_proba
 ignored the number of classes passed in and, for forests, errors

---
 .../decision_forest/forest/decision_forest_inference.hpp     | 5 ++++-
 source/core/decision_forest/tree/decision_tree_inference.hpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/core/decision_forest/forest/decision_forest_inference.hpp b/source/core/decision_forest/forest/decision_forest_inference.hpp
index 9deb638..081f133 100644
--- a/source/core/decision_forest/forest/decision_forest_inference.hpp
+++ b/source/core/decision_forest/forest/decision_forest_inference.hpp
@@ -249,7 +249,10 @@ da_status decision_forest<T>::predict_log_proba(da_int nsamp, da_int nfeat,
                                                 T *y_log_proba, da_int nclass,
                                                 da_int ldy) {
 
-    predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, n_class, ldy);
+    da_status status =
+        predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, nclass, ldy);
+    if (status != da_status_success)
+        return status;
 
     if (this->order == column_major) {
         for (da_int j = 0; j < nclass; j++) {
diff --git a/source/core/decision_forest/tree/decision_tree_inference.hpp b/source/core/decision_forest/tree/decision_tree_inference.hpp
index ef6bb3c..c7158c2 100644
--- a/source/core/decision_forest/tree/decision_tree_inference.hpp
+++ b/source/core/decision_forest/tree/decision_tree_inference.hpp
@@ -185,7 +185,7 @@ da_status decision_tree<T>::predict_log_proba(da_int nsamp, da_int nfeat, const
                                               da_int nclass, da_int ldy) {
     da_status status = da_status_success;
 
-    status = predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, n_class, ldy);
+    status = predict_proba(nsamp, nfeat, X_test, ldx_test, y_log_proba, nclass, ldy);
     if (status != da_status_success)
         return status;
 
-- 
2.43.0


From 4bbd6df460e909147dc1a1e6d29c1efaae7f7bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:51 +0000
Subject: [PATCH 020/124] fix: decision tree: training and prediction split
 samples differently when the mid-point of two values is one of them; constant
 features ignore the feature threshold

---
 .../tree/decision_tree_training_partition.hpp        |  4 ++--
 .../tree/decision_tree_training_split.hpp            | 12 +++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_partition.hpp b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
index d829d37..0f6aa47 100644
--- a/source/core/decision_forest/tree/decision_tree_training_partition.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_partition.hpp
@@ -56,9 +56,9 @@ da_int decision_tree<T>::partition_samples_raw_continuous(const node<T> &nd) {
         da_int t_sidx = samples_idx[tail_idx];
         T head_val = X[start_col + h_sidx];
         T tail_val = X[start_col + t_sidx];
-        if (head_val <= nd.x_threshold)
+        if (head_val < nd.x_threshold)
             head_idx += 1;
-        else if (tail_val > nd.x_threshold)
+        else if (tail_val >= nd.x_threshold)
             tail_idx -= 1;
         else {
             std::swap(samples_idx[head_idx], samples_idx[tail_idx]);
diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index 0dbe8ac..8d6019a 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -108,7 +108,8 @@ bool decision_tree<T>::update_split_sorted(da_int sidx, da_int &next_idx, da_int
     bool end_split_search = false;
     next_idx = sidx;
     while (next_idx + 1 <= end_idx &&
-           std::abs(fv[next_idx + 1] - fv[sidx]) < feat_thresh) {
+           (fv[next_idx + 1] == fv[sidx] ||
+            std::abs(fv[next_idx + 1] - fv[sidx]) < feat_thresh)) {
         next_idx++;
     }
     if (next_idx >= end_idx)
@@ -398,6 +399,10 @@ void decision_tree<T>::split_raw_continuous(const node<T> &current_node, split<T
             sp.score = split_score;
             sp.threshold =
                 (ws.feature_values[next_idx] + ws.feature_values[next_idx + 1]) / 2;
+            // The mid-point of 2 close (or very large) values may not separate them
+            if (!(sp.threshold > ws.feature_values[next_idx] &&
+                  sp.threshold <= ws.feature_values[next_idx + 1]))
+                sp.threshold = ws.feature_values[next_idx + 1];
             sp.right_score = right_score;
             sp.left_score = left_score;
             sp.prop = continuous;
@@ -424,8 +429,9 @@ bool decision_tree<T>::compute_best_split_raw(const node<T> &nd, da_int feat_idx
                                    (da_int)(2 * std::log2(node_obs) + 2));
         }
 
-        if (std::abs(ws.feature_values[nd.start_idx] - ws.feature_values[nd.end_idx]) <
-            (T)1.0e-05)
+        if (ws.feature_values[nd.start_idx] == ws.feature_values[nd.end_idx] ||
+            std::abs(ws.feature_values[nd.start_idx] - ws.feature_values[nd.end_idx]) <
+                feat_thresh)
             // feature is constant, mark to skip it
             return true;
         sp.feat_idx = feat_idx;
-- 
2.43.0


From 222bf926d3cda177f015561daa6e540d91b58a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:51 +0000
Subject: [PATCH 021/124] fix: decision tree: one-vs-all splits on binned data
 were skipped depending on the sizes of earlier categories

---
 .../decision_forest/tree/decision_tree_training_split.hpp   | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index 8d6019a..ff33666 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -265,7 +265,6 @@ bool decision_tree<T>::compute_best_split_hist(const node<T> &nd, da_int feat_id
     if (n_cat < X_binned->max_bin)
         prop = (split_property)cat_split_strat;
 
-    da_int old_ns_left = 0;
     da_int thresh_start_idx = feat_idx * (X_binned->max_bin - 1);
     for (da_int cat = 0; cat < n_cat; ++cat) {
         if (ws.hist_count_samples[cat] == 0)
@@ -278,11 +277,8 @@ bool decision_tree<T>::compute_best_split_hist(const node<T> &nd, da_int feat_id
         else
             split_hist_ordered(nd, ns_left, ns_right, cat_start_idx, ws);
 
-        if (ns_left < min_node_sample || ns_left <= old_ns_left)
+        if (ns_left < min_node_sample || ns_right < min_node_sample)
             continue;
-        if (ns_right < min_node_sample)
-            break;
-        old_ns_left = ns_left;
 
         T left_score = score_function(ns_left, n_class, ws.count_left_classes);
         T right_score = score_function(ns_right, n_class, ws.count_right_classes);
-- 
2.43.0


From 3fdffcaa6f2557fa223a3f7dbce3dfa2e4c1d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:51 +0000
Subject: [PATCH 022/124] fix: decision forest: one-vs-all splits on raw
 categories ignored how often a sample was drawn

---
 .../core/decision_forest/tree/decision_tree_training_split.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_split.hpp b/source/core/decision_forest/tree/decision_tree_training_split.hpp
index ff33666..84cc583 100644
--- a/source/core/decision_forest/tree/decision_tree_training_split.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_split.hpp
@@ -324,7 +324,8 @@ void decision_tree<T>::split_raw_onevall(const node<T> &current_node, da_int fea
         da_int idx = samp[i];
         da_int c = y[idx];
         da_int cat = std::round(ws.feature_values[i]);
-        ws.cat_feat_table[cat * n_class + c]++;
+        ws.cat_feat_table[cat * n_class + c] +=
+            bootstrap ? bootstrap_sample_frequency[idx] : 1;
     }
 
     for (da_int cat = 0; cat < cat_feat[feat_idx]; cat++) {
-- 
2.43.0


From 959a61263478aaa0ba40c8a00a09348a2b14e7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:51 +0000
Subject: [PATCH 023/124] fix: decision tree: features with equal scores were
 chosen by thread timing

---
 source/core/decision_forest/tree/decision_tree_training_fit.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_fit.hpp b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
index e829f04..1a7b12b 100644
--- a/source/core/decision_forest/tree/decision_tree_training_fit.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
@@ -377,7 +377,7 @@ template <typename T> da_status decision_tree<T>::fit_parallel() {
             local_done = done;
 
             // Parallel feature evaluation
-#pragma omp for schedule(dynamic)
+#pragma omp for schedule(static)
             for (da_int i = 0; i < n_selected; i++) {
                 node<T> &current_node = tree[node_idx];
                 da_int tid = omp_get_thread_num();
-- 
2.43.0


From 5b173c3ccafd1b4481ca51781271a50d579e92c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:24 +0000
Subject: [PATCH 024/124] fix: decision tree: rounding could create more
 histogram bins than the maximum, overflowing the thresholds

---
 source/core/decision_forest/common/histogram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/common/histogram.cpp b/source/core/decision_forest/common/histogram.cpp
index cae7a0d..7961127 100644
--- a/source/core/decision_forest/common/histogram.cpp
+++ b/source/core/decision_forest/common/histogram.cpp
@@ -54,7 +54,8 @@ void bins<T>::compute_thresholds(std::vector<T> &values, da_int vals_idx, da_int
     da_int bin_idx = 0;
     T q = q_step;
     da_int thresh_start_idx = feat_idx * (max_bin - 1);
-    while (q <= (T)1.0 - (T)0.001 * q_step) {
+    // q accumulates rounding errors: never create more than max_bin bins
+    while (bin_idx < max_bin - 1 && q <= (T)1.0 - (T)0.001 * q_step) {
         da_int threshold_idx = (da_int)std::round(q * n_elem) - 1;
         da_int r_idx = threshold_idx;
         // Explore the right side of the threshold for flat regions
-- 
2.43.0


From a01c0118a4d2f2716187497f2062110ed793dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:24 +0000
Subject: [PATCH 025/124] fix: decision tree and forest: training data rejected
 in a second call left a dangling pointer to the earlier copy

---
 .../decision_forest_handle_utilities.hpp      | 21 ++++++++++-------
 .../tree/decision_tree_handle_utilities.hpp   | 23 ++++++++++++-------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp b/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
index 5ed8353..2e1e909 100644
--- a/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
+++ b/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
@@ -106,22 +106,27 @@ da_status decision_forest<T>::set_training_data(da_int n_samples, da_int n_featu
                                                 da_int n_class,
                                                 const da_int *usr_cat_feat) {
 
-    // Guard against errors due to multiple calls using the same class instantiation
-    if (X_temp) {
-        delete[] (X_temp);
-        X_temp = nullptr;
-    }
-
+    // The data of an earlier call must stay valid if the new data are rejected
+    T *new_X_temp = nullptr;
+    const T *new_X = nullptr;
+    da_int new_ldx = 0;
     da_status status =
-        this->store_2D_array(n_samples, n_features, X, ldx, &X_temp, &this->X, this->ldx,
+        this->store_2D_array(n_samples, n_features, X, ldx, &new_X_temp, &new_X, new_ldx,
                              "n_samples", "n_features", "X", "ldx");
     if (status != da_status_success)
         return status;
 
     status = this->check_1D_array(n_samples, y, "n_samples", "y", 1);
-    if (status != da_status_success)
+    if (status != da_status_success) {
+        delete[] (new_X_temp);
         return status;
+    }
 
+    if (X_temp)
+        delete[] (X_temp);
+    X_temp = new_X_temp;
+    this->X = new_X;
+    this->ldx = new_ldx;
     this->refresh();
     this->y = y;
     this->n_samples = n_samples;
diff --git a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
index b57e1fc..3d8fc95 100644
--- a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
+++ b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
@@ -47,29 +47,35 @@ da_status decision_tree<T>::set_training_data(da_int n_samples, da_int n_feature
                                               da_int *samples_subset,
                                               const da_int *usr_cat_feat) {
 
-    // Guard against errors due to multiple calls using the same class instantiation
-    if (X_temp) {
-        delete[] (X_temp);
-        X_temp = nullptr;
-    }
-
+    // The data of an earlier call must stay valid if the new data are rejected
+    T *new_X_temp = nullptr;
+    const T *new_X = nullptr;
+    da_int new_ldx = 0;
     da_status status =
-        this->store_2D_array(n_samples, n_features, X, ldx, &X_temp, &this->X, this->ldx,
+        this->store_2D_array(n_samples, n_features, X, ldx, &new_X_temp, &new_X, new_ldx,
                              "n_samples", "n_features", "X", "ldx");
     if (status != da_status_success)
         return status;
 
     status = this->check_1D_array(n_samples, y, "n_samples", "y", 1);
-    if (status != da_status_success)
+    if (status != da_status_success) {
+        delete[] (new_X_temp);
         return status;
+    }
 
     if (n_obs > n_samples || n_obs < 0) {
+        delete[] (new_X_temp);
         return da_error_bypass(this->err, da_status_invalid_input,
                                "n_obs = " + std::to_string(n_obs) +
                                    ", it must be set between 0 and n_samples = " +
                                    std::to_string(n_samples));
     }
 
+    if (X_temp)
+        delete[] (X_temp);
+    X_temp = new_X_temp;
+    this->X = new_X;
+    this->ldx = new_ldx;
     this->refresh();
     this->y = y;
     this->n_samples = n_samples;
@@ -140,6 +146,7 @@ template <typename T> void decision_tree<T>::clear_working_memory() {
     thread_workspaces = std::vector<split_workspace<T>>();
     if (X_temp) {
         delete[] (X_temp);
+        X_temp = nullptr;
         X = nullptr;
     }
     if (X_binned && internal_bins) {
-- 
2.43.0


From 827da29e91e07e3cb26dc405dc3bbba15acbef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:24 +0000
Subject: [PATCH 026/124] fix: decision forest: predictions after new training
 data or a failed fit used stale trees or crashed

---
 .../forest/decision_forest_handle_utilities.hpp                | 2 +-
 .../core/decision_forest/forest/decision_forest_training.hpp   | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp b/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
index 2e1e909..831b066 100644
--- a/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
+++ b/source/core/decision_forest/forest/decision_forest_handle_utilities.hpp
@@ -127,7 +127,7 @@ da_status decision_forest<T>::set_training_data(da_int n_samples, da_int n_featu
     X_temp = new_X_temp;
     this->X = new_X;
     this->ldx = new_ldx;
-    this->refresh();
+    this->model_trained = false;
     this->y = y;
     this->n_samples = n_samples;
     this->n_features = n_features;
diff --git a/source/core/decision_forest/forest/decision_forest_training.hpp b/source/core/decision_forest/forest/decision_forest_training.hpp
index b6bb16e..bebc12b 100644
--- a/source/core/decision_forest/forest/decision_forest_training.hpp
+++ b/source/core/decision_forest/forest/decision_forest_training.hpp
@@ -68,6 +68,9 @@ template <typename T> da_status decision_forest<T>::fit() {
         return da_error_bypass(this->err, da_status_no_data,
                                "No data has been passed to the handle.");
 
+    // Any earlier model is replaced, even if the training fails below
+    this->model_trained = false;
+
     // Read optional parameters
     bool opt_pass = true, bootstrap;
     da_int max_depth, min_node_sample, method, nfeat_split, bootstrap_opt, feat_select,
-- 
2.43.0


From 091d9a88daa112ace01e842ce884b08523f5d840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:05 +0000
Subject: [PATCH 027/124] fix: decision tree: a feature constant in one node
 was treated as constant in its sibling too and never split on

---
 .../tree/decision_tree_training_fit.hpp           | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/source/core/decision_forest/tree/decision_tree_training_fit.hpp b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
index 1a7b12b..ee30d1a 100644
--- a/source/core/decision_forest/tree/decision_tree_training_fit.hpp
+++ b/source/core/decision_forest/tree/decision_tree_training_fit.hpp
@@ -173,11 +173,6 @@ da_status decision_tree<T>::split_node_and_add_children(da_int node_idx,
                                                         split<T> &best_split) {
     node<T> &current_node = tree[node_idx];
 
-    // Project back the discovered constant features to the parent
-    if (node_idx > 0 &&
-        tree[current_node.parent_idx].const_feat_idx > current_node.const_feat_idx)
-        tree[current_node.parent_idx].const_feat_idx = current_node.const_feat_idx;
-
     // Split the node and add the 2 children
     if (best_split.feat_idx != -1) {
         current_node.is_leaf = false;
@@ -240,11 +235,6 @@ template <typename T> da_status decision_tree<T>::fit_serial() {
         da_int node_idx = get_next_node_idx();
         node<T> &current_node = tree[node_idx];
 
-        // update the constant features discovered by the sibling node if necessary
-        if (node_idx > 0 &&
-            tree[current_node.parent_idx].const_feat_idx < current_node.const_feat_idx)
-            current_node.const_feat_idx = tree[current_node.parent_idx].const_feat_idx;
-
         best_split.score = current_node.score;
         best_split.feat_idx = -1;
         if (node_idx > 0) {
@@ -322,11 +312,6 @@ template <typename T> da_status decision_tree<T>::fit_parallel() {
                     node_idx = get_next_node_idx();
                     node<T> &current_node = tree[node_idx];
 
-                    if (node_idx > 0 && tree[current_node.parent_idx].const_feat_idx <
-                                            current_node.const_feat_idx)
-                        current_node.const_feat_idx =
-                            tree[current_node.parent_idx].const_feat_idx;
-
                     best_split.score = current_node.score;
                     best_split.feat_idx = -1;
                     if (node_idx > 0) {
-- 
2.43.0


From 674366ff7d93b077f1dea6d3937d46e66786dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 028/124] fix: interpolation: cell search missed the cell
 through rounding and overflowed on far points

---
 .../interpolation/interpolation_generic.hpp   | 65 ++++++++++---------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index d8eb0e3..2c1d17a 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -60,9 +60,10 @@ template <typename T> class interpolation_generic {
 
     // non-uniform sites working data
     // Index to find the interval for a given x:
-    // for i in [0, index_size-1]:
-    // interval_index_lo[i] is the index of the largest site smaller than x_start + i*dx_index
-    // and interval_index_up[i] is the index of the smallest site larger than x_start + i*dx_index
+    // index_bucket maps x to an integer in [0, index_size-1] that never decreases with x.
+    // For i in [0, index_size-1]:
+    // interval_index_lo[i] is the index of the last site in a bucket before i (or 0)
+    // and interval_index_up[i] is the index of the first site in a bucket after i (or n_sites-1)
     da_int index_size = 0;
     std::vector<da_int> interval_index_lo, interval_index_up;
 
@@ -90,6 +91,16 @@ template <typename T> class interpolation_generic {
         x_sites = nullptr;
     };
     void refresh();
+    // Truncate v to an integer in [0, n], without overflow in the conversion
+    static da_int clamped_index(T v, da_int n) {
+        if (!(v > (T)0))
+            return 0;
+        return v >= (T)n ? n : static_cast<da_int>(v);
+    }
+    da_int index_bucket(T x) const {
+        return clamped_index((x - x_start) * ((T)(index_size - 2) / x_range),
+                             index_size - 1);
+    }
     da_status set_sites_1d(da_int n, const T *x);
     da_status set_sites_uniform_1d(da_int n, T x_start, T x_end);
     da_status set_values_1d(da_int n, da_int dim, const T *y_data, da_int ldy_data,
@@ -160,31 +171,18 @@ da_status interpolation_generic<T>::set_sites_1d(da_int n, const T *x) {
     }
 
     // Build index:
-    // interval_index_lo[i] = idx where x_sites[idx] <= x_start + i*dx_index
-    // interval_index_up[i] = idx where x_sites[idx] >= x_start + i*dx_index
-    T dx_index = x_range / (T)(index_size - 2);
-    T x_target = x_start;
-    interval_index_lo[0] = 0;
-    for (da_int i = 1; i < index_size - 1; i++) {
-        x_target += dx_index;
-        da_int left = interval_index_lo[i - 1];
-        da_int right = n_sites - 1;
-        while (right - left > 1) {
-            da_int mid = (left + right) / 2;
-            if (x_target < x_sites[mid])
-                right = mid;
-            else
-                left = mid;
-        }
-        interval_index_lo[i] = left;
-        interval_index_up[i - 1] = right;
+    // interval_index_lo[i] = last site in a bucket before i
+    // interval_index_up[i] = first site in a bucket after i
+    for (da_int i = 0, site = 0; i < index_size; i++) {
+        while (site < n_sites && index_bucket(x_sites[site]) < i)
+            site++;
+        interval_index_lo[i] = std::clamp(site - 1, (da_int)0, n_sites - 2);
+    }
+    for (da_int i = index_size - 1, site = n_sites - 1; i >= 0; i--) {
+        while (site >= 0 && index_bucket(x_sites[site]) > i)
+            site--;
+        interval_index_up[i] = std::clamp(site + 1, (da_int)1, n_sites - 1);
     }
-    // Last indices used to handle out of bounds requests
-    // If x > x_sites[n_sites-1], return last interval (index n_sites - 2)
-    interval_index_lo[index_size - 2] = n_sites - 2;
-    interval_index_lo[index_size - 1] = n_sites - 2;
-    interval_index_up[index_size - 2] = n_sites - 1;
-    interval_index_up[index_size - 1] = n_sites - 1;
 
     model_trained = false;
     sites_set = true;
@@ -337,16 +335,19 @@ da_status interpolation_generic<T>::search_cells(da_int n_eval, const T *x_eval,
         T dx_u = dx[0];
         for (da_int i = 0; i < n_eval; i++) {
             T x = x_eval[i];
-            da_int idx = static_cast<da_int>((x - this->x_start) / dx_u);
-            cells[i] = std::clamp(idx, (da_int)0, this->n_sites - 2);
+            da_int idx = clamped_index((x - this->x_start) / dx_u, this->n_sites - 2);
+            // The division may round to the other side of a site
+            while (idx > 0 && x < this->x_sites[idx])
+                idx--;
+            while (idx < this->n_sites - 2 && x >= this->x_sites[idx + 1])
+                idx++;
+            cells[i] = idx;
         }
     } else {
-        T i_dx_u = (T)(index_size - 2) / x_range;
         // Binary search inside the indexed interval.
         for (da_int i = 0; i < n_eval; i++) {
             T x = x_eval[i];
-            da_int idx = std::clamp((da_int)((x - x_start) * i_dx_u), (da_int)0,
-                                    (da_int)(index_size - 2));
+            da_int idx = index_bucket(x);
             da_int left = interval_index_lo[idx];
             da_int right = interval_index_up[idx];
             while (right - left > 1) {
-- 
2.43.0


From 347b9d164a38560c9da3d155c6046947519c88e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:28 +0000
Subject: [PATCH 029/124] fix: interpolation: an invalid model was remembered
 and the next call crashed

---
 source/core/interpolation/interpolation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/interpolation/interpolation.cpp b/source/core/interpolation/interpolation.cpp
index 9b8ef7e..8785898 100644
--- a/source/core/interpolation/interpolation.cpp
+++ b/source/core/interpolation/interpolation.cpp
@@ -50,7 +50,6 @@ da_status interpolation_p<T>::select_model(da_interpolation_model model) {
         return da_error(this->err, da_status_invalid_input,
                         "Cannot change the interpolation model once it has been set.");
 
-    this->model = model;
     switch (model) {
     case da_interpolation_model::interpolation_cubic_spline:
         interp = std::make_unique<cubic_spline<T>>(*this->err, this->opts);
@@ -61,6 +60,7 @@ da_status interpolation_p<T>::select_model(da_interpolation_model model) {
                         "The model selected is invalid.");
         break;
     }
+    this->model = model;
 
     return da_status_success;
 }
-- 
2.43.0


From 3579d9964ad4bb98c1a1c311357cf708a58ca9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:05 +0000
Subject: [PATCH 030/124] fix: interpolation: the leading dimension of the
 values and the layout of the derivatives were ignored

---
 .../cubic_spline/cubic_spline.cpp             | 62 +++++--------------
 .../interpolation/interpolation_generic.hpp   | 28 ++++++---
 2 files changed, 35 insertions(+), 55 deletions(-)

diff --git a/source/core/interpolation/cubic_spline/cubic_spline.cpp b/source/core/interpolation/cubic_spline/cubic_spline.cpp
index 7e577ff..a392e47 100644
--- a/source/core/interpolation/cubic_spline/cubic_spline.cpp
+++ b/source/core/interpolation/cubic_spline/cubic_spline.cpp
@@ -160,16 +160,13 @@ template <typename T> void cubic_spline<T>::coeffs_from_second_derivatives() {
         da_int start_dy = d * (this->n_sites - 1);
         da_int start_dim = d * 4 * (this->n_sites - 1);
         for (da_int i = 0; i < this->n_sites - 1; i++) {
-            da_int y_idx = this->storage_order == (da_int)row_major
-                               ? (i * this->dim_y + d)
-                               : (d * this->n_sites + i);
             coeffs[start_dim + 4 * i + 3] =
                 (z[start_z + i + 1] - z[start_z + i]) / (6 * this->dx[i]); // A_i
             coeffs[start_dim + 4 * i + 2] = z[start_z + i] / 2;            // B_i
             coeffs[start_dim + 4 * i + 1] = this->dy[start_dy + i] / this->dx[i] -
                                             this->dx[i] * z[start_z + i + 1] / 6 -
                                             this->dx[i] * z[start_z + i] / 3; // C_i
-            coeffs[start_dim + 4 * i + 0] = this->y[y_idx];                   // D_i
+            coeffs[start_dim + 4 * i + 0] = this->y[this->y_at(i, d)];        // D_i
         }
     }
 }
@@ -308,53 +305,26 @@ template <typename T> da_status cubic_spline<T>::compute_hermite_spline() {
                         "Memory allocation error");
     }
 
-    if (this->storage_order == column_major || this->dim_y <= 1) {
-        for (da_int d = 0; d < this->dim_y; d++) {
-            da_int start_dim = d * 4 * (this->n_sites - 1);
-            da_int start_y = d * this->n_sites;
-            da_int start_dy = d * (this->n_sites - 1);
-
-            for (da_int i = 0; i < this->n_sites - 1; i++) {
-                T h_i = this->dx[i];
-                T y_i = this->y[start_y + i];
-                T yp_i = this->y_deriv[start_y + i];
-                T yp_ip1 = this->y_deriv[start_y + i + 1];
-                T dy_i = this->dy[start_dy + i];
-
-                T h_i2 = h_i * h_i;
-                T h_i3 = h_i2 * h_i;
-
-                coeffs[start_dim + 4 * i + 0] = y_i;  // D_i
-                coeffs[start_dim + 4 * i + 1] = yp_i; // C_i
-                coeffs[start_dim + 4 * i + 2] =
-                    3 * dy_i / h_i2 - (2 * yp_i + yp_ip1) / h_i; // B_i
-                coeffs[start_dim + 4 * i + 3] =
-                    -2 * dy_i / h_i3 + (yp_i + yp_ip1) / h_i2; // A_i
-            }
-        }
-    } else {
-        for (da_int i = 0; i < this->n_sites - 1; i++) {
-            da_int start_y = i * this->dim_y;
-            da_int start_dim = i * 4;
+    for (da_int d = 0; d < this->dim_y; d++) {
+        da_int start_dim = d * 4 * (this->n_sites - 1);
+        da_int start_dy = d * (this->n_sites - 1);
 
+        for (da_int i = 0; i < this->n_sites - 1; i++) {
             T h_i = this->dx[i];
+            T y_i = this->y[this->y_at(i, d)];
+            T yp_i = this->y_deriv[this->y_deriv_at(i, d)];
+            T yp_ip1 = this->y_deriv[this->y_deriv_at(i + 1, d)];
+            T dy_i = this->dy[start_dy + i];
+
             T h_i2 = h_i * h_i;
             T h_i3 = h_i2 * h_i;
 
-            for (da_int d = 0; d < this->dim_y; d++) {
-                da_int d_start = d * (this->n_sites - 1);
-                T y_i = this->y[start_y + d];
-                T yp_i = this->y_deriv[start_y + d];
-                T yp_ip1 = this->y_deriv[start_y + this->dim_y + d];
-                T dy_i = this->dy[d_start + i];
-
-                coeffs[start_dim + 4 * d * (this->n_sites - 1) + 0] = y_i;  // D_i
-                coeffs[start_dim + 4 * d * (this->n_sites - 1) + 1] = yp_i; // C_i
-                coeffs[start_dim + 4 * d * (this->n_sites - 1) + 2] =
-                    3 * dy_i / h_i2 - (2 * yp_i + yp_ip1) / h_i; // B_i
-                coeffs[start_dim + 4 * d * (this->n_sites - 1) + 3] =
-                    -2 * dy_i / h_i3 + (yp_i + yp_ip1) / h_i2; // A_i
-            }
+            coeffs[start_dim + 4 * i + 0] = y_i;  // D_i
+            coeffs[start_dim + 4 * i + 1] = yp_i; // C_i
+            coeffs[start_dim + 4 * i + 2] =
+                3 * dy_i / h_i2 - (2 * yp_i + yp_ip1) / h_i; // B_i
+            coeffs[start_dim + 4 * i + 3] =
+                -2 * dy_i / h_i3 + (yp_i + yp_ip1) / h_i2; // A_i
         }
     }
 
diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index 2c1d17a..5527e3c 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -44,9 +44,16 @@ template <typename T> class interpolation_generic {
     // Dimensions
     da_int n_sites = 0; // Number of interpolation sites (data points)
     da_int dim_y = 0;   // number of dimensions of interpolation values y
-    da_int ldy = 0;
+    // Layout of y and y_deriv: element (i, d) is at [i * row_stride + d * col_stride]
+    struct layout {
+        da_int row_stride = 1, col_stride = 0;
+        da_int operator()(da_int i, da_int d) const {
+            return i * row_stride + d * col_stride;
+        }
+    };
+    layout y_at, y_deriv_at;
+    da_int dim_y_deriv = 0; // number of dimensions of the derivatives
     // Interpolation points (x_i, y_i)
-    da_order storage_order = column_major;
     T *x_internal = nullptr;
     const T *x_sites = nullptr, *x_usr = nullptr;
     const T *y = nullptr;
@@ -261,20 +268,23 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
     da_int check_data, sto;
     this->opts->get("storage order", opt_order, sto);
     this->opts->get("check data", check_data_str, check_data);
-    this->storage_order = da_order(sto);
+    da_order storage_order = da_order(sto);
 
     da_status status = ARCH::da_utils::check_2D_array(
-        check_data != 0, this->storage_order, this->err, n, dim, y_data, ldy_data,
+        check_data != 0, storage_order, this->err, n, dim, y_data, ldy_data,
         "n_sites", "dim", "y_data", "ldy_data", 2, 1);
     if (status != da_status_success)
         return status;
 
     this->n_sites = n;
+    layout at;
+    at.row_stride = storage_order == column_major ? 1 : ldy_data;
+    at.col_stride = storage_order == column_major ? ldy_data : 1;
 
     // Determine whether we're setting function values or derivatives
     if (order == 1) {
-        this->dim_y = dim;
-        this->ldy = ldy_data;
+        dim_y_deriv = dim;
+        y_deriv_at = at;
         y_deriv = y_data;
         derivatives_set = true;
     } else {
@@ -287,12 +297,12 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
 
         // Copy usr values and pointer
         this->dim_y = dim;
-        this->ldy = ldy_data;
+        y_at = at;
         y = y_data;
 
         if (storage_order == column_major) {
             for (da_int j = 0; j < dim; j++) {
-                da_int start_y = j * this->n_sites;
+                da_int start_y = j * ldy_data;
                 da_int start_dy = j * (this->n_sites - 1);
 #pragma omp simd
                 for (da_int i = 0; i < this->n_sites - 1; i++)
@@ -304,7 +314,7 @@ da_status interpolation_generic<T>::set_values_1d(da_int n, da_int dim, const T
             for (da_int i = 0; i < this->n_sites - 1; i++) {
 #pragma omp simd
                 for (da_int j = 0; j < dim; j++)
-                    dy[j * (n_sites - 1) + i] = y[(i + 1) * dim_y + j] - y[i * dim_y + j];
+                    dy[j * (n_sites - 1) + i] = y[(i + 1) * ldy_data + j] - y[i * ldy_data + j];
             }
         }
         values_set = true;
-- 
2.43.0


From 6469fe924453782142a9ab2e86f72419c5bda22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 031/124] fix: interpolation: boundary conditions or
 derivatives of another dimension than the values were read out of bounds

---
 .../core/interpolation/cubic_spline/cubic_spline.cpp   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/core/interpolation/cubic_spline/cubic_spline.cpp b/source/core/interpolation/cubic_spline/cubic_spline.cpp
index a392e47..29a04b1 100644
--- a/source/core/interpolation/cubic_spline/cubic_spline.cpp
+++ b/source/core/interpolation/cubic_spline/cubic_spline.cpp
@@ -231,10 +231,11 @@ template <typename T> da_status cubic_spline<T>::compute_clamped_spline() {
 
 template <typename T> da_status cubic_spline<T>::compute_custom_bc_spline() {
 
-    if (!this->custom_bc_set)
+    if (!this->custom_bc_set || (da_int)left_bc.size() != this->dim_y)
         return da_error(
             this->err, da_status_out_of_date,
-            "Boundary conditions must be set for custom spline interpolation.");
+            "Boundary conditions must be set for custom spline interpolation, in every "
+            "dimension of the values.");
 
     if (left_order == 1) {
         diag[0] = 2 * this->dx[0];
@@ -294,9 +295,10 @@ template <typename T> da_status cubic_spline<T>::compute_hermite_spline() {
      *   A_i = -2*(y_{i+1} - y_i)/h_i^3 + (y'_i + y'_{i+1})/h_i^2
      */
 
-    if (!this->derivatives_set)
+    if (!this->derivatives_set || this->dim_y_deriv != this->dim_y)
         return da_error(this->err, da_status_out_of_date,
-                        "Derivatives must be set for Hermite spline interpolation.");
+                        "Derivatives must be set for Hermite spline interpolation, in "
+                        "every dimension of the values.");
 
     try {
         coeffs.resize(4 * (this->n_sites - 1) * this->dim_y);
-- 
2.43.0


From b182dd58f2a80fb8de9ddc5d34dd0e0b30d0ee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 032/124] fix: interpolation: sites refused for their order
 still fixed the number of sites; NaN sites were accepted

---
 .../interpolation/interpolation_generic.hpp   | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/source/core/interpolation/interpolation_generic.hpp b/source/core/interpolation/interpolation_generic.hpp
index 5527e3c..e1af61c 100644
--- a/source/core/interpolation/interpolation_generic.hpp
+++ b/source/core/interpolation/interpolation_generic.hpp
@@ -145,6 +145,16 @@ da_status interpolation_generic<T>::set_sites_1d(da_int n, const T *x) {
                             ". Cannot change the number of interpolation sites when "
                             "sites are already set.");
 
+    // Check that the sites are sorted and do not contain duplicates, before keeping anything
+    for (da_int i = 0; i < n - 1; i++) {
+        if (!(x[i + 1] > x[i]))
+            return da_error(
+                this->err, da_status_invalid_input,
+                "All sites must be provided in strictly increasing order. x[" +
+                    std::to_string(i) + "] = " + std::to_string(x[i]) + " and x[" +
+                    std::to_string(i + 1) + "] = " + std::to_string(x[i + 1]));
+    }
+
     n_sites = n;
     x_usr = x;
     x_sites = x_usr;
@@ -165,17 +175,9 @@ da_status interpolation_generic<T>::set_sites_1d(da_int n, const T *x) {
     x_end = x_sites[n_sites - 1];
     x_range = x_end - x_start;
 
-    // Compute sites differences and check that the sites are sorted and do not contain duplicates
-    // (all dx elements are strictly positive)
-    for (da_int i = 0; i < n_sites - 1; i++) {
+    // Compute sites differences (all dx elements are strictly positive)
+    for (da_int i = 0; i < n_sites - 1; i++)
         dx[i] = x_sites[i + 1] - x_sites[i];
-        if (dx[i] <= 0.)
-            return da_error(
-                this->err, da_status_invalid_input,
-                "All sites must be provided in strictly increasing order. x[" +
-                    std::to_string(i) + "] = " + std::to_string(x_sites[i]) + " and x[" +
-                    std::to_string(i + 1) + "] = " + std::to_string(x_sites[i + 1]));
-    }
 
     // Build index:
     // interval_index_lo[i] = last site in a bucket before i
@@ -206,7 +208,7 @@ da_status interpolation_generic<T>::set_sites_uniform_1d(da_int n, T x_start, T
     if (n < 2)
         return da_error(this->err, da_status_invalid_input,
                         "Number of interpolation sites must be at least 2.");
-    if (x_end <= x_start)
+    if (!(x_end > x_start))
         return da_error(this->err, da_status_invalid_input,
                         "x_end must be greater than x_start.");
 
-- 
2.43.0


From 063968e269869a85b693a9b193310b2dc8668421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 033/124] fix: interval map: an interval containing an existing
 one was accepted

---
 source/core/data_management/interval_map.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/source/core/data_management/interval_map.hpp b/source/core/data_management/interval_map.hpp
index 9099a69..2d697de 100644
--- a/source/core/data_management/interval_map.hpp
+++ b/source/core/data_management/interval_map.hpp
@@ -117,6 +117,11 @@ template <class T> class interval_map {
             // lb or ub are already in the intervals => trying to create an overlap
             return da_status_invalid_input;
 
+        // An existing interval could also be contained in the new one
+        auto next = imap.upper_bound(bounds);
+        if (next != imap.end() && next->first.lower <= ub)
+            return da_status_invalid_input;
+
         imap.insert(std::make_pair(bounds, val));
         return da_status_success;
     }
@@ -131,8 +136,12 @@ template <class T> class interval_map {
         bool found = false;
         interval key_pair(key, key);
         auto it_lb = imap.lower_bound(key_pair);
-        if (it_lb == imap.end() || key_pair != it_lb->first)
+        if (it_lb == imap.end() || key_pair != it_lb->first) {
+            // No interval starts before the key
+            if (it_lb == imap.begin())
+                return false;
             --it_lb;
+        }
         if (it_lb != imap.end()) {
             lb = it_lb->first.lower;
             ub = it_lb->first.upper;
@@ -149,8 +158,12 @@ template <class T> class interval_map {
         }
         interval key_pair(key, key);
         auto it_lb = imap.lower_bound(key_pair);
-        if (it_lb == imap.end() || key_pair != it_lb->first)
+        if (it_lb == imap.end() || key_pair != it_lb->first) {
+            // No interval starts before the key
+            if (it_lb == imap.begin())
+                return iterator(imap.end());
             --it_lb;
+        }
         iterator it(it_lb);
         if (it == this->end() || key < it->first.lower || key > it->first.upper)
             it = this->end();
@@ -166,7 +179,7 @@ template <class T> class interval_map {
         }
         interval key_pair(key, key);
         auto it_lb = imap.lower_bound(key_pair);
-        if (it_lb == imap.end() || key_pair != it_lb->first)
+        if (it_lb != imap.begin() && (it_lb == imap.end() || key_pair != it_lb->first))
             --it_lb;
         iterator it(it_lb);
         return it;
-- 
2.43.0


From 19f388a098f3bc321376255e92243d89a988279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 034/124] fix: interval set: erasing a range that encloses
 every stored interval erased nothing

---
 source/core/data_management/interval_set.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/data_management/interval_set.cpp b/source/core/data_management/interval_set.cpp
index 91a5c49..062d999 100644
--- a/source/core/data_management/interval_set.cpp
+++ b/source/core/data_management/interval_set.cpp
@@ -129,7 +129,7 @@ da_status interval_set::erase(interval bounds) {
         it_lower = iset.end();
 
     // Every interval between it_lower and it_upper in included in the inserted interval
-    bool is_included = it_lower == it_upper;
+    bool is_included = it_lower != iset.end() && it_lower == it_upper;
     if (!is_included) {
         inter_set::iterator it = it_lower;
         if (it != iset.end())
-- 
2.43.0


From 2188ad740fe77b2a75cb9131c00e16efacfcd637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 035/124] fix: data store: row blocks spanning several column
 blocks shared one list of rows, pieces of other heights were accepted and
 refused pieces lost rows

---
 source/core/data_management/data_store.hpp | 145 +++++++++------------
 1 file changed, 58 insertions(+), 87 deletions(-)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index 25f7a79..5c72231 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -359,22 +359,13 @@ template <class T> class block_dense : public block_base<T> {
 /* Wrapper structure containing a pointer to a block and meta-data around the block */
 class block_id {
   public:
-    /* b: pointer to a generic block class
+    /* b: pointer to a generic block class; a block of rows can be shared between several column intervals
      * offset: column index of the first element in the block
-     * next: pointer to another block_id containing the next rows
-     * left_parent: pointer to the left most parent of the block_id; nullptr if it contains the first rows
+     * next: pointer to another block_id containing the next rows of the same column interval
      */
-    block *b = nullptr;
+    std::shared_ptr<block> b = nullptr;
     da_int offset = 0;
     std::shared_ptr<block_id> next = nullptr;
-    std::shared_ptr<block_id> left_parent = nullptr;
-
-    ~block_id() {
-        if (b) {
-            delete b;
-            b = nullptr;
-        }
-    };
 };
 
 using namespace da_interval;
@@ -408,9 +399,11 @@ class data_store {
     /* Data to handle partially added rows
      * missing_block: if true, blocks the other functionality until the partial row block is finished
      * idx_start_missing: column index of the start of the missing block
+     * m_missing: number of rows of the partially added block
      */
     bool missing_block = false;
     da_int idx_start_missing = 0;
+    da_int m_missing = 0;
 
     /* Hash map of selections, using user defined labels (c strings) */
     selection_map selections;
@@ -487,11 +480,12 @@ class data_store {
         std::shared_ptr<block_id> new_block;
         try {
             new_block = std::make_shared<block_id>(block_id());
-            new_block->b =
-                new block_dense<T>(mc, nc, data, *this->err, order, copy_data, C_data);
-            new_block->offset = n;
-            block_dense<T> *bd = static_cast<block_dense<T> *>(new_block->b);
+            index_to_name.reserve(n + nc);
+            auto bd = std::make_shared<block_dense<T>>(mc, nc, data, *this->err, order,
+                                                       copy_data, C_data);
             bd->set_own_data(own_data || copy_data);
+            new_block->b = bd;
+            new_block->offset = n;
             index_to_name.resize(n + nc, nullptr);
         } catch (std::bad_alloc &) {                     // LCOV_EXCL_LINE
             return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
@@ -514,17 +508,13 @@ class data_store {
                                bool copy_data = false, bool own_data = false,
                                bool C_data = false) {
         da_status status = da_status_success;
-        bool found;
-        da_int lb, ub, idx_start;
-        std::shared_ptr<block_id> new_block = nullptr;
 
         if (n <= 0) {
             // First block, columns need to be concatenated instead.
             status = this->concatenate_columns(mr, nr, data, order, copy_data, own_data,
                                                C_data);
         } else {
-            bool cleanup = false;
-            idx_start = 0;
+            da_int idx_start = 0;
             if (missing_block)
                 idx_start = idx_start_missing;
             if (mr <= 0)
@@ -533,75 +523,59 @@ class data_store {
             if (nr <= 0)
                 return da_error(err, da_status_invalid_input,
                                 "Number of columns must be positive");
-            if (n > 0 && nr + idx_start > n)
+            if (nr > n - idx_start)
+                return da_error(err, da_status_invalid_input,
+                                "Number of columns must be at most " +
+                                    std::to_string(n - idx_start) +
+                                    " (input: " + std::to_string(nr) + ")");
+            if (missing_block && mr != m_missing)
                 return da_error(err, da_status_invalid_input,
-                                "Number of rows must match " + std::to_string(m) +
-                                    " (input: " + std::to_string(nr + idx_start) + ")");
+                                "Number of rows must match the incomplete row block: " +
+                                    std::to_string(m_missing) +
+                                    " (input: " + std::to_string(mr) + ")");
 
-            // Create a dense block from the raw data
+            // Check that the new rows match the types and bounds of the existing column blocks
+            block_type btype = get_block_type<T>();
+            std::vector<std::shared_ptr<block_id>> last_blocks, new_blocks;
             try {
-                new_block = std::make_shared<block_id>(block_id());
-                new_block->b =
-                    new block_dense<T>(mr, nr, data, *err, order, copy_data, C_data);
-                block_dense<T> *bd = static_cast<block_dense<T> *>(new_block->b);
+                da_int lb, ub = idx_start - 1;
+                std::shared_ptr<block_id> current_block;
+                while (ub < idx_start + nr - 1) {
+                    if (!cmap.find(ub + 1, current_block, lb, ub))
+                        return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
+                                        "Couldn't find the column");
+                    if (btype != current_block->b->btype || ub > idx_start + nr - 1)
+                        return da_error(
+                            err, da_status_invalid_input,
+                            "cannot concatenate row(s), column types do not match.");
+                    while (current_block->next != nullptr)
+                        current_block = current_block->next;
+                    last_blocks.push_back(current_block);
+                }
+
+                // Create a dense block from the raw data, shared by the column intervals it spans
+                for (size_t i = 0; i < last_blocks.size(); i++) {
+                    new_blocks.push_back(std::make_shared<block_id>(block_id()));
+                    new_blocks[i]->offset = idx_start;
+                }
+                auto bd = std::make_shared<block_dense<T>>(mr, nr, data, *err, order,
+                                                           copy_data, C_data);
                 bd->set_own_data(own_data || copy_data);
+                for (auto &new_block : new_blocks)
+                    new_block->b = bd;
             } catch (std::bad_alloc &) {                     // LCOV_EXCL_LINE
                 return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
                                 "Memory allocation error");
             }
 
-            new_block->offset = idx_start;
-            block_type btype = get_block_type<T>();
+            for (size_t i = 0; i < last_blocks.size(); i++)
+                last_blocks[i]->next = new_blocks[i];
 
             if (!missing_block)
                 m += mr;
-            ub = idx_start - 1;
-            std::shared_ptr<block_id> current_block;
-            while (ub < idx_start + nr - 1) {
-                found = cmap.find(ub + 1, current_block, lb, ub);
-                if (!found)
-                    break;
-                if (btype != current_block->b->btype || ub > idx_start + nr - 1) {
-                    cleanup = true;
-                    status =
-                        da_error(err, da_status_invalid_input,
-                                 "cannot concatenate row(s), column types do not match.");
-                    break;
-                }
-                while (current_block->next != nullptr)
-                    current_block = current_block->next;
-                current_block->next = new_block;
-                if (new_block->left_parent == nullptr)
-                    new_block->left_parent = current_block;
-            }
-            if (!cleanup) {
-                if (idx_start + nr < n) {
-                    missing_block = true;
-                    idx_start_missing = idx_start + nr;
-                } else {
-                    missing_block = false;
-                    idx_start_missing = 0;
-                }
-            } else {
-                // Error occurred, clear the 'next' pointers from the existing blocks
-                ub = idx_start - 1;
-                std::shared_ptr<block_id> current_block;
-                while (ub < idx_start + nr - 1) {
-                    auto it = cmap.find(ub + 1);
-                    if (it == cmap.end())
-                        break;
-                    current_block = it->second;
-                    while (current_block->next != nullptr) {
-                        if (current_block->next == new_block)
-                            current_block->next = nullptr;
-                        else
-                            current_block = current_block->next;
-                    }
-                    ub = it->first.upper;
-                    ++it;
-                }
-                m -= mr;
-            }
+            missing_block = idx_start + nr < n;
+            idx_start_missing = missing_block ? idx_start + nr : 0;
+            m_missing = missing_block ? mr : 0;
         }
         return status; // Error message already loaded
     }
@@ -622,18 +596,15 @@ class data_store {
 
         columns_map::iterator it1 = store.cmap.begin(), it2;
         da_int n_orig = n;
-        std::shared_ptr<block_id> store_block, next, current_block;
+        std::shared_ptr<block_id> store_block, next;
         while (it1 != store.cmap.end()) {
             da_int nc = it1->first.upper - it1->first.lower + 1;
             store_block = it1->second;
             store_block->offset += n_orig;
             cmap.insert(interval(n, n + nc - 1), store_block);
-            current_block = store_block;
             next = store_block->next;
             while (next != nullptr) {
-                if (next->left_parent == current_block)
-                    next->offset = current_block->offset;
-                current_block = next;
+                next->offset += n_orig;
                 next = next->next;
             }
             n += nc;
@@ -684,7 +655,7 @@ class data_store {
                 err, da_status_invalid_input,
                 "Incompatible types between the datastore and the input data");
         while (id != nullptr) {
-            bb = static_cast<block_base<T> *>(id->b);
+            bb = static_cast<block_base<T> *>(id->b.get());
             status = bb->get_col(idx - id->offset, &c, stride);
             if (status != da_status_success)
                 return da_error_trace( // LCOV_EXCL_LINE
@@ -752,7 +723,7 @@ class data_store {
                 block_rows = {lr - first_row_idx, ur - first_row_idx};
                 if (block_rows.upper >= block_rows.lower) {
                     block_cols = {lcol - bid->offset, uc - bid->offset};
-                    block_base<T> *bb = static_cast<block_base<T> *>(bid->b);
+                    block_base<T> *bb = static_cast<block_base<T> *>(bid->b.get());
                     status = bb->copy_slice_dense(block_cols, block_rows, idxr, ld_slice,
                                                   slice);
                     if (status != da_status_success)
@@ -1286,7 +1257,7 @@ class data_store {
         da_int colidx = j - bid->offset;
         T *col = nullptr;
         da_int stride;
-        block_base<T> *bb = static_cast<block_base<T> *>(bid->b);
+        block_base<T> *bb = static_cast<block_base<T> *>(bid->b.get());
         bb->get_col(colidx, &col, stride);
         elem = col[rowidx * stride];
 
@@ -1325,7 +1296,7 @@ class data_store {
         da_int colidx = j - bid->offset;
         T *col = nullptr;
         da_int stride;
-        block_base<T> *bb = static_cast<block_base<T> *>(bid->b);
+        block_base<T> *bb = static_cast<block_base<T> *>(bid->b.get());
         bb->get_col(colidx, &col, stride);
         col[rowidx * stride] = elem;
 
-- 
2.43.0


From 1e68757bddd394420e4e93522cde633ececd6bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 036/124] fix: data store: concatenating stores lost the labels
 of the second one and broke labelling; concatenating a store with itself
 never ended

---
 source/core/data_management/data_store.hpp | 25 ++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index 5c72231..91114a0 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -584,6 +584,9 @@ class data_store {
      * in output, 'this' will contain the concatenation and store will be destroyed.
      */
     da_status horizontal_concat(data_store &store) {
+        if (this == &store)
+            return da_error(err, da_status_invalid_input,
+                            "Cannot concatenate a store with itself");
         if (m != store.m)
             return da_error(err, da_status_invalid_input,
                             "The number of rows in both stores must match (" +
@@ -594,17 +597,24 @@ class data_store {
                 err, da_status_invalid_input,
                 "Cannot concatenate stores at this stage, some data is missing");
 
+        try {
+            index_to_name.reserve(n + store.n);
+        } catch (std::bad_alloc &) {                     // LCOV_EXCL_LINE
+            return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
+                            "Memory allocation error");
+        }
+
         columns_map::iterator it1 = store.cmap.begin(), it2;
         da_int n_orig = n;
         std::shared_ptr<block_id> store_block, next;
         while (it1 != store.cmap.end()) {
             da_int nc = it1->first.upper - it1->first.lower + 1;
             store_block = it1->second;
-            store_block->offset += n_orig;
             cmap.insert(interval(n, n + nc - 1), store_block);
-            next = store_block->next;
+            next = store_block;
             while (next != nullptr) {
                 next->offset += n_orig;
+                next->b->err = err;
                 next = next->next;
             }
             n += nc;
@@ -615,6 +625,17 @@ class data_store {
         store.m = 0;
         store.n = 0;
 
+        // Transfer the labels of the columns
+        index_to_name.resize(n, nullptr);
+        for (da_int j = n_orig; j < n; j++) {
+            std::string const *name = store.index_to_name[j - n_orig];
+            if (name != nullptr)
+                label_column(*name, j);
+        }
+        store.index_to_name.clear();
+        store.name_to_index.clear();
+        store.selections.clear();
+
         return da_status_success;
     }
 
-- 
2.43.0


From f2524c4691268e919cc0f4e00215111e48a0b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 037/124] fix: data store: a column given a new label was still
 found under the old one, and under none if another had had it

---
 source/core/data_management/data_store.hpp | 29 ++++++++++++++++------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index 91114a0..01c6533 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -408,9 +408,9 @@ class data_store {
     /* Hash map of selections, using user defined labels (c strings) */
     selection_map selections;
 
-    /* Bidirectional map linking column index to its name */
+    /* Bidirectional map linking column index to its name; several columns can share a name */
     using sz_t = std::vector<std::string const *>::size_type;
-    std::unordered_map<std::string, da_int> name_to_index;
+    std::unordered_multimap<std::string, da_int> name_to_index;
     std::vector<std::string const *> index_to_name;
 
     /* Error structure pointing to the main handle */
@@ -1333,19 +1333,34 @@ class data_store {
             return da_error(err, da_status_internal_error, // LCOV_EXCL_LINE
                             "maps and store size are out of sync");
 
-        auto it = name_to_index.insert(std::make_pair(label, idx)).first;
-        std::string const *pstr = &it->first;
-        index_to_name[idx] = pstr;
+        std::string const *old = index_to_name[idx];
+        auto it = name_to_index.insert(std::make_pair(label, idx));
+        index_to_name[idx] = &it->first;
+
+        // The column no longer has its previous label
+        if (old != nullptr) {
+            auto range = name_to_index.equal_range(*old);
+            for (auto it_old = range.first; it_old != range.second; ++it_old) {
+                if (&it_old->first == old) {
+                    name_to_index.erase(it_old);
+                    break;
+                }
+            }
+        }
         return da_status_success;
     }
 
     da_status get_idx_from_label(std::string label, da_int &idx) {
-        auto it = name_to_index.find(label);
-        if (it == name_to_index.end()) {
+        auto range = name_to_index.equal_range(label);
+        if (range.first == range.second) {
             return da_error(err, da_status_invalid_input,
                             "key " + label + " is not in the map");
         }
+        // If several columns have the label, return the first one
+        auto it = range.first;
         idx = it->second;
+        for (++it; it != range.second; ++it)
+            idx = std::min(idx, it->second);
         return da_status_success;
     }
 
-- 
2.43.0


From a031bc17eddf352275a4d768120f78e0994ab349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:10 +0000
Subject: [PATCH 038/124] fix: data store: selections with several column
 intervals were extracted wrongly in row-major order; leading dimensions too
 small were accepted

---
 source/core/data_management/data_store.hpp | 31 +++++++++++++---------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index 01c6533..eaef41f 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -949,7 +949,7 @@ class data_store {
         auto it = selections.find(key);
         bool clear_selections = false, clear_cols = false, clear_rows = false;
         da_int idx = 0;
-        da_int ncols = 0;
+        da_int ncols = 0, n_rows = 0, n_cols = 0;
         std::string internal_key;
 
         if (selections.empty()) {
@@ -995,6 +995,21 @@ class data_store {
             clear_cols = true;
         }
 
+        n_rows = 0, n_cols = 0;
+        for (auto it_row = it->second.row_slice->begin();
+             it_row != it->second.row_slice->end(); ++it_row)
+            n_rows += it_row->upper - it_row->lower + 1;
+        for (auto it_col = it->second.col_slice->begin();
+             it_col != it->second.col_slice->end(); ++it_col)
+            n_cols += it_col->upper - it_col->lower + 1;
+        if (ld < (order == column_major ? n_rows : n_cols)) {
+            exit_status = da_status_invalid_input;
+            da_error(err, exit_status,
+                     "The leading dimension must be at least " +
+                         std::to_string(order == column_major ? n_rows : n_cols));
+            goto exit;
+        }
+
         if (order == column_major) {
 
             for (auto it_col = it->second.col_slice->begin();
@@ -1016,17 +1031,7 @@ class data_store {
         } else {
 
             // For row-major ordering, we need to create a temporary array first
-            da_int n_cols = 0, n_rows = 0, ldd = 0;
-            for (auto it_col = it->second.col_slice->begin();
-                 it_col != it->second.col_slice->end(); ++it_col) {
-                n_cols += it_col->upper - it_col->lower + 1;
-                for (auto it_row = it->second.row_slice->begin();
-                     it_row != it->second.row_slice->end(); ++it_row) {
-                    n_rows += it_row->upper - it_row->lower + 1;
-                }
-            }
-            ldd = n_rows;
-            // ncols and nrows are now correctly set
+            da_int ldd = n_rows;
             std::vector<T> tmp_data;
 
             try {
@@ -1039,7 +1044,7 @@ class data_store {
 
             for (auto it_col = it->second.col_slice->begin();
                  it_col != it->second.col_slice->end(); ++it_col) {
-                idx = ncols * ld;
+                idx = ncols * ldd;
                 ncols += it_col->upper - it_col->lower + 1;
                 for (auto it_row = it->second.row_slice->begin();
                      it_row != it->second.row_slice->end(); ++it_row) {
-- 
2.43.0


From 8ca6d2a8f94720b84dc393f6ffbf72abddbf6b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:10 +0000
Subject: [PATCH 039/124] fix: data store: selecting the rows without missing
 data crashed on an empty store and read past the last row

---
 source/core/data_management/data_store.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index eaef41f..f389493 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -1098,7 +1098,9 @@ class data_store {
         auto it = selections.find(key);
         bool clear_cols = false, clear_all_cols = false;
         if (it == selections.end()) {
-            select_slice(key, {0, m - 1}, {0, n - 1});
+            status = select_slice(key, {0, m - 1}, {0, n - 1});
+            if (status != da_status_success)
+                return status; // Error message already loaded
             it = selections.find(key);
             clear_cols = true;
         }
@@ -1166,7 +1168,7 @@ class data_store {
         while (i < m) {
             if (!valid_rows[i]) {
                 da_int idx_stop = i;
-                while (!valid_rows[idx_stop] && idx_stop < m) {
+                while (idx_stop < m && !valid_rows[idx_stop]) {
                     idx_stop++;
                 }
                 status = row_slice->erase({i, idx_stop - 1});
-- 
2.43.0


From 7243206cb0e297f5695deecaff2721b7473afc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:10 +0000
Subject: [PATCH 040/124] fix: data store: getting or setting an element of an
 incomplete row crashed

---
 source/core/data_management/data_store.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/core/data_management/data_store.hpp b/source/core/data_management/data_store.hpp
index f389493..56d38bd 100644
--- a/source/core/data_management/data_store.hpp
+++ b/source/core/data_management/data_store.hpp
@@ -1254,6 +1254,11 @@ class data_store {
      */
     template <class T> da_status get_element(da_int i, da_int j, T &elem) {
 
+        if (missing_block)
+            return da_error(err, da_status_missing_block,
+                            "Row blocks are not complete, cannot access elements at this "
+                            "time");
+
         if (i < 0 || i >= this->m)
             return da_error(err, da_status_invalid_input,
                             "i = " + std::to_string(i) +
@@ -1293,6 +1298,11 @@ class data_store {
     }
     template <class T> da_status set_element(da_int i, da_int j, T elem) {
 
+        if (missing_block)
+            return da_error(err, da_status_missing_block,
+                            "Row blocks are not complete, cannot modify elements at this "
+                            "time");
+
         if (i < 0 || i >= this->m)
             return da_error(err, da_status_invalid_input,
                             "i = " + std::to_string(i) +
-- 
2.43.0


From 7407d997d672c06bd28d9e0ae16d1da7174937dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:26 +0000
Subject: [PATCH 041/124] fix: data store: a negative label size was taken as a
 huge one; string blocks with two negative dimensions were read

---
 .../data_management/data_store_public.cpp     | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/source/core/data_management/data_store_public.cpp b/source/core/data_management/data_store_public.cpp
index 0baa7df..3b68a4f 100644
--- a/source/core/data_management/data_store_public.cpp
+++ b/source/core/data_management/data_store_public.cpp
@@ -159,7 +159,7 @@ da_status da_data_load_col(da_datastore store, da_int n_rows, da_int n_cols,
         return da_error(store->err, da_status_internal_error, // LCOV_EXCL_LINE
                         "store seems to be invalid?");        // LCOV_EXCL_LINE
 
-    da_int total = std::max(n_rows * n_cols, (da_int)0);
+    da_int total = n_rows > 0 && n_cols > 0 ? n_rows * n_cols : 0;
     char **arr = static_cast<char **>(malloc(total * sizeof(char *)));
     if (!arr)
         return da_error(store->err, da_status_memory_error, "Memory allocation error");
@@ -168,10 +168,7 @@ da_status da_data_load_col(da_datastore store, da_int n_rows, da_int n_cols,
         arr[i] = static_cast<char *>(malloc(len));
         // LCOV_EXCL_START
         if (!arr[i]) {
-            for (da_int j = 0; j <= i; j++) {
-                da_csv::free_data(&arr, j);
-            }
-            free(arr);
+            da_csv::free_data(&arr, i);
             return da_error(store->err, da_status_memory_error,
                             "Memory allocation error");
         }
@@ -195,7 +192,7 @@ da_status da_data_load_row(da_datastore store, da_int n_rows, da_int n_cols,
     if (!block)
         return da_error(store->err, da_status_invalid_input, "block has to be defined");
 
-    da_int total = std::max(n_rows * n_cols, (da_int)0);
+    da_int total = n_rows > 0 && n_cols > 0 ? n_rows * n_cols : 0;
     char **arr = static_cast<char **>(malloc(total * sizeof(char *)));
     if (!arr)
         return da_error(store->err, da_status_memory_error, "Memory allocation error");
@@ -204,10 +201,7 @@ da_status da_data_load_row(da_datastore store, da_int n_rows, da_int n_cols,
         arr[i] = static_cast<char *>(malloc(len));
         // LCOV_EXCL_START
         if (!arr[i]) {
-            for (da_int j = 0; j <= i; j++) {
-                da_csv::free_data(&arr, j);
-            }
-            free(arr);
+            da_csv::free_data(&arr, i);
             return da_error(store->err, da_status_memory_error,
                             "Memory allocation error");
         }
@@ -425,9 +419,10 @@ da_status da_data_get_col_label(da_datastore store, da_int col_idx, da_int *labe
     if (status != da_status_success) {
         return status; // Error message already loaded
     }
-    if (*label_sz < label_str.size() + 1) {
+    if (*label_sz < (da_int)label_str.size() + 1) {
+        da_int given_sz = *label_sz;
         *label_sz = (da_int)label_str.size() + 1;
-        std::string buff = "label_sz was set to " + std::to_string(*label_sz) +
+        std::string buff = "label_sz was set to " + std::to_string(given_sz) +
                            " but the output label is of size " +
                            std::to_string(label_str.size() + 1);
         return da_error(store->err, da_status_invalid_input, buff);
-- 
2.43.0


From 919aedc31389b85783523ecd5d3f2604026b92d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:15 +0000
Subject: [PATCH 042/124] fix: column cache: putting a key that is in the cache
 left a stale entry, which evicted the new one

---
 source/core/utilities/da_cache.hpp | 38 ++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/source/core/utilities/da_cache.hpp b/source/core/utilities/da_cache.hpp
index a0428dd..730b19b 100644
--- a/source/core/utilities/da_cache.hpp
+++ b/source/core/utilities/da_cache.hpp
@@ -108,23 +108,35 @@ template <typename T> class LRUCache {
         // PART 1 - Get the pointers to free data from cache data_ buffer
         std::vector<T *> free_pointers;
         da_int target = std::min(n_requested, capacity_);
-        free_pointers.reserve(target);
+        free_pointers.resize(target, nullptr);
         omp_set_lock(&cache_lock_);
-        // Use free slots first
-        while ((da_int)free_pointers.size() < target && n_cols_free > 0) {
-            free_pointers.emplace_back(&data_[free_col_idx * len_]);
-            ++free_col_idx;
-            --n_cols_free;
+        // Keys which are in the cache already keep their slots
+        for (da_int i = 0; i < target; i++) {
+            auto it = cache_.find(key[i]);
+            if (it != cache_.end()) {
+                free_pointers[i] = it->second->second;
+                items_.erase(it->second);
+                cache_.erase(it);
+            }
         }
-        // Evict LRU items if needed and point to freed space
-        while ((da_int)free_pointers.size() < target && !items_.empty()) {
-            auto it = std::prev(items_.end());
-            free_pointers.emplace_back(it->second);
-            cache_.erase(it->first);
-            items_.erase(it);
+        for (da_int i = 0; i < target; i++) {
+            if (free_pointers[i] != nullptr)
+                continue;
+            if (n_cols_free > 0) {
+                // Use free slots first
+                free_pointers[i] = &data_[free_col_idx * len_];
+                ++free_col_idx;
+                --n_cols_free;
+            } else if (!items_.empty()) {
+                // Evict LRU items if needed and point to freed space
+                auto it = std::prev(items_.end());
+                free_pointers[i] = it->second;
+                cache_.erase(it->first);
+                items_.erase(it);
+            }
         }
         omp_unset_lock(&cache_lock_);
-        da_int actual = (da_int)free_pointers.size();
+        da_int actual = target;
 
         // PART 2 - Copy values directly from contiguous data into free pointers
         da_int n_failed = 0;
-- 
2.43.0


From 69bf4b83cd02023b8c85ae133572edd254829446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:41 +0000
Subject: [PATCH 043/124] fix: CSV files with carriage return line ends and
 indented lines had rows read several times

---
 source/core/csv/tokenizer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index 43bd491..ded9c19 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -873,10 +873,11 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
                     do {
                         --buf;
                         --i;
-                    } while (i + 1 > self->datapos && !IS_TERMINATOR(*buf));
+                    } while (i + 1 > self->datapos && !IS_TERMINATOR(*buf) &&
+                             !IS_CARRIAGE(*buf));
 
                     // reached a newline rather than the beginning
-                    if (IS_TERMINATOR(*buf)) {
+                    if (IS_TERMINATOR(*buf) || IS_CARRIAGE(*buf)) {
                         ++buf; // move pointer to first char after newline
                         ++i;
                     }
-- 
2.43.0


From 703239843227dc41ad9aa3cd23edd590a2c17f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:41 +0000
Subject: [PATCH 044/124] fix: CSV lines starting with a delimiter after a
 carriage return could lose their first field or not be skipped

---
 source/core/csv/tokenizer.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index ded9c19..d02619a 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -1105,13 +1105,6 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
         case EAT_CRNL:
             if (c == '\n') {
                 END_LINE();
-            } else if (IS_DELIMITER(c)) {
-                if (self->delim_whitespace) {
-                    END_LINE_STATE(EAT_WHITESPACE);
-                } else {
-                    // Handle \r-delimited files
-                    END_LINE_AND_FIELD_STATE(START_FIELD);
-                }
             } else {
                 if (self->delim_whitespace) {
                     /* 
@@ -1148,7 +1141,7 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
         case EAT_CRNL_NOP: // inside an ignored comment line
             self->state = START_RECORD;
             // \r line terminator -- parse this character again
-            if (c != '\n' && !IS_DELIMITER(c)) {
+            if (c != '\n') {
                 --i;
                 --buf;
             }
-- 
2.43.0


From 3618c7b38a4dd1684ed5d56ace84c5f08ecf54d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:44 +0000
Subject: [PATCH 045/124] fix: leading zeros of numbers in CSV files were
 counted as significant digits

---
 source/core/csv/char_to_num.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/source/core/csv/char_to_num.hpp b/source/core/csv/char_to_num.hpp
index af07335..faaebc8 100644
--- a/source/core/csv/char_to_num.hpp
+++ b/source/core/csv/char_to_num.hpp
@@ -74,6 +74,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
     char *p = (char *)str;
     int num_digits;
     int num_decimals;
+    int any_digits = 0;
     int max_digits = 17;
     int n;
 
@@ -132,9 +133,11 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
 
     // Process string of digits.
     while (isdigit_ascii(*p)) {
+        any_digits = 1;
         if (num_digits < max_digits) {
             *number = *number * 10. + (*p - '0');
-            num_digits++;
+            // Leading zeros are not significant digits
+            num_digits += (*number != 0.);
         } else {
             ++exponent;
         }
@@ -150,9 +153,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         p++;
 
         while (num_digits < max_digits && isdigit_ascii(*p)) {
+            any_digits = 1;
             *number = *number * 10. + (*p - '0');
             p++;
-            num_digits++;
+            num_digits += (*number != 0.);
             num_decimals++;
         }
 
@@ -163,7 +167,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         exponent -= num_decimals;
     }
 
-    if (num_digits == 0) {
+    if (!any_digits) {
         *number = 0.0;
         status = da_status_parsing_error;
         return status;
@@ -253,6 +257,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
     char *p = (char *)str;
     int num_digits;
     int num_decimals;
+    int any_digits = 0;
     int max_digits = 9;
     int n;
 
@@ -286,9 +291,11 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
 
     // Process string of digits.
     while (isdigit_ascii(*p)) {
+        any_digits = 1;
         if (num_digits < max_digits) {
             *number = *number * 10.f + (*p - '0');
-            num_digits++;
+            // Leading zeros are not significant digits
+            num_digits += (*number != 0.f);
         } else {
             ++exponent;
         }
@@ -304,9 +311,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         p++;
 
         while (num_digits < max_digits && isdigit_ascii(*p)) {
+            any_digits = 1;
             *number = *number * 10.f + (*p - '0');
             p++;
-            num_digits++;
+            num_digits += (*number != 0.f);
             num_decimals++;
         }
 
@@ -317,7 +325,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         exponent -= num_decimals;
     }
 
-    if (num_digits == 0) {
+    if (!any_digits) {
         *number = 0.0;
         status = da_status_parsing_error;
         return status;
-- 
2.43.0


From 18a74916ae698951df934dcb385008f6c8840e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:44 +0000
Subject: [PATCH 046/124] fix: CSV fields that only start like a number or a
 boolean were read as one

---
 source/core/csv/char_to_num.hpp | 37 ++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/source/core/csv/char_to_num.hpp b/source/core/csv/char_to_num.hpp
index faaebc8..76691a6 100644
--- a/source/core/csv/char_to_num.hpp
+++ b/source/core/csv/char_to_num.hpp
@@ -238,6 +238,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
             p++;
     }
 
+    // Did we use up all the characters?
+    if (*p)
+        status = da_status_parsing_error;
+
     if (endptr)
         *endptr = p;
     return status;
@@ -396,6 +400,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
             p++;
     }
 
+    // Did we use up all the characters?
+    if (*p)
+        status = da_status_parsing_error;
+
     if (endptr)
         *endptr = p;
     return status;
@@ -688,24 +696,29 @@ inline da_status char_to_num([[maybe_unused]] parser_t *parser, const char *str,
         ++p;
     }
 
+    uint8_t value;
     if (strncasecmp(p, "TRUE", 4) == 0) {
-        if (strlen(p) > 4 && !isspace_ascii(p[4])) {
-            return status;
-        } else {
-            status = da_status_success;
-            *number = 1;
-        }
+        value = 1;
+        p += 4;
     } else if (strncasecmp(p, "FALSE", 5) == 0) {
-        if (strlen(p) > 5 && !isspace_ascii(p[5])) {
-            return status;
-        } else {
-            status = da_status_success;
-            *number = 0;
-        }
+        value = 0;
+        p += 5;
     } else {
         return status;
     }
 
+    // Skip trailing spaces
+    while (isspace_ascii(*p)) {
+        ++p;
+    }
+
+    // Did we use up all the characters?
+    if (*p)
+        return status;
+
+    status = da_status_success;
+    *number = value;
+
     if (maybe_int != NULL)
         *maybe_int = 1;
     if (endptr)
-- 
2.43.0


From 8f15db00a1a9599582a7329bb085292b3204ba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:44 +0000
Subject: [PATCH 047/124] fix: CSV numbers with very large exponents overflowed
 an int

---
 source/core/csv/char_to_num.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/source/core/csv/char_to_num.hpp b/source/core/csv/char_to_num.hpp
index 76691a6..712693c 100644
--- a/source/core/csv/char_to_num.hpp
+++ b/source/core/csv/char_to_num.hpp
@@ -195,8 +195,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         // Process string of digits.
         num_digits = 0;
         n = 0;
-        while (num_digits < max_digits && isdigit_ascii(*p)) {
-            n = n * 10 + (*p - '0');
+        while (isdigit_ascii(*p)) {
+            // Saturate, as larger exponents cannot be represented anyway
+            if (n < 100000000)
+                n = n * 10 + (*p - '0');
             num_digits++;
             p++;
         }
@@ -211,7 +213,9 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
             p--;
     }
 
-    if (exponent > 308) {
+    if (*number == 0.) {
+        // Zero whatever the exponent
+    } else if (exponent > 308) {
         *number = HUGE_VAL;
         status = da_status_parsing_error;
         return status;
@@ -357,8 +361,10 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         // Process string of digits.
         num_digits = 0;
         n = 0;
-        while (num_digits < max_digits && isdigit_ascii(*p)) {
-            n = n * 10 + (*p - '0');
+        while (isdigit_ascii(*p)) {
+            // Saturate, as larger exponents cannot be represented anyway
+            if (n < 100000000)
+                n = n * 10 + (*p - '0');
             num_digits++;
             p++;
         }
@@ -373,7 +379,9 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
             p--;
     }
 
-    if (exponent > 38) {
+    if (*number == 0.f) {
+        // Zero whatever the exponent
+    } else if (exponent > 38) {
         *number = HUGE_VALF;
         status = da_status_parsing_error;
         return status;
-- 
2.43.0


From 052a42685bb812296d3aa72bb263da748179556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:13 +0000
Subject: [PATCH 048/124] fix: CSV option row start could not be set back to 0

---
 source/core/csv/tokenizer.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index d02619a..9da2808 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -625,10 +625,8 @@ void parser_store_skipped_row(parser_t *self, int64_t row) {
 }
 
 int parser_set_skipfirstnrows(parser_t *self, int64_t nrows) {
-    // self->file_lines is zero based so subtract 1 from nrows
-    if (nrows > 0) {
-        self->skip_first_N_rows = nrows - 1;
-    }
+    // self->file_lines is zero based so subtract 1 from nrows (-1 means no rows are skipped)
+    self->skip_first_N_rows = nrows > 0 ? nrows - 1 : -1;
 
     return 0;
 }
-- 
2.43.0


From af41ae36385ed84301db07f1d4a59949bc1703d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:13 +0000
Subject: [PATCH 049/124] fix: skipping an empty CSV line ended by a carriage
 return skipped the next line too

---
 source/core/csv/tokenizer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index 9da2808..b9886f0 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -918,6 +918,11 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
 
                     if (IS_TERMINATOR(c)) {
                         END_LINE();
+                    } else if (IS_CARRIAGE(c)) {
+                        self->file_lines++;
+                        self->state = EAT_CRNL_NOP;
+                    } else if (IS_DELIMITER(c)) {
+                        self->state = START_FIELD_IN_SKIP_LINE;
                     }
                 }
                 break;
-- 
2.43.0


From 21ed9b9ed0e50040435ed3b0135df6a1d5ed0e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:13 +0000
Subject: [PATCH 050/124] fix: CSV comment directly after a quoted field was
 read as data with double quote set

---
 source/core/csv/tokenizer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index b9886f0..d45acc9 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -1089,6 +1089,9 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
             } else if (IS_CARRIAGE(c)) {
                 END_FIELD();
                 self->state = EAT_CRNL;
+            } else if (IS_COMMENT_CHAR(c)) {
+                END_FIELD();
+                self->state = EAT_COMMENT;
             } else {
                 PUSH_CHAR(c);
                 self->state = IN_FIELD;
-- 
2.43.0


From e1e3c747d31ae0effb9a6ec53868f91d1de90e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:13 +0000
Subject: [PATCH 051/124] fix: errors while reading a CSV file, as an open
 quote at its end, were taken for success

---
 source/core/csv/parser.hpp   |  8 ++++----
 source/core/csv/read_csv.hpp | 14 ++++++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/source/core/csv/parser.hpp b/source/core/csv/parser.hpp
index 4805734..582dc8b 100644
--- a/source/core/csv/parser.hpp
+++ b/source/core/csv/parser.hpp
@@ -59,13 +59,13 @@ inline void *read_bytes(void *source, size_t nbytes, size_t *bytes_read, int *st
         *status = 0;           // LCOV_EXCL_LINE
         return (void *)buffer; // LCOV_EXCL_LINE
     } else {                   // Error handling
-        if (read_status == 0) {
-            *status = REACHED_EOF;
-            return (void *)buffer;
-        } else if (ferror(fp)) {
+        if (ferror(fp)) {
             *status = CALLING_READ_FAILED;
             free(buffer);
             return NULL;
+        } else if (read_status == 0) {
+            *status = REACHED_EOF;
+            return (void *)buffer;
         } else {
             return (void *)buffer;
         }
diff --git a/source/core/csv/read_csv.hpp b/source/core/csv/read_csv.hpp
index 8d2f69a..43be1fa 100644
--- a/source/core/csv/read_csv.hpp
+++ b/source/core/csv/read_csv.hpp
@@ -99,10 +99,16 @@ inline da_status parse_file(csv_reader *csv, const char *filename) {
     char *encoding_errors = NULL;
 
     istatus = tokenize_all_rows(parser, encoding_errors);
-    if (istatus != 0) {
-        da_error(csv->err, da_status_memory_error,
-                 "Memory allocation failure"); // LCOV_EXCL_LINE
-        goto exit;                             // LCOV_EXCL_LINE
+    if (istatus == PARSER_OUT_OF_MEMORY) {
+        status = da_error(csv->err, da_status_memory_error,
+                          "Memory allocation failure"); // LCOV_EXCL_LINE
+        goto exit;                                      // LCOV_EXCL_LINE
+    } else if (istatus != 0) {
+        std::string buff = "The CSV file could not be read";
+        if (parser->error_msg != nullptr)
+            buff += std::string(": ") + parser->error_msg;
+        status = da_error(csv->err, da_status_parsing_error, buff + ".");
+        goto exit;
     } else if (parser->skipped_lines != nullptr) {
         std::string buff;
         buff = "The following lines of the CSV file were ignored:\n";
-- 
2.43.0


From 83e354beb566acdc4e1f61995ffce8a03928174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:35 +0000
Subject: [PATCH 052/124] fix: blanks at the start of a CSV line were lost at
 the edge of the read buffer when empty lines are skipped

---
 source/core/csv/tokenizer.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/source/core/csv/tokenizer.c b/source/core/csv/tokenizer.c
index d45acc9..fdfbb80 100644
--- a/source/core/csv/tokenizer.c
+++ b/source/core/csv/tokenizer.c
@@ -857,29 +857,28 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
 
         case WHITESPACE_LINE:
             if (IS_TERMINATOR(c)) {
+                // only blanks on this line: drop them
+                stream = self->pword_start;
+                slen = self->word_start;
                 self->file_lines++;
                 self->state = START_RECORD;
                 break;
             } else if (IS_CARRIAGE(c)) {
+                stream = self->pword_start;
+                slen = self->word_start;
                 self->file_lines++;
                 self->state = EAT_CRNL_NOP;
                 break;
             } else if (!self->delim_whitespace) {
                 if (isblank(c) && c != self->delimiter) {
-                } else { // backtrack
-                    // use i + 1 because buf has been incremented but not i
-                    do {
-                        --buf;
-                        --i;
-                    } while (i + 1 > self->datapos && !IS_TERMINATOR(*buf) &&
-                             !IS_CARRIAGE(*buf));
-
-                    // reached a newline rather than the beginning
-                    if (IS_TERMINATOR(*buf) || IS_CARRIAGE(*buf)) {
-                        ++buf; // move pointer to first char after newline
-                        ++i;
+                    // in case the line is not blank, this is the start of its first field
+                    if (slen > self->word_start || !IS_SKIPPABLE_SPACE(c)) {
+                        PUSH_CHAR(c);
                     }
-                    self->state = START_FIELD;
+                } else { // try this character again
+                    --buf;
+                    --i;
+                    self->state = slen > self->word_start ? IN_FIELD : START_FIELD;
                 }
                 break;
             }
@@ -957,6 +956,9 @@ int tokenize_bytes(parser_t *self, size_t line_limit, uint64_t start_lines) {
                     break;
                 } else if (c != self->delimiter && self->skip_empty_lines) {
                     self->state = WHITESPACE_LINE;
+                    if (!IS_SKIPPABLE_SPACE(c)) {
+                        PUSH_CHAR(c);
+                    }
                     break;
                 }
                 // fall through
-- 
2.43.0


From 5c0c61dda283109db700954ae55998784367947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:12 +0000
Subject: [PATCH 053/124] fix: real options with bounds accepted a NaN

---
 source/core/utilities/options.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/core/utilities/options.hpp b/source/core/utilities/options.hpp
index b04f89f..c68aa53 100644
--- a/source/core/utilities/options.hpp
+++ b/source/core/utilities/options.hpp
@@ -266,15 +266,15 @@ class OptionBase {
 
         // Quick check
         da_int iflag = 0;
-        // Check that it is within range (lower bound)
-        if ((lbound == greaterthan) && (value <= lower))
+        // Check that it is within range (lower bound). A NaN is in no range
+        if ((lbound == greaterthan) && !(value > lower))
             iflag += 1;
-        else if ((lbound == greaterequal) && (value < lower))
+        else if ((lbound == greaterequal) && !(value >= lower))
             iflag += 2;
         // Check that it is within range (upper bound)
-        if ((ubound == lessthan) && (value >= upper))
+        if ((ubound == lessthan) && !(value < upper))
             iflag += 10;
-        else if ((ubound == lessequal) && (value > upper))
+        else if ((ubound == lessequal) && !(value <= upper))
             iflag += 20;
         if (iflag) {
             errmsg = "Option '" + name + "': value out-of-bounds";
-- 
2.43.0


From ac5190c09d034234727dcda6313dc83966730182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:26 +0000
Subject: [PATCH 054/124] fix: saving a model to a full disk reported success

---
 source/core/utilities/da_handle.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/core/utilities/da_handle.cpp b/source/core/utilities/da_handle.cpp
index 29d7e1c..06a150a 100644
--- a/source/core/utilities/da_handle.cpp
+++ b/source/core/utilities/da_handle.cpp
@@ -97,6 +97,10 @@ da_status _da_handle::save_handle(const std::string &file_name) {
                         "Failed to write to file.");   // LCOV_EXCL_LINE
     }
     file.close();
+    if (!file) {
+        return da_error(this->err, da_status_io_error, // LCOV_EXCL_LINE
+                        "Failed to write to file.");   // LCOV_EXCL_LINE
+    }
 
     return status;
 }
-- 
2.43.0


From 48a9e1aeab9e54ae6521718ca1a4c3500ec9fb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:20 +0000
Subject: [PATCH 055/124] fix: loading a saved model of an unknown handle type
 dereferenced a null pointer

---
 source/core/utilities/da_handle.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/core/utilities/da_handle.cpp b/source/core/utilities/da_handle.cpp
index 06a150a..2797de7 100644
--- a/source/core/utilities/da_handle.cpp
+++ b/source/core/utilities/da_handle.cpp
@@ -122,13 +122,16 @@ da_status _da_handle::load_handle(da_handle &handle, const char *buffer_data,
         if (status != da_status_success)
             return status;
 
-        status = handle->alg_handle_s->load_model(buffer);
+        // The type may be unknown when the data is corrupt
+        if (handle->alg_handle_s != nullptr)
+            status = handle->alg_handle_s->load_model(buffer);
     } else if (precision == (da_int)sizeof(double)) {
         status = da_handle_init_d(&handle, buffer.get_handle_type());
         if (status != da_status_success)
             return status;
 
-        status = handle->alg_handle_d->load_model(buffer);
+        if (handle->alg_handle_d != nullptr)
+            status = handle->alg_handle_d->load_model(buffer);
     }
 
     if (status != da_status_success ||
-- 
2.43.0


From 37ff5cd0e6172c5773858c6ea2006676d9144ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:20 +0000
Subject: [PATCH 056/124] fix: loading a saved model from a directory ended the
 program

---
 source/core/utilities/da_handle.cpp         | 4 ++++
 source/core/utilities/model_persistence.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/source/core/utilities/da_handle.cpp b/source/core/utilities/da_handle.cpp
index 2797de7..7cff7bf 100644
--- a/source/core/utilities/da_handle.cpp
+++ b/source/core/utilities/da_handle.cpp
@@ -27,6 +27,7 @@
 
 #include "da_handle.hpp"
 #include "aoclda.h"
+#include <stdexcept>
 
 /*
  * Get pointer to the option member of the currently active sub-handle, also
@@ -162,6 +163,9 @@ da_status _da_handle::load_handle(da_handle &handle, const std::string &file_nam
         buffer_data.resize(size);
     } catch (std::bad_alloc const &) {
         return da_status_memory_error; // LCOV_EXCL_LINE
+    } catch (std::length_error const &) {
+        // Not a regular file, such as a directory
+        return da_status_io_error;
     }
 
     if (!file.read(buffer_data.data(), size))
diff --git a/source/core/utilities/model_persistence.cpp b/source/core/utilities/model_persistence.cpp
index 7851510..8b03b71 100644
--- a/source/core/utilities/model_persistence.cpp
+++ b/source/core/utilities/model_persistence.cpp
@@ -39,6 +39,7 @@
 #include <iostream>
 #include <limits>
 #include <new>
+#include <stdexcept>
 #include <string>
 #include <type_traits>
 
@@ -231,6 +232,9 @@ da_status print_model_metadata(const std::string &filename) {
         file_data.resize(size);
     } catch (std::bad_alloc const &) {
         return da_status_memory_error; // LCOV_EXCL_LINE
+    } catch (std::length_error const &) {
+        // Not a regular file, such as a directory
+        return da_status_io_error;
     }
 
     if (!file.read(file_data.data(), size))
-- 
2.43.0


From fb2c3bd6f38405cafbd057f541dd10bfe5821cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:20 +0000
Subject: [PATCH 057/124] fix: options of a saved model were loaded without
 checking them, and an unknown label threw an exception later

---
 source/core/utilities/options.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/source/core/utilities/options.hpp b/source/core/utilities/options.hpp
index c68aa53..ec44656 100644
--- a/source/core/utilities/options.hpp
+++ b/source/core/utilities/options.hpp
@@ -517,7 +517,15 @@ template <typename T> class OptionNumeric : public OptionBase {
         return buffer.serialize_data(this->value);
     }
     da_status deserialize_option(da_model_persistence::serialization_buffer &buffer) {
-        return buffer.deserialize_data(this->value);
+        T saved_value;
+        da_status status = buffer.deserialize_data(saved_value);
+        if (status != da_status_success)
+            return status;
+        if (this->validate(lower, lbound, upper, ubound, saved_value, false) !=
+            da_status_success)
+            return da_status_invalid_file_data;
+        this->value = saved_value;
+        return da_status_success;
     }
 
     size_t serialized_size() { return da_model_persistence::get_type_size(this->value); }
@@ -761,7 +769,14 @@ class OptionString : public OptionBase {
         return buffer.serialize_data(this->value);
     }
     da_status deserialize_option(da_model_persistence::serialization_buffer &buffer) {
-        return buffer.deserialize_data(this->value);
+        string saved_value;
+        da_status status = buffer.deserialize_data(saved_value);
+        if (status != da_status_success)
+            return status;
+        if (labels.size() != 0 && labels.find(saved_value) == labels.end())
+            return da_status_invalid_file_data;
+        this->value = saved_value;
+        return da_status_success;
     }
 
     size_t serialized_size() { return da_model_persistence::get_type_size(this->value); }
-- 
2.43.0


From c47c06d04e5fb2a2b2fa9b128cd7f87eb49e6d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:20 +0000
Subject: [PATCH 058/124] fix: the number of trees or classifiers of a corrupt
 saved model was trusted when allocating memory

---
 .../forest/decision_forest.cpp                | 24 ++++++++------
 source/core/svm/svm.cpp                       | 32 +++++++++++--------
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/source/core/decision_forest/forest/decision_forest.cpp b/source/core/decision_forest/forest/decision_forest.cpp
index f3ab69f..edb8a28 100644
--- a/source/core/decision_forest/forest/decision_forest.cpp
+++ b/source/core/decision_forest/forest/decision_forest.cpp
@@ -43,21 +43,25 @@ da_status decision_forest<T>::forest_serialization(
     da_status status = da_status_success;
 
     if (buffer.get_mode() == deserialize) {
-        try {
-            this->forest.resize(n_tree);
-            for (da_int i = 0; i < this->n_tree; ++i) {
-                this->forest[i] = std::make_unique<decision_tree<T>>();
-            }
-        } catch (std::bad_alloc const &) {
-            return da_error(this->err, da_status_memory_error,
-                            "Failing to allocate enough memory."); // LCOV_EXCL_LINE
-        }
+        if (this->n_tree < 0)
+            return da_error(this->err, da_status_invalid_file_data,
+                            "Invalid number of trees.");
+        this->forest.clear();
     }
 
     for (da_int i = 0; i < this->n_tree; ++i) {
+        if (buffer.get_mode() == deserialize) {
+            // Create the trees one by one: n_tree may not be what the data holds
+            try {
+                this->forest.push_back(std::make_unique<decision_tree<T>>());
+            } catch (std::bad_alloc const &) {
+                return da_error(this->err, da_status_memory_error,
+                                "Failing to allocate enough memory."); // LCOV_EXCL_LINE
+            }
+        }
+        status = this->forest[i]->serialize(buffer);
         if (status != da_status_success)
             return status;
-        status = this->forest[i]->serialize(buffer);
     }
     return status;
 }
diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index bf3cc1e..fd8a14d 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -1489,38 +1489,42 @@ da_status svm<T>::serialize_classifiers(serialization_buffer &buffer) {
     da_status status = da_status_success;
 
     if (buffer.get_mode() == deserialize) {
-        try {
-            this->classifiers.resize(this->n_classifiers);
-            for (da_int i = 0; i < this->n_classifiers; ++i) {
+        if (this->n_classifiers < 0)
+            return da_error(this->err, da_status_invalid_file_data,
+                            "Invalid number of classifiers.");
+        this->classifiers.clear();
+    }
+
+    for (da_int i = 0; i < this->n_classifiers; ++i) {
+        if (buffer.get_mode() == deserialize) {
+            // Create the classifiers one by one: n_classifiers may not be what the data holds
+            try {
                 switch (this->mod) {
                 case da_svm_model::svc:
-                    classifiers[i] = std::make_unique<svc<T>>();
+                    classifiers.push_back(std::make_unique<svc<T>>());
                     break;
                 case da_svm_model::svr:
-                    classifiers[i] = std::make_unique<svr<T>>();
+                    classifiers.push_back(std::make_unique<svr<T>>());
                     break;
                 case da_svm_model::nusvc:
-                    classifiers[i] = std::make_unique<nusvc<T>>();
+                    classifiers.push_back(std::make_unique<nusvc<T>>());
                     break;
                 case da_svm_model::nusvr:
-                    classifiers[i] = std::make_unique<nusvr<T>>();
+                    classifiers.push_back(std::make_unique<nusvr<T>>());
                     break;
                 default:
                     return da_error(this->err, da_status_unknown_query,
                                     "Unknown SVM model during deserialization.");
                 }
                 classifiers[i]->err = this->err;
+            } catch (std::bad_alloc const &) {
+                return da_error(this->err, da_status_memory_error,
+                                "Failing to allocate enough memory."); // LCOV_EXCL_LINE
             }
-        } catch (std::bad_alloc const &) {
-            return da_error(this->err, da_status_memory_error,
-                            "Failing to allocate enough memory."); // LCOV_EXCL_LINE
         }
-    }
-
-    for (da_int i = 0; i < this->n_classifiers; ++i) {
+        status = this->classifiers[i]->serialize(buffer);
         if (status != da_status_success)
             return status;
-        status = this->classifiers[i]->serialize(buffer);
     }
     return status;
 }
-- 
2.43.0


From e6c9022e299b552b16386260a7c1cc6346789489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:49 +0000
Subject: [PATCH 059/124] fix: a corrupt nearest neighbors tree could overflow
 the stack when loaded, and read errors before it were ignored

---
 source/core/nearest_neighbors/binary_tree.cpp | 19 +++++++++++++------
 source/core/nearest_neighbors/binary_tree.hpp |  2 +-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/source/core/nearest_neighbors/binary_tree.cpp b/source/core/nearest_neighbors/binary_tree.cpp
index ef9dfa7..625ff27 100644
--- a/source/core/nearest_neighbors/binary_tree.cpp
+++ b/source/core/nearest_neighbors/binary_tree.cpp
@@ -500,7 +500,14 @@ const std::vector<da_int> &binary_tree<Derived, NodeType>::get_indices() {
 
 template <typename Derived, typename NodeType>
 da_status binary_tree<Derived, NodeType>::tree_serialization(
-    da_model_persistence::serialization_buffer &buffer, std::shared_ptr<NodeType> &node) {
+    da_model_persistence::serialization_buffer &buffer, std::shared_ptr<NodeType> &node,
+    da_int depth) {
+    // Corrupt data could otherwise nest nodes until the stack overflows. Every level of a
+    // valid tree splits at least one point off
+    constexpr da_int max_depth = 16384;
+    if (depth > max_depth || static_cast<size_t>(depth) > this->indices.size() + 1)
+        return da_status_invalid_file_data;
+
     da_status status = da_status_success;
     bool node_exists = (node != nullptr);
 
@@ -546,11 +553,11 @@ da_status binary_tree<Derived, NodeType>::tree_serialization(
     if (status != da_status_success)
         return status;
 
-    status = tree_serialization(buffer, node->left_child);
+    status = tree_serialization(buffer, node->left_child, depth + 1);
     if (status != da_status_success)
         return status;
 
-    return tree_serialization(buffer, node->right_child);
+    return tree_serialization(buffer, node->right_child, depth + 1);
 }
 
 template <typename Derived, typename NodeType>
@@ -574,10 +581,10 @@ da_status binary_tree<Derived, NodeType>::serialize(
     io_dispatch(this->A_norms);
     io_dispatch(this->n_features);
     io_dispatch(this->n_samples);
+    if (status != da_status_success)
+        return status;
 
-    status = this->tree_serialization(buffer, this->root);
-
-    return status;
+    return this->tree_serialization(buffer, this->root, 0);
 }
 
 template struct node<double>;
diff --git a/source/core/nearest_neighbors/binary_tree.hpp b/source/core/nearest_neighbors/binary_tree.hpp
index 1d150d0..604e5a6 100644
--- a/source/core/nearest_neighbors/binary_tree.hpp
+++ b/source/core/nearest_neighbors/binary_tree.hpp
@@ -205,7 +205,7 @@ template <typename Derived, typename NodeType> class binary_tree {
 
   private:
     da_status tree_serialization(da_model_persistence::serialization_buffer &buffer,
-                                 std::shared_ptr<NodeType> &node);
+                                 std::shared_ptr<NodeType> &node, da_int depth);
     template <bool ReturnDistances>
     da_status radius_neighbors_loop(da_int m_samples, const T *X, da_int ldx, T eps,
                                     T eps_internal,
-- 
2.43.0


From a3f1b4779bffbe76888527c7a5f880f082fd411b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:49 +0000
Subject: [PATCH 060/124] fix: asking for the error message of a handle without
 an error read an empty vector

---
 source/core/utilities/da_error.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/core/utilities/da_error.hpp b/source/core/utilities/da_error.hpp
index 42073b0..023b9df 100644
--- a/source/core/utilities/da_error.hpp
+++ b/source/core/utilities/da_error.hpp
@@ -188,16 +188,20 @@ class da_error_t {
     string get_telem(void) { return telem.empty() ? "" : telem.front(); };
 
     da_status get_mesg_char(char **message) {
-        size_t len = mesg.front().length();
+        if (message == nullptr)
+            return da_status_invalid_pointer;
+        // The message is empty if nothing was recorded
+        const string text = get_mesg();
+        size_t len = text.length();
         *message = (char *)(malloc(len + 1));
         if (*message == NULL) {
             return da_status_memory_error; // LCOV_EXCL_LINE
         }
         /* Most of the time MSVC compiler can automatically replace CRT functions with _s versions, but not this one */
 #if defined(_MSC_VER)
-        strncpy_s(*message, 1 + len, mesg.front().c_str(), len);
+        strncpy_s(*message, 1 + len, text.c_str(), len);
 #else
-        strncpy(*message, mesg.front().c_str(), len);
+        strncpy(*message, text.c_str(), len);
 #endif
         // Ensure null termination
         (*message)[len] = '\0';
-- 
2.43.0


From 2ccf44c1a9f7b46705b60b5a60de79157cbc7e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:06 +0000
Subject: [PATCH 061/124] fix: null option names and values threw an exception
 out of the C interface

---
 source/core/utilities/options_public.cpp | 28 ++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/source/core/utilities/options_public.cpp b/source/core/utilities/options_public.cpp
index 8254030..53081f1 100644
--- a/source/core/utilities/options_public.cpp
+++ b/source/core/utilities/options_public.cpp
@@ -37,6 +37,12 @@ da_status da_options_set(da_handle handle, const char *option, T value) {
         return da_status_handle_not_initialized;
     handle->clear(); // Clean up handle logs
 
+    if (option == nullptr)
+        return da_error(handle->err, da_status_invalid_pointer, "option is null.");
+    if constexpr (std::is_same_v<T, const char *>) {
+        if (value == nullptr)
+            return da_error(handle->err, da_status_invalid_pointer, "value is null.");
+    }
     if constexpr (!std::is_same_v<T, da_int> && !std::is_same_v<T, const char *>) {
         da_status status = handle->check_precision<T>();
         if (status != da_status_success)
@@ -64,6 +70,10 @@ da_status da_options_get(da_handle handle, const char *option, char *value,
         return da_status_handle_not_initialized;
     handle->clear(); // Clean up handle logs
 
+    if (option == nullptr || value == nullptr || lvalue == nullptr)
+        return da_error(handle->err, da_status_invalid_pointer,
+                        "option, value or lvalue is null.");
+
     da_options::OptionRegistry *opts;
     status = handle->get_current_opts(&opts);
     if (status != da_status_success)
@@ -103,6 +113,10 @@ da_status da_options_get(da_handle handle, const char *option, T *value) {
         return da_status_handle_not_initialized;
     handle->clear(); // Clean up handle logs
 
+    if (option == nullptr || value == nullptr)
+        return da_error(handle->err, da_status_invalid_pointer,
+                        "option or value is null.");
+
     if constexpr (!std::is_same_v<T, da_int>) {
         da_status status = handle->check_precision<T>();
         if (status != da_status_success)
@@ -144,6 +158,12 @@ da_status da_datastore_options_set(da_datastore store, const char *option, T val
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
 
+    if (option == nullptr)
+        return da_error(store->err, da_status_invalid_pointer, "option is null.");
+    if constexpr (std::is_same_v<T, const char *>) {
+        if (value == nullptr)
+            return da_error(store->err, da_status_invalid_pointer, "value is null.");
+    }
     status = store->opts->set(option, value, da_options::user);
     if (status != da_status_success) {
         // Construct error based on status & opts->errmsg string
@@ -160,6 +180,10 @@ da_status da_datastore_options_get(da_datastore store, const char *option, char
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
 
+    if (option == nullptr || value == nullptr || lvalue == nullptr)
+        return da_error(store->err, da_status_invalid_pointer,
+                        "option, value or lvalue is null.");
+
     std::string svalue;
     status = store->opts->get(option, svalue);
     // Need to make sure *value is big enough...
@@ -190,6 +214,10 @@ da_status da_datastore_options_get(da_datastore store, const char *option, T *va
         return da_status_store_not_initialized;
     store->clear(); // Clean up store logs
 
+    if (option == nullptr || value == nullptr)
+        return da_error(store->err, da_status_invalid_pointer,
+                        "option or value is null.");
+
     status = store->opts->get(option, *value);
     if (status != da_status_success) {
         // Construct error based on status & opts->errmsg string
-- 
2.43.0


From d340cdab346396dbb8d0dbaf7350320e44888f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:05 +0000
Subject: [PATCH 062/124] fix: asking for the classes of nearest neighbors read
 beyond the array when more were asked for or none were computed

---
 .../nearest_neighbors/nearest_neighbors_public.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors_public.hpp b/source/core/nearest_neighbors/nearest_neighbors_public.hpp
index d57e66d..397ae56 100644
--- a/source/core/nearest_neighbors/nearest_neighbors_public.hpp
+++ b/source/core/nearest_neighbors/nearest_neighbors_public.hpp
@@ -83,15 +83,21 @@ da_status nn_classes(da_handle handle, da_int *n_classes, da_int *classes) {
         return da_error(handle->err, da_status_invalid_handle_type,
                         "handle was not initialized with handle_type=da_handle_nn or "
                         "handle is invalid.");
-    da_status status = da_status_success;
+    if (n_classes == nullptr)
+        return da_error_bypass(handle->err, da_status_invalid_pointer,
+                               "n_classes is not a valid pointer.");
+    // The classes may not have been computed for the current labels
+    da_status status = nn->available_classes();
+    if (status != da_status_success)
+        return status;
     if (*n_classes <= 0) { // Querying number of classes to allocate memory
-        status = nn->available_classes();
-        if (status == da_status_success)
-            *n_classes = da_int(nn->classes.size());
+        *n_classes = da_int(nn->classes.size());
     } else { // Now that the number of classes is known, return those values, sorted in ascending order
         if (classes == nullptr)
             return da_error_bypass(handle->err, da_status_invalid_pointer,
                                    "classes is not a valid pointer.");
+        if (*n_classes > da_int(nn->classes.size()))
+            *n_classes = da_int(nn->classes.size());
         for (da_int i = 0; i < *n_classes; i++)
             classes[i] = nn->classes[i];
     }
-- 
2.43.0


From 5e360dfd62610d970ac1131dd34cb00c756956c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:22 +0000
Subject: [PATCH 063/124] fix: the low precision iterations of an SVM were not
 saved and read out of bounds from a loaded model

---
 source/core/svm/svm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index fd8a14d..8116417 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -63,6 +63,9 @@ template <typename T> svm<T>::svm(da_errors::da_error_t &err) : basic_handle<T>(
     // Any error is stored err->status[.] and this needs to be checked
     // by the caller.
     register_svm_options<T>(this->opts, err);
+    // Saved models hold the low precision iterations since this version
+    this->set_serialization_version(
+        da_model_persistence::model_persistence_min_version + 1);
 }
 
 template <typename T> svm<T>::~svm() {
@@ -1562,6 +1565,7 @@ template <typename T> da_status svm<T>::serialize(serialization_buffer &buffer)
     io_dispatch(this->support_indexes);
     io_dispatch(this->n_sv_per_class);
     io_dispatch(this->n_iteration);
+    io_dispatch(this->lp_n_iteration);
 
     if (status == da_status_success) {
         status = serialize_classifiers(buffer);
-- 
2.43.0


From 83f1b9ee828382696e4e2840261a20045746ca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:21 +0000
Subject: [PATCH 064/124] fix: information on a loaded linear model
 dereferenced a null pointer for the conjugate gradient solver, and stayed
 that of a loaded model after training it again

---
 source/core/linear_model/linear_model.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index 4ea1f70..46e64ce 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -296,7 +296,7 @@ da_status linear_model<T>::get_result(da_result query, da_int *dim, T *result) {
             result[da_linmod_info_t::linmod_info_time] = time;
         }
         // For CG we have member function that fills n_iter and gradient of loss
-        if (method_id == linmod_method::cg) {
+        if (method_id == linmod_method::cg && !this->model_loaded) {
             if constexpr (std::is_same_v<T, _Float16>) {
                 // Unreachable: cg is rejected at fit time for _Float16.
                 return da_error(this->err, da_status_internal_error, // LCOV_EXCL_LINE
@@ -314,7 +314,9 @@ da_status linear_model<T>::get_result(da_result query, da_int *dim, T *result) {
         result[da_linmod_info_t::linmod_info_nrow_coef] = nrow_coef;
         result[da_linmod_info_t::linmod_info_ncol_coef] = ncol_coef;
         result[da_linmod_info_t::linmod_info_well_determined] = is_well_determined;
-        result[da_linmod_info_t::linmod_info_lp_n_iter] = static_cast<T>(this->lp_n_iter);
+        if (!this->model_loaded)
+            result[da_linmod_info_t::linmod_info_lp_n_iter] =
+                static_cast<T>(this->lp_n_iter);
 
         return da_status_success;
         break;
@@ -1238,6 +1240,7 @@ da_status linear_model<T>::fit_impl(da_int usr_ncoefs, const T *coefs, bool do_p
     }
 
     this->model_trained = true;
+    this->model_loaded = false;
     return da_status_success;
 }
 
-- 
2.43.0


From f1e6b6c057b458c2f45f4a1633becddff9e39c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:11 +0000
Subject: [PATCH 065/124] fix: an error in a fold of the SVM cross-validation
 was recorded through a null pointer

---
 source/core/svm/svm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index 8116417..909d272 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -1357,6 +1357,7 @@ da_status svm<T>::compute_probabilities(base_svm<T> &classifier, da_int n_fold,
                 return da_error(this->err, da_status_unknown_query,
                                 "Unsupported SVM model.");
             }
+            fold_classifier->err = this->err;
             fold_classifier->C = classifier.C;
             fold_classifier->eps = classifier.eps;
             fold_classifier->nu = classifier.nu;
-- 
2.43.0


From cf96886eb3d712fd87acbd488030dc338ae7f5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:11 +0000
Subject: [PATCH 066/124] fix: support vectors were taken from the wrong places
 of an array with a leading dimension

---
 source/core/svm/svm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index 909d272..3b9d14f 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -749,7 +749,7 @@ template <typename T> da_status svm<T>::compute() {
     for (da_int i = 0; i < n_sv; i++) {
         da_int current_idx = support_indexes[i];
         for (da_int j = 0; j < ncol; j++) {
-            support_vectors[i + j * n_sv] = X[current_idx + j * nrow];
+            support_vectors[i + j * n_sv] = X[current_idx + j * ldx_train];
         }
     }
 
-- 
2.43.0


From 7d983082ebc0ebe677fbf639dc866997df840924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:11 +0000
Subject: [PATCH 067/124] fix: SVM probabilities read beyond the last column of
 an array with a leading dimension

---
 source/core/svm/svm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index 3b9d14f..164c3e9 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -1261,7 +1261,7 @@ da_status svm<T>::compute_probabilities(base_svm<T> &classifier, da_int n_fold,
             y_class[i] = classifier.idx_is_positive[i] ? 1.0 : 0.0;
         }
     } else {
-        X_class.assign(classifier.XUSR, classifier.XUSR + classifier.ldx * p);
+        X_class.assign(classifier.XUSR, classifier.XUSR + classifier.ldx * (p - 1) + n);
         y_class.resize(n);
         // Flip the sign here to match sklearn convention (0.0 is positive class, 1.0 negative)
         for (da_int i = 0; i < n; i++) {
-- 
2.43.0


From 6fe61ba7d04175f72312a5dbd8317498a9c8a5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:30 +0000
Subject: [PATCH 068/124] fix: row-major training data of one feature and a
 larger leading dimension was saved wrongly

---
 source/core/nearest_neighbors/nearest_neighbors.cpp | 4 ++--
 source/core/utilities/model_persistence.cpp         | 5 -----
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index aef0992..815b208 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -2407,11 +2407,11 @@ template <typename T> da_status neighbors<T>::serialize(serialization_buffer &bu
                                             this->n_features, this->ldx_train);
         if (status != da_status_success)
             return status;
-        status = buffer.serialize_user_data(this->y_train_class, this->order,
+        status = buffer.serialize_user_data(this->y_train_class, column_major,
                                             this->n_samples, 1, this->n_samples);
         if (status != da_status_success)
             return status;
-        status = buffer.serialize_user_data(this->y_train_reg, this->order,
+        status = buffer.serialize_user_data(this->y_train_reg, column_major,
                                             this->n_samples, 1, this->n_samples);
         if (status != da_status_success)
             return status;
diff --git a/source/core/utilities/model_persistence.cpp b/source/core/utilities/model_persistence.cpp
index 8b03b71..0dbcebf 100644
--- a/source/core/utilities/model_persistence.cpp
+++ b/source/core/utilities/model_persistence.cpp
@@ -406,11 +406,6 @@ da_status serialization_buffer::serialize_user_data(const T *X, da_order order,
                                                     da_int n, da_int ldx) {
     da_status status;
 
-    // For 1D input, force column-major handling so stride logic stays consistent.
-    if (n == 1) {
-        order = column_major;
-    }
-
     // Save element count first so the payload can be loaded as a vector<T>.
     // If nullptr make sure that the vector size saved is 0.
     da_int vector_size = X != nullptr ? m * n : 0;
-- 
2.43.0


From d3c765f7c9bb2f76882ca738f8c2c3bd2ab0e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:23 +0000
Subject: [PATCH 069/124] fix: the inverse transform of a PCA of data with zero
 means replaced the means by those of its argument

---
 source/core/factorization/pca/pca.cpp | 31 ++++++++++++++-------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index 63beed6..fa58690 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -1030,21 +1030,22 @@ da_status pca<T>::inverse_transform(da_int k, da_int r, const T *X, da_int ldx,
                         inv_transform_operator, ld_inv_transform_operator, 0.0,
                         X_inv_transform, ldx_inv_transform);
 
-    // Undo the standardization used in the PCA computation
-    switch (method) {
-    case pca_method_cov:
-        ARCH::da_basic_statistics::standardize(this->order, da_axis_col, k, p,
-                                               X_inv_transform, ldx_inv_transform, dof, 1,
-                                               column_means.data(), (T *)nullptr);
-        break;
-    case pca_method_corr:
-        ARCH::da_basic_statistics::standardize(this->order, da_axis_col, k, p,
-                                               X_inv_transform, ldx_inv_transform, dof, 1,
-                                               column_means.data(), column_sdevs.data());
-        break;
-    default:
-        // No standardization is required
-        break;
+    // Undo the standardization used in the PCA computation. The means (and standard
+    // deviations) are those of the training data, even if they are all zero, for which
+    // da_basic_statistics::standardize would compute and store others.
+    if (method == pca_method_cov || method == pca_method_corr) {
+        bool scale = (method == pca_method_corr);
+        bool col_major = (this->order == column_major);
+        da_int n_outer = col_major ? p : k, n_inner = col_major ? k : p;
+        for (da_int j = 0; j < n_outer; j++) {
+            for (da_int i = 0; i < n_inner; i++) {
+                da_int col = col_major ? j : i;
+                T &value = X_inv_transform[i + ldx_inv_transform * j];
+                if (scale)
+                    value *= column_sdevs_nonzero[col];
+                value += column_means[col];
+            }
+        }
     }
 
     return da_status_success;
-- 
2.43.0


From 64eca7cdd6c2a5ce268b32ae2dad6d2fdc6173cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:40 +0000
Subject: [PATCH 070/124] fix: printing the metadata of a model with a corrupt
 precision overflowed

---
 source/core/utilities/model_persistence.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/core/utilities/model_persistence.cpp b/source/core/utilities/model_persistence.cpp
index 0dbcebf..73cf622 100644
--- a/source/core/utilities/model_persistence.cpp
+++ b/source/core/utilities/model_persistence.cpp
@@ -200,6 +200,9 @@ da_status print_model_metadata(const std::vector<char> &file_data) {
     if (status != da_status_success)
         return status;
 
+    if (precision != da_int(sizeof(float)) && precision != da_int(sizeof(double)))
+        return da_status_invalid_file_data;
+
     std::string int_size = saved_int_size == 4 ? "LP64" : "ILP64";
 
     std::cout << "===== Serialized Model Metadata =====\n";
-- 
2.43.0


From 504584820af478c267dab530562fd1aacf3ca6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:59 +0000
Subject: [PATCH 071/124] fix: loading a CSV file of lines without fields
 crashed

---
 source/core/csv/read_csv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/core/csv/read_csv.hpp b/source/core/csv/read_csv.hpp
index 43be1fa..c8af53b 100644
--- a/source/core/csv/read_csv.hpp
+++ b/source/core/csv/read_csv.hpp
@@ -159,8 +159,8 @@ inline da_status populate_data_array(csv_reader *csv, T **a, da_int *nrows, da_i
         words_len -= parser->line_fields[lines];
     }
 
-    // Guard against header-only CSV file
-    if (lines == (uint64_t)first_line) {
+    // Guard against header-only CSV file and files in which no line has any fields
+    if (lines == (uint64_t)first_line || words_len == 0) {
         *nrows = 0;
         *ncols = (da_int)words_len;
         *a = nullptr;
-- 
2.43.0


From b5ec7b6feba07a013b8ef6ee49d20ab23b258d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:36 +0000
Subject: [PATCH 072/124] fix: CSV numbers were read past their end with an
 empty decimal or exponent character

---
 source/core/csv/char_to_num.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/core/csv/char_to_num.hpp b/source/core/csv/char_to_num.hpp
index 712693c..6eb2a1f 100644
--- a/source/core/csv/char_to_num.hpp
+++ b/source/core/csv/char_to_num.hpp
@@ -147,7 +147,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
     }
 
     // Process decimal part
-    if (*p == decimal) {
+    if (decimal != '\0' && *p == decimal) {
         if (maybe_int != NULL)
             *maybe_int = 0;
         p++;
@@ -178,7 +178,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         *number = -*number;
 
     // Process an exponent string.
-    if (toupper_ascii(*p) == toupper_ascii(sci)) {
+    if (sci != '\0' && toupper_ascii(*p) == toupper_ascii(sci)) {
         if (maybe_int != NULL)
             *maybe_int = 0;
 
@@ -313,7 +313,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
     }
 
     // Process decimal part
-    if (*p == decimal) {
+    if (decimal != '\0' && *p == decimal) {
         if (maybe_int != NULL)
             *maybe_int = 0;
         p++;
@@ -344,7 +344,7 @@ inline da_status char_to_num(parser_t *parser, const char *str, char **endptr,
         *number = -*number;
 
     // Process an exponent string.
-    if (toupper_ascii(*p) == toupper_ascii(sci)) {
+    if (sci != '\0' && toupper_ascii(*p) == toupper_ascii(sci)) {
         if (maybe_int != NULL)
             *maybe_int = 0;
 
-- 
2.43.0


From 34f3698b42a2da9137b735abf4fcbe179eb2eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:02 +0000
Subject: [PATCH 073/124] fix: loading a column of text from a CSV file took
 time quadratic in the number of rows

---
 source/core/data_management/auto_detect_csv.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/core/data_management/auto_detect_csv.hpp b/source/core/data_management/auto_detect_csv.hpp
index 4ee6a87..f141360 100644
--- a/source/core/data_management/auto_detect_csv.hpp
+++ b/source/core/data_management/auto_detect_csv.hpp
@@ -211,6 +211,7 @@ inline da_status detect_columns(da_csv::csv_reader *csv, CSVColumnsType &columns
                     std::get_if<std::vector<char **>>(&(columns[i]))) {
                 // This column already contains char data so we only need to store the pointer to the word
                 char_col->push_back(&data[data_index]);
+                continue;
             }
 
             // Call get_number, which recursively calls char_to_num until the appropriate datatype is found
-- 
2.43.0


From c024a67ab17096d6969cd4e2d5bad57d9947f377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:32 +0000
Subject: [PATCH 074/124] fix: a corrupt number of nodes in a saved tree could
 exhaust the memory

---
 .../decision_forest/tree/decision_tree_handle_utilities.hpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
index 3d8fc95..5344bcc 100644
--- a/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
+++ b/source/core/decision_forest/tree/decision_tree_handle_utilities.hpp
@@ -299,7 +299,8 @@ decision_tree<T>::tree_serialization(da_model_persistence::serialization_buffer
     da_status status = da_status_success;
 
     if (buffer.get_mode() == deserialize) {
-        if (this->n_nodes <= 0)
+        // Every node takes more than one byte of the data
+        if (this->n_nodes <= 0 || (size_t)this->n_nodes > buffer.get_size())
             return da_status_invalid_file_data;
 
         try {
-- 
2.43.0


From 5684caf1a031e54640ded82dada0bc5c69190d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:20 +0000
Subject: [PATCH 075/124] fix: null arguments of the handle functions were
 dereferenced

---
 source/core/utilities/da_handle_public.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/core/utilities/da_handle_public.cpp b/source/core/utilities/da_handle_public.cpp
index 3b74c07..51eb099 100644
--- a/source/core/utilities/da_handle_public.cpp
+++ b/source/core/utilities/da_handle_public.cpp
@@ -34,6 +34,9 @@
 template <typename T>
 da_status da_handle_init(da_handle *handle, da_handle_type handle_type) {
 
+    if (handle == nullptr)
+        return da_status_invalid_pointer;
+
     try {
         *handle = new _da_handle;
     } catch (std::bad_alloc &) {
@@ -276,6 +279,8 @@ da_status da_handle_get_error_message(da_handle handle, char **message) {
 da_status da_handle_get_error_severity(da_handle handle, da_severity *severity) {
     // Check to see if we have a valid handle
     if (handle) {
+        if (severity == nullptr)
+            return da_status_invalid_pointer;
         *severity = handle->err->get_severity();
         return da_status_success;
     }
-- 
2.43.0


From 3f7746515d77b8c8de633884b77ffb031b3e9abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:29 +0000
Subject: [PATCH 076/124] fix: saving a handle without a type crashed

---
 source/core/utilities/da_handle.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/core/utilities/da_handle.cpp b/source/core/utilities/da_handle.cpp
index 7cff7bf..8490e2d 100644
--- a/source/core/utilities/da_handle.cpp
+++ b/source/core/utilities/da_handle.cpp
@@ -62,6 +62,9 @@ da_status _da_handle::get_current_opts(da_options::OptionRegistry **opts, bool r
 }
 
 da_status _da_handle::save_handle(std::vector<char> &buffer_data) {
+    if (this->alg_handle_s == nullptr && this->alg_handle_d == nullptr)
+        return da_error(this->err, da_status_handle_not_initialized,
+                        "The handle has not been initialized.");
     da_model_persistence::serialization_buffer buffer(this->handle_type);
     da_status status = buffer.set_buffer_data(&buffer_data);
     if (status != da_status_success)
-- 
2.43.0


From f7981dd8539a3129d8d854374962a49443088fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:18 +0000
Subject: [PATCH 077/124] fix: setting an option or refused data zeroed the
 reported inertia of a trained k-means

---
 source/core/clustering/kmeans/kmeans.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 9102f60..b74693d 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -225,8 +225,8 @@ da_status kmeans<T>::get_result(da_result query, da_int *dim, da_int *result) {
 
 template <typename T> void kmeans<T>::refresh() {
 
-    // Reset internal class variables to their defaults
-    best_n_iter = 0;
+    // Reset internal class variables to their defaults, other than the results of the
+    // last computation, which remain available
     current_n_iter = 0;
     warn_maxit_reached = false;
     converged = 0;
@@ -236,11 +236,9 @@ template <typename T> void kmeans<T>::refresh() {
     n_blocks = 0;
     block_rem = 0;
     ldworkcs1 = 0;
-    best_inertia = (T)0.0;
     current_inertia = (T)0.0;
     padding = 0;
     lp_n_iter = 0;
-    best_lp_n_iter = 0;
     empty_cluster_found = false;
 }
 
@@ -264,6 +262,10 @@ da_status kmeans<T>::set_data(da_int n_samples, da_int n_features, const T *A_in
     if (status != da_status_success)
         return status;
 
+    best_n_iter = 0;
+    best_lp_n_iter = 0;
+    best_inertia = (T)0.0;
+
     // Store dimensions of A and pointer to user's data
     this->lda_usr = lda_in;
     this->A_usr = A_in;
-- 
2.43.0


From 82f8a05a4d315599b81eead6c33024fe2d3d587c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:18 +0000
Subject: [PATCH 078/124] fix: setting an option of a DBSCAN handle freed its
 row-major data

---
 source/core/clustering/dbscan/dbscan.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index 4bf7fb2..8b86f1a 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -163,10 +163,6 @@ da_status dbscan<T>::get_result(da_result query, da_int *dim, da_int *result) {
 };
 
 template <typename T> void dbscan<T>::refresh() {
-    if (A_temp) {
-        delete[] (A_temp);
-        A_temp = nullptr;
-    }
     this->model_trained = false;
     neighbors.clear();
     labels.clear();
@@ -182,6 +178,11 @@ da_status dbscan<T>::set_data(da_int n_samples, da_int n_features, const T *A_in
 
     // Guard against errors due to multiple calls using the same class instantiation
     refresh();
+    initdone = false;
+    if (A_temp) {
+        delete[] (A_temp);
+        A_temp = nullptr;
+    }
 
     da_status status =
         this->store_2D_array(n_samples, n_features, A_in, lda_in, &A_temp, &A, lda,
-- 
2.43.0


From 1e3dee34a136c736a6dce323d0663669730dc748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:18 +0000
Subject: [PATCH 079/124] fix: training data refused by a nearest neighbors
 handle left the previous data freed but in use

---
 .../nearest_neighbors/nearest_neighbors.cpp   | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/source/core/nearest_neighbors/nearest_neighbors.cpp b/source/core/nearest_neighbors/nearest_neighbors.cpp
index 815b208..1c86cd2 100644
--- a/source/core/nearest_neighbors/nearest_neighbors.cpp
+++ b/source/core/nearest_neighbors/nearest_neighbors.cpp
@@ -478,18 +478,24 @@ da_status neighbors<T>::set_data(da_int n_samples, da_int n_features, const T *X
                                    std::to_string(this->n_samples) + ".");
     }
 
-    // Guard against errors due to multiple calls using the same class instantiation
-    if (X_train_temp) {
-        delete[] (X_train_temp);
-        X_train_temp = nullptr;
-    }
-
-    da_status status = this->store_2D_array(
-        n_samples, n_features, X_train, ldx_train, &X_train_temp, &this->X_train,
-        this->ldx_train, "n_samples", "n_features", "X_train", "ldx_train");
+    T *new_X_temp = nullptr;
+    const T *new_X = nullptr;
+    da_int new_ldx = 0;
+    da_status status =
+        this->store_2D_array(n_samples, n_features, X_train, ldx_train, &new_X_temp,
+                             &new_X, new_ldx, "n_samples", "n_features", "X_train",
+                             "ldx_train");
     if (status != da_status_success)
         return status;
 
+    // The new data is valid and replaces that of any previous call
+    if (X_train_temp)
+        delete[] (X_train_temp);
+    X_train_temp = new_X_temp;
+    this->X_train = new_X;
+    this->ldx_train = new_ldx;
+    this->istrained_Xtrain = false;
+
     // Set internal parameters
     this->n_samples = n_samples;
     this->n_features = n_features;
-- 
2.43.0


From c5579055236838bcc4fb3f1624e5e5b02cb567d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:32 +0000
Subject: [PATCH 080/124] fix: SVM data was stored before it was validated, and
 NaNs were sought with an invalid leading dimension

---
 source/core/svm/svm.cpp                | 51 +++++++++++++-------------
 source/core/utilities/basic_handle.cpp | 30 +++++++--------
 2 files changed, 40 insertions(+), 41 deletions(-)

diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index 164c3e9..8c8ecd0 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -281,56 +281,55 @@ da_status svm<T>::get_result(da_result query, da_int *dim, da_int *result) {
 template <typename T>
 da_status svm<T>::set_data(da_int n_samples, da_int n_features, const T *X_in,
                            da_int ldx_train, const T *y_in) {
-    nrow = n_samples;
-    ncol = n_features;
-    ismulticlass = false;
-    try {
-        is_sv.resize(n_samples);
-    } catch (std::bad_alloc &) {                           // LCOV_EXCL_LINE
-        return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
-                        "Memory allocation error");
-    }
-    // Guard against memory leaks due to multiple calls using the same class instantiation
-    if (X_temp) {
-        delete[] (X_temp);
-        X_temp = nullptr;
-        X = nullptr;
-    }
-
     if (mod == da_svm_model::svm_undefined)
         return da_error(this->err, da_status_unknown_query,
                         "SVM model has not been selected.");
 
+    T *new_X_temp = nullptr;
+    const T *new_X = nullptr;
+    da_int new_ldx = 0;
     da_status status =
-        this->store_2D_array(n_samples, n_features, X_in, ldx_train, &X_temp, &X,
-                             this->ldx_train, "n_samples", "n_features", "X", "ldx");
+        this->store_2D_array(n_samples, n_features, X_in, ldx_train, &new_X_temp, &new_X,
+                             new_ldx, "n_samples", "n_features", "X", "ldx");
     if (status != da_status_success)
         return status;
+    std::unique_ptr<T[]> new_X_owner(new_X_temp);
 
     status = this->check_1D_array(n_samples, y_in, "n_samples", "y", 1);
     if (status != da_status_success)
         return status;
 
-    y = y_in;
     // Find n_class and validate y for classification
+    da_int new_n_class = 2;
     if (mod == da_svm_model::svc || mod == da_svm_model::nusvc) {
         // Check if y contains only whole numbers
         for (da_int i = 0; i < n_samples; i++)
-            if (y[i] != std::round(y[i]))
+            if (y_in[i] != std::round(y_in[i]))
                 return da_error(this->err, da_status_invalid_input,
                                 "Labels must be whole numbers from 0 to K-1, where K is "
                                 "the number of classes.");
         // y is assumed to only contain values from 0 to K-1 (K being the number of classes)
-        n_class = (da_int)(std::round(*std::max_element(y, y + n_samples)) + 1);
-        if (n_class < 2)
+        new_n_class = (da_int)(std::round(*std::max_element(y_in, y_in + n_samples)) + 1);
+        if (new_n_class < 2)
             return da_error(this->err, da_status_invalid_input,
                             "Number of classes must be at least 2.");
-        n_classifiers = n_class * (n_class - 1) / 2;
-    } else { // Regression
-        n_class = 2;
-        n_classifiers = 1;
     }
+
+    // The new data is valid and replaces that of any previous call
+    this->model_trained = false;
+    if (X_temp)
+        delete[] (X_temp);
+    X_temp = new_X_owner.release();
+    X = new_X;
+    this->ldx_train = new_ldx;
+    y = y_in;
+    nrow = n_samples;
+    ncol = n_features;
+    ismulticlass = false;
+    n_class = new_n_class;
+    n_classifiers = n_class * (n_class - 1) / 2;
     try {
+        is_sv.resize(n_samples);
         classifiers.resize(n_classifiers);
         class_sizes.resize(n_class);
         bias.resize(n_classifiers);
diff --git a/source/core/utilities/basic_handle.cpp b/source/core/utilities/basic_handle.cpp
index 7a94884..da4500d 100644
--- a/source/core/utilities/basic_handle.cpp
+++ b/source/core/utilities/basic_handle.cpp
@@ -147,21 +147,6 @@ da_status basic_handle<T>::store_2D_array(
     if (!aux)
         this->order = da_order(iorder);
 
-    // Check for NaNs if the `check data` option has been set
-    da_int check_data{!aux &&
-                      (mode == 0 || mode == 3)}; // skip for mode 1 or if aux handle
-    if (check_data) {
-        std::string check_data_str;
-        this->opts.get("check data", check_data_str, check_data);
-        if (check_data) {
-            status = ARCH::da_utils::check_data((da_order)this->order, n_rows, n_cols,
-                                                data, lddata);
-            if (status == da_status_invalid_input)
-                return da_error(this->err, da_status_invalid_input,
-                                "The array " + data_name + " contains at least one NaN.");
-        }
-    }
-
     std::string wrong_order = "";
 
     switch (this->order) {
@@ -200,6 +185,21 @@ da_status basic_handle<T>::store_2D_array(
         break;
     }
 
+    // Check for NaNs if the `check data` option has been set
+    da_int check_data{!aux &&
+                      (mode == 0 || mode == 3)}; // skip for mode 1 or if aux handle
+    if (check_data) {
+        std::string check_data_str;
+        this->opts.get("check data", check_data_str, check_data);
+        if (check_data) {
+            status = ARCH::da_utils::check_data((da_order)this->order, n_rows, n_cols,
+                                                data, lddata);
+            if (status == da_status_invalid_input)
+                return da_error(this->err, da_status_invalid_input,
+                                "The array " + data_name + " contains at least one NaN.");
+        }
+    }
+
     if (mode == 3) {
         // Mode 3: all done, exit
         return da_status_success;
-- 
2.43.0


From 4ad18c8331c47a355f37a709b21a99eba9eef039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:17 +0000
Subject: [PATCH 081/124] fix: NaNs were sought in an array with an invalid
 leading dimension

---
 source/core/utilities/da_utils.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/source/core/utilities/da_utils.cpp b/source/core/utilities/da_utils.cpp
index 3b7ca18..63733d6 100644
--- a/source/core/utilities/da_utils.cpp
+++ b/source/core/utilities/da_utils.cpp
@@ -591,13 +591,6 @@ da_status check_2D_array(bool check_data, da_order order, da_errors::da_error_t
         return da_error(err, da_status_invalid_pointer,
                         "The array " + data_name + " is null.");
 
-    if (check_data) {
-        status = ARCH::da_utils::check_data(order, n_rows, n_cols, data, lddata);
-        if (status == da_status_invalid_input)
-            return da_error(err, da_status_invalid_input,
-                            "The array " + data_name + " contains at least one NaN.");
-    }
-
     std::string wrong_order = "";
 
     switch (order) {
@@ -634,6 +627,13 @@ da_status check_2D_array(bool check_data, da_order order, da_errors::da_error_t
         break;
     }
 
+    if (check_data) {
+        status = ARCH::da_utils::check_data(order, n_rows, n_cols, data, lddata);
+        if (status == da_status_invalid_input)
+            return da_error(err, da_status_invalid_input,
+                            "The array " + data_name + " contains at least one NaN.");
+    }
+
     return da_status_success;
 }
 
-- 
2.43.0


From 57c0e3c9153945baf29cb1a3e0244a72595644d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:30 +0000
Subject: [PATCH 082/124] fix: k-means with the cosine distance used stale
 norms when a handle was reused

---
 source/core/clustering/kmeans/kmeans.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index b74693d..fe80244 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -613,6 +613,10 @@ template <typename T> da_status kmeans<T>::compute() {
                         "Memory allocation failed.");
     }
 
+    // The handle may have been used before with different data or options: spherical
+    // k-means relies on the centre norms being zero
+    da_std::fill(workc1.begin(), workc1.end() - padding, (T)0.0);
+
     // Ensure the extra padding in workc1 (for vectorization) won't interfere with any computation
     da_std::fill(workc1.end() - padding, workc1.end(),
                  da_std::numeric_limits<T>::infinity());
-- 
2.43.0


From d35dd18ce45e002bd52305a82e1df7a50c57cc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:31 +0000
Subject: [PATCH 083/124] fix: an option that was refused discarded the trained
 model

---
 source/core/utilities/options_public.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/core/utilities/options_public.cpp b/source/core/utilities/options_public.cpp
index 53081f1..3f37ce2 100644
--- a/source/core/utilities/options_public.cpp
+++ b/source/core/utilities/options_public.cpp
@@ -50,7 +50,7 @@ da_status da_options_set(da_handle handle, const char *option, T value) {
     }
 
     da_options::OptionRegistry *opts;
-    status = handle->get_current_opts(&opts, true);
+    status = handle->get_current_opts(&opts);
     if (status != da_status_success)
         return status; // Error message already loaded
 
@@ -59,7 +59,8 @@ da_status da_options_set(da_handle handle, const char *option, T value) {
         // Construct error based on status & opts->errmsg string
         return da_error(handle->err, status, opts->errmsg);
     }
-    return da_status_success;
+    // The option was accepted: the sub-handle may need to be retrained
+    return handle->get_current_opts(&opts, true);
 }
 
 da_status da_options_get(da_handle handle, const char *option, char *value,
-- 
2.43.0


From 8d7578c56020bf8f6e09b878610af9bc569e4ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:46 +0000
Subject: [PATCH 084/124] fix: a failure to estimate the probabilities of an
 SVM was ignored, leaving stale or zero coefficients

---
 source/core/svm/svm.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/source/core/svm/svm.cpp b/source/core/svm/svm.cpp
index 8c8ecd0..a1ea6af 100644
--- a/source/core/svm/svm.cpp
+++ b/source/core/svm/svm.cpp
@@ -579,6 +579,8 @@ template <typename T> da_status svm<T>::compute() {
 
         if (predict_proba_opt) {
             status = compute_probabilities(*classifiers[i], n_fold, probaA[i], probaB[i]);
+            if (status != da_status_success)
+                return status; // Error message already loaded
         }
 
         if constexpr (da_fp16::fp16_codegen_ok<lp_type>) {
@@ -1472,16 +1474,15 @@ da_status svm<T>::compute_probabilities(base_svm<T> &classifier, da_int n_fold,
         }
 
         if (stepsize < minstep) {
-            // If stepsize is too small, we stop the optimization
-            return da_warn(
-                this->err, da_status_numerical_difficulties,
-                "Line search had troubles converging during probability estimation.");
+            // If stepsize is too small, we stop the optimization with the current values
+            da_warn(this->err, da_status_numerical_difficulties,
+                    "Line search had troubles converging during probability estimation.");
+            return da_status_success;
         }
     }
     if (iter >= maxiter) {
-        return da_warn(
-            this->err, da_status_maxit,
-            "Maximum number of iterations reached during probability estimation.");
+        da_warn(this->err, da_status_maxit,
+                "Maximum number of iterations reached during probability estimation.");
     }
 
     return da_status_success;
-- 
2.43.0


From 8dc2ffcf630accaca16e8e4a116ed8918c3b87c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:58 +0000
Subject: [PATCH 085/124] fix: finite numbers of large magnitude were reported
 as NaNs

---
 source/core/utilities/da_utils.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/source/core/utilities/da_utils.cpp b/source/core/utilities/da_utils.cpp
index 63733d6..edf112e 100644
--- a/source/core/utilities/da_utils.cpp
+++ b/source/core/utilities/da_utils.cpp
@@ -37,6 +37,8 @@
 #include <algorithm>
 #include <boost/sort/spreadsort/float_sort.hpp>
 #include <cmath>
+#include <cstdint>
+#include <cstring>
 #include <map>
 #include <random>
 #include <type_traits>
@@ -175,6 +177,21 @@ void copy_transpose_2D_array_column_to_row_major(da_int n_rows, da_int n_cols, c
     }
 }
 
+// Bitwise test, since a pybind11 + clang 18 Windows release build does not honour isnan
+template <typename T> static inline bool is_nan_value(T x) {
+    if constexpr (std::is_same_v<T, double>) {
+        uint64_t bits;
+        std::memcpy(&bits, &x, sizeof(bits));
+        return (bits & 0x7fffffffffffffffULL) > 0x7ff0000000000000ULL;
+    } else if constexpr (std::is_same_v<T, float>) {
+        uint32_t bits;
+        std::memcpy(&bits, &x, sizeof(bits));
+        return (bits & 0x7fffffffU) > 0x7f800000U;
+    } else {
+        return x != x;
+    }
+}
+
 template <typename T>
 da_status check_data(da_order order, da_int n_rows, da_int n_cols, const T *X,
                      da_int ldx) {
@@ -191,9 +208,7 @@ da_status check_data(da_order order, da_int n_rows, da_int n_cols, const T *X,
         if constexpr (std::is_floating_point<T>::value) {
             for (da_int i = 0; i < n_rows; i++) {
                 for (da_int j = 0; j < n_cols; j++) {
-                    // x==x+1 check needed to get round a pybind1 + clang 18 Windows release build bug
-                    if (std::isnan(X[i * ldx + j]) ||
-                        X[i * ldx + j] == X[i * ldx + j] + (T)1) {
+                    if (is_nan_value(X[i * ldx + j])) {
                         return da_status_invalid_input;
                     }
                 }
@@ -205,8 +220,7 @@ da_status check_data(da_order order, da_int n_rows, da_int n_cols, const T *X,
         if constexpr (std::is_floating_point<T>::value) {
             for (da_int j = 0; j < n_cols; j++) {
                 for (da_int i = 0; i < n_rows; i++) {
-                    if (std::isnan(X[i + j * ldx]) ||
-                        X[i + j * ldx] == X[i + j * ldx] + (T)1) {
+                    if (is_nan_value(X[i + j * ldx])) {
                         return da_status_invalid_input;
                     }
                 }
-- 
2.43.0


From f35e9f27c86b46429912b4bd422a522ce8b46c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:58 +0000
Subject: [PATCH 086/124] fix: the sizes of a train and test split overflowed

---
 source/core/utilities/da_utils.cpp         | 2 +-
 source/core/utilities/train_test_split.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/core/utilities/da_utils.cpp b/source/core/utilities/da_utils.cpp
index edf112e..4b80248 100644
--- a/source/core/utilities/da_utils.cpp
+++ b/source/core/utilities/da_utils.cpp
@@ -375,7 +375,7 @@ da_status validate_parameters_stratified_shuffle(da_int m, da_int train_size,
                                                  const std::vector<da_int> &counts) {
     if (n_classes < 2)
         return da_status_invalid_input;
-    if (train_size + test_size > m)
+    if (train_size > m || test_size > m - train_size)
         return da_status_invalid_input;
     if (train_size < n_classes || test_size < n_classes)
         return da_status_invalid_input;
diff --git a/source/core/utilities/train_test_split.cpp b/source/core/utilities/train_test_split.cpp
index e528bf0..d59fd59 100644
--- a/source/core/utilities/train_test_split.cpp
+++ b/source/core/utilities/train_test_split.cpp
@@ -60,7 +60,7 @@ da_status validate_parameters_train_test_split(da_order order, da_int m, da_int
     if (train_size < 1 || test_size < 1) {
         return da_status_invalid_input;
     }
-    if ((train_size + test_size) > m) {
+    if (train_size > m || test_size > m - train_size) {
         return da_status_invalid_input;
     }
 
-- 
2.43.0


From 19589d10ce93ff04eecd488b19a7500de8b08635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:39 +0000
Subject: [PATCH 087/124] fix: classes given as floating-point numbers were
 truncated instead of floored

---
 source/core/utilities/da_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/utilities/da_utils.cpp b/source/core/utilities/da_utils.cpp
index 4b80248..35f3c64 100644
--- a/source/core/utilities/da_utils.cpp
+++ b/source/core/utilities/da_utils.cpp
@@ -284,7 +284,7 @@ da_status convert_fp_classes(da_int m, da_int precision, const T *classes,
 
 #pragma omp simd
     for (da_int i = 0; i < m; ++i) {
-        int_classes[i] = (int64_t)(classes[i] * precision);
+        int_classes[i] = (int64_t)std::floor(classes[i] * precision);
     }
     return da_status_success;
 }
-- 
2.43.0


From f77d1ca0504bc8a5952dae8377de329d876cec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:34 +0000
Subject: [PATCH 088/124] fix: DBSCAN with several threads merged clusters
 through border points, missed merges and raced

---
 source/core/clustering/dbscan/dbscan.cpp | 88 ++++++++++++++----------
 1 file changed, 50 insertions(+), 38 deletions(-)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index 8b86f1a..f756765 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -310,72 +310,84 @@ template <typename T> da_status dbscan<T>::dbscan_clusters_parallel() {
     }
 
     da_std::fill(labels.begin(), labels.end(), NOISE);
-    da_std::fill(duplicate_labels.begin(), duplicate_labels.end(), NOISE);
+    // The entries of duplicate_labels form a forest in which the core points of a cluster are joined: each
+    // point refers to itself or to one of lower index. Border points are never joined, so they cannot bridge clusters
+    da_std::iota(duplicate_labels.begin(), duplicate_labels.end(), 0);
+
+    // Find the root of a core point, halving the path to it on the way
+    auto find_root = [this](da_int i) {
+        da_int parent, grandparent;
+#pragma omp atomic read
+        parent = duplicate_labels[i];
+        while (parent != i) {
+#pragma omp atomic read
+            grandparent = duplicate_labels[parent];
+            if (grandparent != parent) {
+#pragma omp atomic write
+                duplicate_labels[i] = grandparent;
+            }
+            i = parent;
+            parent = grandparent;
+        }
+        return i;
+    };
 
 #pragma omp parallel default(none)                                                       \
-    shared(labels, neighbors, n_clusters, n_core_samples, min_samples_m1, n_samples,     \
-               status, duplicate_labels, is_core_sample, next_id, remap)
+    shared(labels, neighbors, n_clusters, n_samples, duplicate_labels, is_core_sample,   \
+               next_id, remap, find_root)
     {
 
-// Parallel loop to compute DBSCAN clusters
+// Parallel loop to join neighboring core points
 #pragma omp for schedule(guided, 64)
         for (da_int i = 0; i < n_samples; i++) {
             if (is_core_sample[i]) {
-                // This is a core point
-                da_int tmp_label_i;
-#pragma omp atomic read
-                tmp_label_i = labels[i];
-                if (i < tmp_label_i || tmp_label_i == NOISE) {
-#pragma omp atomic write
-                    // Assign it its own index as the cluster label - we will combine clusters later
-                    labels[i] = i;
-                }
-
                 // Loop through each point in the epsilon neighborhood of point i
                 auto &this_neighbor = neighbors[i];
                 for (da_int j = 0; j < (da_int)this_neighbor.size(); j++) {
                     da_int sample_point_j = this_neighbor[j];
-                    da_int tmp_label_j;
-#pragma omp atomic read
-                    tmp_label_j = labels[sample_point_j];
-                    // Record that i and j are in the same cluster
-                    if (i < sample_point_j)
-                        duplicate_labels[sample_point_j] = i;
-                    else
-                        duplicate_labels[i] = sample_point_j;
-
-                    if (i < tmp_label_j || tmp_label_j == NOISE) {
+                    // Each pair of neighbors is found from both its points
+                    if (sample_point_j > i || !is_core_sample[sample_point_j])
+                        continue;
+                    if (find_root(i) == find_root(sample_point_j))
+                        continue;
+#pragma omp critical
+                    {
+                        // Only one thread at a time can join clusters, so the roots cannot change here
+                        da_int root_i = find_root(i);
+                        da_int root_j = find_root(sample_point_j);
+                        da_int root_min = std::min(root_i, root_j);
+                        da_int root_max = std::max(root_i, root_j);
 #pragma omp atomic write
-                        labels[sample_point_j] = i;
+                        duplicate_labels[root_max] = root_min;
                     }
                 }
             }
         }
 
+// A core point belongs to the cluster of its root and a border point to the first cluster with a core point in its neighborhood
 #pragma omp for schedule(guided, 64)
         for (da_int i = 0; i < n_samples; i++) {
-            da_int current_label = labels[i];
-            if (current_label == NOISE) {
+            if (is_core_sample[i]) {
+                labels[i] = find_root(i);
                 continue;
             }
-
-            // Follow the chain of labels to find the lowest one
-            while (duplicate_labels[current_label] != NOISE) {
-                current_label = duplicate_labels[current_label];
+            auto &this_neighbor = neighbors[i];
+            for (da_int j = 0; j < (da_int)this_neighbor.size(); j++) {
+                da_int sample_point_j = this_neighbor[j];
+                if (is_core_sample[sample_point_j]) {
+                    da_int root = find_root(sample_point_j);
+                    if (labels[i] == NOISE || root < labels[i])
+                        labels[i] = root;
+                }
             }
-
-            labels[i] = current_label;
         }
 
         // Relabel clusters to have consecutive numbering starting from 0
 #pragma omp single
         {
             for (da_int i = 0; i < n_samples; i++) {
-                da_int lab = labels[i];
-                if (lab == NOISE)
-                    continue;
-                if (remap[lab] == NOISE) {
-                    remap[lab] = next_id;
+                if (is_core_sample[i] && labels[i] == i) {
+                    remap[i] = next_id;
                     next_id++;
                 }
             }
-- 
2.43.0


From 315e82b3e4fa1e4ea279b7b957d90fda2faa7dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:34 +0000
Subject: [PATCH 089/124] fix: DBSCAN chose a k-d tree for metrics it does not
 support

---
 source/core/clustering/dbscan/dbscan.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/core/clustering/dbscan/dbscan.cpp b/source/core/clustering/dbscan/dbscan.cpp
index f756765..6e36f8c 100644
--- a/source/core/clustering/dbscan/dbscan.cpp
+++ b/source/core/clustering/dbscan/dbscan.cpp
@@ -254,8 +254,9 @@ template <typename T> da_status dbscan<T>::compute() {
     alg_internal = da_neighbors_types::nn_algorithm(algorithm);
     if (alg_internal == automatic) {
         // If the user has not specified an algorithm, we will use the k-d tree if the data is small
-        // in dimension and the Minkowski options allow it. Otherwise we will use brute force.
-        if (n_features <= 15 && !(metric_internal == da_minkowski && p < (T)1.0)) {
+        // in dimension and the metric allows it. Otherwise we will use brute force.
+        if (n_features <= 15 && !(metric_internal == da_minkowski && p < (T)1.0) &&
+            metric_internal != da_cosine && metric_internal != da_sqeuclidean_gemm) {
             alg_internal = kd_tree;
         } else {
             alg_internal = brute;
-- 
2.43.0


From 45559f2ab53c202a5033a6233bc52bbe91d9609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:34 +0000
Subject: [PATCH 090/124] fix: the brute-force DBSCAN compared squared
 distances with the radius for the Minkowski metric of power 2

---
 source/core/nearest_neighbors/radius_neighbors.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/source/core/nearest_neighbors/radius_neighbors.cpp b/source/core/nearest_neighbors/radius_neighbors.cpp
index d5fa3a7..2e38fc3 100644
--- a/source/core/nearest_neighbors/radius_neighbors.cpp
+++ b/source/core/nearest_neighbors/radius_neighbors.cpp
@@ -62,13 +62,12 @@ da_status radius_neighbors_brute(da_int n_samples, da_int n_features, const T *A
     std::vector<T> A_norms;
     std::vector<std::vector<T>> D;
 
-    // For da_euclidean it is more efficient to use the squared distance
-    T eps_internal = (metric == da_euclidean_gemm) ? eps * eps : eps;
+    // For the Euclidean distance it is more efficient to use the squared distance
+    bool use_squared_dist =
+        metric == da_euclidean_gemm || (metric == da_minkowski && p == T(2.0));
+    T eps_internal = use_squared_dist ? eps * eps : eps;
 
-    da_metric metric_internal =
-        (metric == da_euclidean_gemm || (metric == da_minkowski && p == T(2.0)))
-            ? da_sqeuclidean_gemm
-            : metric;
+    da_metric metric_internal = use_squared_dist ? da_sqeuclidean_gemm : metric;
 
     try {
         D.resize(n_threads);
-- 
2.43.0


From 31a6f97b377c38930060bd5ef9a7295ad340fa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:20 +0000
Subject: [PATCH 091/124] fix: k-means initial centres of another size were
 read out of bounds, and refused ones changed the trained model or left freed
 centres in use

---
 source/core/clustering/kmeans/kmeans.cpp | 39 ++++++++++++++++--------
 source/core/clustering/kmeans/kmeans.hpp |  3 ++
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index fe80244..26b451f 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -302,12 +302,6 @@ da_status kmeans<T>::set_init_centres(const T *C_in, da_int ldc_in) {
                         "No data has been passed to the handle. Please call "
                         "da_kmeans_set_data_s or da_kmeans_set_data_d.");
 
-    // Guard against errors due to multiple calls using the same class instantiation
-    if (C_temp) {
-        delete[] (C_temp);
-        C_temp = nullptr;
-    }
-
     // Check options weren't changed to incompatible values after data was set
     std::string opt_order;
     da_int iorder;
@@ -318,22 +312,30 @@ da_status kmeans<T>::set_init_centres(const T *C_in, da_int ldc_in) {
     }
 
     // Check for illegal arguments
-    this->opts.get("n_clusters", n_clusters);
+    da_int n_clusters_init;
+    this->opts.get("n_clusters", n_clusters_init);
     da_status status =
-        this->check_2D_array(this->order, n_clusters, n_features, C_in, ldc_in,
+        this->check_2D_array(this->order, n_clusters_init, n_features, C_in, ldc_in,
                              "n_clusters", "n_features", "C", "ldc", 1, 1);
     if (status != da_status_success)
         return status;
 
+    // Guard against errors due to multiple calls using the same class instantiation
+    centres_supplied = false;
+    if (C_temp) {
+        delete[] (C_temp);
+        C_temp = nullptr;
+    }
+
     // We'll always store C in column-major format internally
     if (this->order == row_major) {
         // Transpose C to column-major
         try {
-            C_temp = new T[(size_t)n_clusters * (size_t)n_features];
+            C_temp = new T[(size_t)n_clusters_init * (size_t)n_features];
             ARCH::da_utils::copy_transpose_2D_array_row_to_column_major<T>(
-                n_clusters, n_features, C_in, ldc_in, C_temp, n_clusters);
+                n_clusters_init, n_features, C_in, ldc_in, C_temp, n_clusters_init);
             C = C_temp;
-            ldc = n_clusters;
+            ldc = n_clusters_init;
         } catch (std::bad_alloc const &) {
             return da_error(this->err, da_status_memory_error, // LCOV_EXCL_LINE
                             "Memory allocation failed.");
@@ -343,8 +345,10 @@ da_status kmeans<T>::set_init_centres(const T *C_in, da_int ldc_in) {
         ldc = ldc_in;
     }
 
-    // Record that centres have been set
+    // Record that centres have been set, and their size
     centres_supplied = true;
+    C_n_clusters = n_clusters_init;
+    C_n_features = n_features;
 
     return da_status_success;
 }
@@ -456,6 +460,17 @@ template <typename T> da_status kmeans<T>::compute() {
                         "centres have been provided.");
     }
 
+    // This can only be triggered if data or options were changed after the centres were supplied
+    if (init_method == supplied && check_options &&
+        (C_n_clusters != n_clusters || C_n_features != n_features)) {
+        return da_error(this->err, da_status_incompatible_options,
+                        "The initial centres provided form a " +
+                            std::to_string(C_n_clusters) + " by " +
+                            std::to_string(C_n_features) + " matrix, but n_clusters = " +
+                            std::to_string(n_clusters) + " and n_features = " +
+                            std::to_string(n_features) + ".");
+    }
+
     if (A_temp) {
         delete[] (A_temp);
         A_temp = nullptr;
diff --git a/source/core/clustering/kmeans/kmeans.hpp b/source/core/clustering/kmeans/kmeans.hpp
index ae36a01..b0041a7 100644
--- a/source/core/clustering/kmeans/kmeans.hpp
+++ b/source/core/clustering/kmeans/kmeans.hpp
@@ -141,6 +141,9 @@ template <typename T> class kmeans : public basic_handle<T> {
     da_int lda_usr = 0;
     da_int ldc = 0;
 
+    // The number of rows and columns of the user's matrix of initial centres
+    da_int C_n_clusters = 0, C_n_features = 0;
+
     //Utility pointers to column major allocated copies of user's data
     T *A_temp = nullptr;
     T *C_temp = nullptr;
-- 
2.43.0


From e3de021d229e63f4b172b2651a4fa6112df05f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:20 +0000
Subject: [PATCH 092/124] fix: a failed k-means computation left the results of
 the previous one available with other sizes

---
 source/core/clustering/kmeans/kmeans.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 26b451f..0dafeec 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -362,6 +362,9 @@ template <typename T> da_status kmeans<T>::compute() {
                         "No data has been passed to the handle. Please call "
                         "da_kmeans_set_data_s or da_kmeans_set_data_d.");
 
+    // The results of a previous computation are overwritten from here on
+    this->model_trained = false;
+
     if (check_options) {
 
         // Check options weren't changed to incompatible values after data was set
-- 
2.43.0


From 71063f171697d7935a7f4a4c05e691b30f0fbef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:20 +0000
Subject: [PATCH 093/124] fix: k-means started from random partitions divided
 by zero for an empty cluster

---
 source/core/clustering/kmeans/kmeans.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 0dafeec..c990355 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -1480,7 +1480,9 @@ template <typename T> void kmeans<T>::initialize_centres() {
 #pragma omp simd collapse(2)
         for (da_int j = 0; j < n_features; j++) {
             for (da_int i = 0; i < n_clusters; i++) {
-                (*current_cluster_centres)[i + j * n_clusters] /= work_int1[i];
+                // Guard against empty clusters - avoid division by zero
+                (*current_cluster_centres)[i + j * n_clusters] /=
+                    std::max(work_int1[i], (da_int)1);
             }
         }
 
-- 
2.43.0


From ab73118fc77128a0abc20d95409e17af7ba6e727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:20 +0000
Subject: [PATCH 094/124] fix: the low precision phase of k-means read its copy
 of the data in the wrong storage order

---
 source/core/clustering/kmeans/kmeans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index c990355..4450df7 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -1877,7 +1877,7 @@ template <typename T> da_status kmeans<T>::lower_precision_init() {
         da_int lda_lp =
             (this->A_order == column_major) ? this->n_samples : this->n_features;
         kmeans<lp_type> km_float(
-            *this->err, this->A_order, this->order, this->algorithm, supplied, this->seed,
+            *this->err, this->A_order, this->A_order, this->algorithm, supplied, this->seed,
             (lp_type)this->lp_tol, this->lp_max_iter, this->n_samples, this->n_features,
             this->n_clusters, 1, A_lp.data(), lda_lp, A_lp.data(), lda_lp, C_lp.data(),
             this->n_clusters, true, true, false, this->empty_cluster_handling,
-- 
2.43.0


From 03ae08b7d4e15467e4d835491f4d966e7f9841b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:20 +0000
Subject: [PATCH 095/124] fix: Elkan's k-means used outdated distances between
 the centres after splitting a cluster

---
 source/core/clustering/kmeans/kmeans.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 4450df7..1bb6ad6 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -1343,6 +1343,8 @@ template <typename T> da_status kmeans<T>::handle_empty_clusters(bool &clusters_
         da_std::fill(works1.begin(), works1.end(), da_std::numeric_limits<T>::max());
         for (da_int i = 0; i < n_samples * ldworkcs1; i++)
             workcs1[i] = (T)0.0;
+        // The centres have moved, so the half distances between them are out of date
+        compute_centre_half_distances();
     } else if (algorithm == macqueen) {
         // Recompute squared centre norms (workc1) used in GEMM distance
         da_utils::compute_squared_row_norms(column_major, n_clusters, n_features,
-- 
2.43.0


From 155dcc451d667567e777b5b4ed5913e4bb35a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:20 +0000
Subject: [PATCH 096/124] fix: MacQueen's k-means took the distance to the
 first centre from the wrong place in its initial assignment

---
 source/core/clustering/kmeans/kmeans_macqueen.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/clustering/kmeans/kmeans_macqueen.hpp b/source/core/clustering/kmeans/kmeans_macqueen.hpp
index 60b66d4..9d4a598 100644
--- a/source/core/clustering/kmeans/kmeans_macqueen.hpp
+++ b/source/core/clustering/kmeans/kmeans_macqueen.hpp
@@ -134,8 +134,8 @@ void kmeans<T>::init_macqueen_block(da_int block_size, da_int block_index) {
                         n_clusters, &A[A_index], lda, (T)0.0, workcs1.data(), ldworkcs1);
 
     for (da_int i = block_index; i < block_index + block_size; i++) {
-        T smallest_dist = workcs1[i - block_index] + workc1[0];
         da_int index = (i - block_index) * ldworkcs1;
+        T smallest_dist = workcs1[index] + workc1[0];
         da_int label = 0;
         for (da_int j = 1; j < n_clusters; j++) {
             tmp_dist = workcs1[index + j] + workc1[j];
-- 
2.43.0


From b92b150d42286d8d7a8c53ab9701af8d27fb399e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:20 +0000
Subject: [PATCH 097/124] fix: MacQueen's k-means measured distances with the
 norms of the initial centres

---
 source/core/clustering/kmeans/kmeans_macqueen.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/core/clustering/kmeans/kmeans_macqueen.hpp b/source/core/clustering/kmeans/kmeans_macqueen.hpp
index 9d4a598..aa81172 100644
--- a/source/core/clustering/kmeans/kmeans_macqueen.hpp
+++ b/source/core/clustering/kmeans/kmeans_macqueen.hpp
@@ -108,6 +108,12 @@ template <typename T> void kmeans<T>::init_macqueen() {
         }
     }
 
+    // The squared norms are now those of the updated centres
+    if (!do_spherical)
+        da_utils::compute_squared_row_norms(column_major, n_clusters, n_features,
+                                            (*current_cluster_centres).data(), n_clusters,
+                                            workc1.data());
+
     // Re-zero previous clusters, which were used temporarily here
     for (da_int i = 0; i < n_clusters * n_features; i++)
         (*previous_cluster_centres)[i] = 0;
-- 
2.43.0


From c1062dfff11e077382f455dd585e1e6c79162d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:38 +0000
Subject: [PATCH 098/124] fix: splitting a cluster of spherical k-means took
 its point from the normalized centre

---
 source/core/clustering/kmeans/kmeans.cpp | 27 ++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/source/core/clustering/kmeans/kmeans.cpp b/source/core/clustering/kmeans/kmeans.cpp
index 1bb6ad6..2fc12fb 100644
--- a/source/core/clustering/kmeans/kmeans.cpp
+++ b/source/core/clustering/kmeans/kmeans.cpp
@@ -1250,12 +1250,27 @@ template <typename T> da_status kmeans<T>::handle_empty_clusters(bool &clusters_
             (do_spherical && normalize_data) ? data_inv_norms[best_idx] : (T)1.0;
 
         // Update old cluster centre: remove point contribution
-        // new_centre = (centre * n_old - point) / (n_old - 1)
-        for (da_int j = 0; j < n_features; j++) {
-            T a_val = A[best_idx * A_rstride + j * A_cstride] * inv_norm_best;
-            T &centre_val =
-                (*current_cluster_centres)[old_label * C_rstride + j * C_cstride];
-            centre_val = (centre_val * n_old - a_val) / (n_old - 1);
+        if (do_spherical) {
+            // The centre has unit length, so the sum of its points must be formed again
+            for (da_int j = 0; j < n_features; j++)
+                (*current_cluster_centres)[old_label * C_rstride + j * C_cstride] =
+                    (T)0.0;
+            for (da_int i = 0; i < n_samples; i++) {
+                if ((*current_labels)[i] != old_label || i == best_idx)
+                    continue;
+                T inv_norm = normalize_data ? data_inv_norms[i] : (T)1.0;
+                for (da_int j = 0; j < n_features; j++)
+                    (*current_cluster_centres)[old_label * C_rstride + j * C_cstride] +=
+                        A[i * A_rstride + j * A_cstride] * inv_norm;
+            }
+        } else {
+            // new_centre = (centre * n_old - point) / (n_old - 1)
+            for (da_int j = 0; j < n_features; j++) {
+                T a_val = A[best_idx * A_rstride + j * A_cstride];
+                T &centre_val =
+                    (*current_cluster_centres)[old_label * C_rstride + j * C_cstride];
+                centre_val = (centre_val * n_old - a_val) / (n_old - 1);
+            }
         }
 
         // Set new cluster centre = the relocated point
-- 
2.43.0


From 92c67690de4308468380ff7413ad3641d13be80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:33 +0000
Subject: [PATCH 099/124] fix: Hartigan-Wong k-means checked the wrong cluster
 for the live set and missed transfers

---
 source/core/clustering/kmeans/kmeans_hartigan_wong.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp b/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
index 650d4b9..b7dfda6 100644
--- a/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
+++ b/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
@@ -501,7 +501,7 @@ void optra(const T a[], da_int m, da_int n, da_int lda, T c[], da_int k, da_int
   for possible transfer of point I.   Otherwise, we need to consider
   all possible clusters.
 */
-                if ((i < live[l1 - 1] || i < live[l2 - 1]) && l != l1 && l != ll) {
+                if ((i < live[l1 - 1] || i < live[l - 1]) && l != l1 && l != ll) {
                     rr = r2 / an2[l - 1];
 
                     dc = (T)0.0;
-- 
2.43.0


From 3674e88d359ddfb94d7d35d03e33e0dc3517280c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:59 +0000
Subject: [PATCH 100/124] fix: Hartigan-Wong k-means reported one iteration too
 many when it reached the limit

---
 source/core/clustering/kmeans/kmeans_hartigan_wong.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp b/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
index b7dfda6..2ef71cd 100644
--- a/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
+++ b/source/core/clustering/kmeans/kmeans_hartigan_wong.hpp
@@ -308,7 +308,7 @@ void kmns(const T a[], da_int m, da_int n, da_int lda, T c[], da_int k, da_int i
   If the maximum number of iterations was taken without convergence,
   IFAULT is 2 now.  This may indicate unforeseen looping.
 */
-    *n_iter = ij;
+    *n_iter = ij <= iter ? ij : iter;
     /*
     if (*ifault == 2) {
         printf("\n");
-- 
2.43.0


From bd0e5d19e10fb9698f1540ec7eb6325625c9322f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:41:20 +0000
Subject: [PATCH 101/124] fix: kernel PCA kept results and the inverse
 transform of an earlier computation

---
 source/core/factorization/kernel_pca/kernel_pca.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/core/factorization/kernel_pca/kernel_pca.cpp b/source/core/factorization/kernel_pca/kernel_pca.cpp
index 6794ac4..ab4c0f3 100644
--- a/source/core/factorization/kernel_pca/kernel_pca.cpp
+++ b/source/core/factorization/kernel_pca/kernel_pca.cpp
@@ -327,6 +327,10 @@ template <typename T> da_status kernel_pca<T>::compute() {
                         "No data has been provided. Please call da_kernel_pca_set_data_? "
                         "before da_kernel_pca_compute_?.");
 
+    // Results of an earlier computation no longer hold
+    this->model_trained = false;
+    inverse_fitted = false;
+
     da_int n_components_opt, kernel_int, fit_inv_int, remove_zero_int, solver_int;
     std::string kernel_str, fit_inv_str, remove_zero_str, solver_str;
 
-- 
2.43.0


From cd156078d2b4f58aa6d687cedd6bc5fef0bc25bd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:43:39 +0000
Subject: [PATCH 102/124] fix: a second PCA computation applied the QR factors
 of the first one

---
 source/core/factorization/pca/pca.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index fa58690..48dde40 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -324,6 +324,9 @@ template <typename T> da_status pca<T>::compute() {
                         "No data has been passed to the handle. Please call "
                         "da_pca_set_data_s or da_pca_set_data_d.");
 
+    // Whether a QR factorization precedes the SVD is decided afresh in every computation
+    qr = false;
+
     // Read in options and store in class together with associated variables
     this->opts.get("n_components", npc);
 
-- 
2.43.0


From 57f8607e175d7b0303daf528e097e9715de700af Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:44:02 +0000
Subject: [PATCH 103/124] fix: PCA kept the biased estimator after the option
 was set back to unbiased

---
 source/core/factorization/pca/pca.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/core/factorization/pca/pca.cpp b/source/core/factorization/pca/pca.cpp
index 48dde40..be7e179 100644
--- a/source/core/factorization/pca/pca.cpp
+++ b/source/core/factorization/pca/pca.cpp
@@ -366,6 +366,7 @@ template <typename T> da_status pca<T>::compute() {
 
     std::string degrees_of_freedom;
     div = (n == 1) ? 1 : n - 1;
+    dof = 0;
     this->opts.get("degrees of freedom", degrees_of_freedom);
     if (degrees_of_freedom == "biased") {
         dof = -1;
-- 
2.43.0


From d92e46d85125f948061863aeec0321c988e16655 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:44:32 +0000
Subject: [PATCH 104/124] fix: kernel PCA refused positive semi-definite
 kernels because of rounding

---
 source/core/factorization/kernel_pca/kernel_pca.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/core/factorization/kernel_pca/kernel_pca.hpp b/source/core/factorization/kernel_pca/kernel_pca.hpp
index 033f105..dbc0456 100644
--- a/source/core/factorization/kernel_pca/kernel_pca.hpp
+++ b/source/core/factorization/kernel_pca/kernel_pca.hpp
@@ -78,9 +78,10 @@ da_status clamp_near_zero_eigenvalues(std::vector<T> &eigenvalues, da_int n_chec
     Magic number stated in format: double (float)
     4 eigenvalue checks:
         1. Not all eigenvalues are negative.
-        3. No negative eigenvalue has absolute value larger than 1e-10 (1e-6)
+        2. No negative eigenvalue has absolute value larger than 1e-10 (1e-6)
         3. No negative eigenvalue has absolute value larger than 1e-5 (5e-3) * \lambda_0
-        If 1., 2. or 3. fail, return da_status_numerical_difficulties.
+        If 1. or both of 2. and 3. fail, return da_status_numerical_difficulties: rounding
+        of a large kernel matrix alone exceeds the absolute bound.
         Any negative eigenvalues that pass the tests are set to 0.
         4. Any positive eigenvalue with value smaller than 1e-12 (2e-7) * \lambda_0
             eigenvalue is set to 0.
@@ -100,12 +101,12 @@ da_status clamp_near_zero_eigenvalues(std::vector<T> &eigenvalues, da_int n_chec
 
     pos_bound *= max_eval;
     neg_rel_bound *= max_eval;
-    T strictest_neg_bound = -std::min(neg_abs_bound, neg_rel_bound);
+    T neg_bound = -std::max(neg_abs_bound, neg_rel_bound);
 
     for (da_int idx = 0; idx < n_total; idx++) {
         T &ev = eigenvalues[idx];
         if (ev < 0) {
-            if (idx < n_check && ev < strictest_neg_bound)
+            if (idx < n_check && ev < neg_bound)
                 return da_status_numerical_difficulties;
 
             ev = 0;
-- 
2.43.0


From cc67bccbcb6bfa42857ea04ad74aeee1cb68336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:34 +0000
Subject: [PATCH 105/124] fix: coordinate descent penalized the intercept and
 gave it a wrong step without centering

---
 source/core/linear_model/linear_model.cpp     |  8 ++++++++
 source/core/linear_model/linmod_nln_optim.cpp | 12 +++++-------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index 46e64ce..26a59f8 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -1052,6 +1052,14 @@ da_status linear_model<T>::fit_impl(da_int usr_ncoefs, const T *coefs, bool do_p
                 // we need to explicitly set to 0
                 coef.resize(ncoef);
                 da_std::fill(coef.begin(), coef.end(), (T)0);
+                if (method_id == linmod_method::coord && intercept &&
+                    scaling == scaling_t::none) {
+                    // The best intercept for zero coefficients is the mean response
+                    da_fp16::wider_t<T> sum{0};
+                    for (da_int j = 0; j < nsamples; j++)
+                        sum += static_cast<da_fp16::wider_t<T>>(yusr[j]);
+                    coef[ncoef - 1] = static_cast<T>(sum / nsamples);
+                }
                 if (method_id == linmod_method::cg && !is_well_determined) {
                     dual_coef.resize(nsamples);
                     da_std::fill(dual_coef.begin(), dual_coef.end(), (T)0);
diff --git a/source/core/linear_model/linmod_nln_optim.cpp b/source/core/linear_model/linmod_nln_optim.cpp
index 25a1e6f..2423008 100644
--- a/source/core/linear_model/linmod_nln_optim.cpp
+++ b/source/core/linear_model/linmod_nln_optim.cpp
@@ -922,16 +922,14 @@ da_int stepfun_linreg_sklearn(da_int nfeat, T *coef, T *knew, da_int k, T *f, vo
         }
     }
 
-    if (positive && gk < T(0))
+    if (k >= nmod) {
+        // The intercept is not penalized, it is the mean of the residual without it
+        betak = da_fp16::div_int(gk, nsamples);
+    } else if (positive && gk < T(0))
         betak = T(0);
     else {
         using W = da_fp16::wider_t<T>;
-        W xv;
-        if (k < nmod) {
-            xv = data->xv[k];
-        } else { // Intercept
-            xv = W(1);
-        }
+        const W xv = data->xv[k];
         // Form the divisor in the wider type W so (xv + l2) cannot underflow to
         // 0/0 = NaN for _Float16 (a no-op for float/double).
         const T num = sign(gk) * da_std::max(da_std::abs(gk) - l1, T(0));
-- 
2.43.0


From 699478f4422f62ca4ca34b3d7fed7df9a961bdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:16 +0000
Subject: [PATCH 106/124] fix: linear models took the solver's own choice of
 method and scaling for the user's in later fits

---
 source/core/linear_model/linear_model.cpp | 8 +++++---
 source/core/linear_model/linear_model.hpp | 1 +
 source/core/utilities/options.hpp         | 8 ++++++++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index 26a59f8..0f1aef9 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -113,7 +113,10 @@ template <typename T> da_status linear_model<T>::read_options() {
     std::string tmp_str;
 
     this->opts.get("optim method", method_str, tmp_int);
-    this->method_id = static_cast<linmod_method>(tmp_int);
+    // The solver stores its own choice in the option, what the user asked for still counts
+    if (!this->opts.is_set_by_solver("optim method"))
+        this->user_method = static_cast<linmod_method>(tmp_int);
+    this->method_id = this->user_method;
 
     this->opts.get("alpha", this->alpha);
     this->opts.get("lambda", this->lambda);
@@ -125,7 +128,7 @@ template <typename T> da_status linear_model<T>::read_options() {
     this->use_mixed_precision = (tmp_int == 1);
 
     this->opts.get("scaling", scaling_str, tmp_int);
-    if (this->user_scaling == scaling_t::automatic) {
+    if (!this->opts.is_set_by_solver("scaling")) {
         this->user_scaling = static_cast<scaling_t>(tmp_int);
     }
 
@@ -221,7 +224,6 @@ template <typename T> void linear_model<T>::reset_solvers() {
 template <typename T> void linear_model<T>::refresh() {
     reset_data();
     reset_solvers();
-    user_scaling = da_linmod_types::scaling_t::automatic;
 }
 
 // Testing getters
diff --git a/source/core/linear_model/linear_model.hpp b/source/core/linear_model/linear_model.hpp
index af444ea..1ac6d48 100644
--- a/source/core/linear_model/linear_model.hpp
+++ b/source/core/linear_model/linear_model.hpp
@@ -173,6 +173,7 @@ template <typename T> class linear_model : public basic_handle<T> {
 
     /* save state of options that the API can change */
     da_linmod_types::scaling_t user_scaling = da_linmod_types::scaling_t::automatic;
+    linmod_method user_method = linmod_method::undefined;
 
     /* Options stored as member variables (populated by read_options()) */
     bool read_public_options = true;
diff --git a/source/core/utilities/options.hpp b/source/core/utilities/options.hpp
index ec44656..f581375 100644
--- a/source/core/utilities/options.hpp
+++ b/source/core/utilities/options.hpp
@@ -225,6 +225,7 @@ class OptionBase {
         return da_status_success;
     }
     string get_name(void) const { return name; }
+    setby_t get_setby(void) const { return setby; }
     option_t get_option_t(void) const { return otype; }
     string get_errmsg(void) const { return errmsg; }
     template <typename T>
@@ -874,6 +875,13 @@ class OptionRegistry {
         return set(name, static_cast<float>(value), setby);
     }
 
+    // Was the current value of the option stored by a solver? (name is assumed to be tidy)
+    bool is_set_by_solver(const string &name) {
+        auto search = registry.find(name);
+        return search != registry.end() &&
+               search->second->get_setby() == setby_t::solver;
+    }
+
     /* Registry Getter
      * name - option name
      * value - location to store option value
-- 
2.43.0


From b11bc6b0d166a11a0416221523310e52767ed01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:16 +0000
Subject: [PATCH 107/124] fix: the cost reported by the direct solvers was that
 of the transformed responses

---
 source/core/linear_model/linear_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index 0f1aef9..21f983c 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -288,7 +288,7 @@ da_status linear_model<T>::get_result(da_result query, da_int *dim, T *result) {
             const T l2reg = (T(1) - alpha) * lambda / T(2);
             // Call loss_mse
             flag = loss_mse(this->order, nsamples, nfeat, XUSR, ldXUSR, intercept, l1reg,
-                            l2reg, coef.data(), y, &loss, pred.data());
+                            l2reg, coef.data(), yusr, &loss, pred.data());
             if (flag != 0) {
                 return da_status_incorrect_output;
             }
-- 
2.43.0


From dc0f2639481f6d15e7f0aa2845e8c235dd205d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:34 +0000
Subject: [PATCH 108/124] fix: linear models kept the transformed data and the
 solver of an earlier fit when fitted again

---
 source/core/linear_model/linear_model.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index 21f983c..643c61f 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -379,6 +379,9 @@ da_status linear_model<T>::define_features(da_int nfeat, da_int nsamples, const
         return status;
 
     // Assign user's feature pointers
+    // Release what belongs to the previous data
+    reset_data();
+    reset_solvers();
     this->yusr = y;
     this->y = const_cast<T *>(y);
     this->XUSR = X;
@@ -855,6 +858,10 @@ template <typename T> da_status linear_model<T>::fit(da_int usr_ncoefs, const T
     // Reset time for each fit call
     time = 0;
 
+    // Forget the data prepared for an earlier fit and its solver
+    reset_data();
+    reset_solvers();
+
     // Save alpha and lambda before the loop (fit_impl may modify them)
     T alpha_save = this->alpha;
     T lambda_save = this->lambda;
-- 
2.43.0


From d439ab8f39664e4033f7c0f3dd3ed07198e881be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:35 +0000
Subject: [PATCH 109/124] fix: coordinate descent reported an infinite cost
 after stopping for slow progress

---
 source/core/optimization/coord.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/core/optimization/coord.hpp b/source/core/optimization/coord.hpp
index 4a5dbe2..d47d697 100644
--- a/source/core/optimization/coord.hpp
+++ b/source/core/optimization/coord.hpp
@@ -787,6 +787,9 @@ da_status coord(da_options::OptionRegistry &opts, da_int n, std::vector<T> &x,
                                slow_cnt);
                 if (slow_cnt >= slow_cnt_max) {
                     itask = STOP;
+                    // The objective was not requested in this iteration
+                    if (!eval && prnlvl <= 1)
+                        stepfun(n, &x[0], &newxk, k, f, usrdata, action, w.kdiff);
                     status = da_warn(
                         &err,
                         da_status_numerical_difficulties, // LCOV_EXCL_LINE
-- 
2.43.0


From f5309dc4199fb21e1e46cbbd08f587bb4e011059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:59 +0000
Subject: [PATCH 110/124] fix: the optimality measure of coordinate descent was
 wrong for data that is only scaled

---
 source/core/linear_model/linmod_nln_optim.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/core/linear_model/linmod_nln_optim.cpp b/source/core/linear_model/linmod_nln_optim.cpp
index 2423008..8be645d 100644
--- a/source/core/linear_model/linmod_nln_optim.cpp
+++ b/source/core/linear_model/linmod_nln_optim.cpp
@@ -974,9 +974,12 @@ da_int stepchk_linreg_dualgap(da_int nfeat, const T *coef, void *udata, T *gap)
     const da_int nmod = data->intercept ? nfeat - 1 : nfeat;
     const da_int nsamples = data->nsamples;
     const bool positive = data->positive;
-    const T l1{da_fp16::mul_int(data->l1reg, nsamples)}; // N * lambdahat * alpha
+    // With "scale only" the factor 1/N is part of the data (see preprocess_data)
+    const da_int npen =
+        data->scaling == da_linmod_types::scaling_t::scale_only ? 1 : nsamples;
+    const T l1{da_fp16::mul_int(data->l1reg, npen)}; // N * lambdahat * alpha
     // Note that data->l2reg = lambdahat (1-alpha) / 2;
-    const T half_l2{da_fp16::mul_int(data->l2reg, nsamples)};
+    const T half_l2{da_fp16::mul_int(data->l2reg, npen)};
     const T l2{T(2) * half_l2};
 
     // data->work := std::vector<T> XtA(coef, coef + nmod);
-- 
2.43.0


From 796d22359e7ce1efee1d55a29aaaa8bc9cc76a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:25 +0000
Subject: [PATCH 111/124] fix: the rank decision of the SVD solver compared
 with an overwritten singular value

---
 source/core/linear_model/linear_model.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index 643c61f..2a4ca62 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -1646,10 +1646,12 @@ template <typename T> da_status linear_model<T>::fit_linreg_svd() {
         for (da_int i = 0; i < svd->min_order; i++)
             svd->S[i] /= svd->S[i] * svd->S[i] + this->lambda;
     } else {
+        // The loop overwrites S, so the largest singular value is taken beforehand
+        const T threshold =
+            1e2 * std::numeric_limits<T>::epsilon() * std::max(svd->S[0], (T)1);
         for (da_int i = 0; i < svd->min_order; i++) {
             // Small singular value causes large reciprocal
-            if (svd->S[i] >
-                1e2 * std::numeric_limits<T>::epsilon() * std::max(svd->S[0], (T)1)) {
+            if (svd->S[i] > threshold) {
                 svd->S[i] = 1 / svd->S[i];
             } else {
                 svd->S[i] = 0;
-- 
2.43.0


From 2942c1e45c7269c694b0afa6d627b655fcf6dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:33 +0000
Subject: [PATCH 112/124] fix: coordinate descent stopped at once when its
 first sweep set all coefficients to zero

---
 source/core/optimization/coord.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/core/optimization/coord.hpp b/source/core/optimization/coord.hpp
index d47d697..a238754 100644
--- a/source/core/optimization/coord.hpp
+++ b/source/core/optimization/coord.hpp
@@ -1009,8 +1009,9 @@ da_status coord_rcomm(const da_int n, std::vector<T> &x, constraints::bound_cons
                 tol = da_std::max(tol, w.tol);
 
             // Check for convergence or search-space exhaustion
-            if (w.inormbeta == T(0) || inorm <= tol || k == kold) {
-                // ||beta||_inf small or skipped all coodinates (all are very small)
+            // (an iterate that has just moved to zero took a large step: not converged)
+            if (inorm <= tol || k == kold) {
+                // step small or skipped all coodinates (all are very small)
                 // check for optimality condition
                 itask = OPTIMCHK;
                 if (!w.check_skip_ledger()) {
-- 
2.43.0


From 35bff47f943902a3d1aa55b155c031aa1b6700f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:45 +0000
Subject: [PATCH 113/124] fix: multiclass logistic prediction overflowed, or
 chose class 0 when all scores are negative

---
 source/core/linear_model/linear_model.cpp | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index 2a4ca62..01786fb 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -679,8 +679,9 @@ da_status linear_model<T>::evaluate_model(da_int nfeat, da_int nsamples, const T
             for (da_int i = 0; i < nsamples; i++)
                 scores[i] > 0 ? predictions[i] = 1 : predictions[i] = 0;
         } else if (logistic_constraint_model == logistic_constraint::rsc) {
+            // The reference class has a score of zero
             da_std::fill(log_proba.begin() + nsamples * (nclass - 1), log_proba.end(),
-                         T(1));
+                         T(0));
             for (da_int k = 0; k < nclass - 1; k++) {
                 // < -- -this is a GEMM operation
                 da_blas::cblas_gemv(storage, CblasNoTrans, nsamples, nfeat, alpha, Xeval,
@@ -690,20 +691,11 @@ da_status linear_model<T>::evaluate_model(da_int nfeat, da_int nsamples, const T
                     for (da_int i = 0; i < nsamples; i++)
                         log_proba[k * nsamples + i] += coef[(k + 1) * nmod - 1];
                 }
-                for (da_int i = 0; i < nsamples; i++)
-                    log_proba[k * nsamples + i] = exp(log_proba[k * nsamples + i]);
             }
+            // The largest score has the largest probability (the exponentials may overflow)
             for (da_int i = 0; i < nsamples; i++) {
-                aux = 0;
-                for (da_int k = 0; k < nclass; k++) {
-                    aux += log_proba[k * nsamples + i];
-                }
-                for (da_int k = 0; k < nclass; k++)
-                    log_proba[k * nsamples + i] /= aux;
-            }
-            for (da_int i = 0; i < nsamples; i++) {
-                aux = 0.0;
-                for (da_int k = 0; k < nclass; k++) {
+                aux = log_proba[i];
+                for (da_int k = 1; k < nclass; k++) {
                     if (log_proba[k * nsamples + i] > aux) {
                         aux = log_proba[k * nsamples + i];
                         predictions[i] = (T)k;
@@ -736,8 +728,8 @@ da_status linear_model<T>::evaluate_model(da_int nfeat, da_int nsamples, const T
                                 1.0, scores.data(), nsamples);
             // Iterate over predictions to pick argmax between each class
             for (da_int i = 0; i < nsamples; i++) {
-                aux = 0.0;
-                for (da_int k = 0; k < nclass; k++) {
+                aux = scores[i];
+                for (da_int k = 1; k < nclass; k++) {
                     if (scores[k * nsamples + i] > aux) {
                         aux = scores[k * nsamples + i];
                         predictions[i] = (T)k;
-- 
2.43.0


From 7617bdbf29aa0437f84371c9009b4f5be42022e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:09 +0000
Subject: [PATCH 114/124] fix: a loaded linear model took the solver's choice
 of method and scaling for the user's when trained again

---
 source/core/linear_model/linear_model.cpp | 33 +++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/source/core/linear_model/linear_model.cpp b/source/core/linear_model/linear_model.cpp
index 01786fb..45f6beb 100644
--- a/source/core/linear_model/linear_model.cpp
+++ b/source/core/linear_model/linear_model.cpp
@@ -81,6 +81,9 @@ linear_model<T>::linear_model(da_errors::da_error_t &err) : basic_handle<T>(err)
     // Any error is stored err->status[.] and this NEEDS to be checked
     // by the caller.
     register_linmod_options<T>(this->opts, *this->err);
+    // Saved models hold the user's choice of method and scaling since this version
+    this->set_serialization_version(
+        da_model_persistence::model_persistence_min_version + 1);
 }
 
 // Bypass constructor: sets member variables directly, skipping option reads in fit()
@@ -2476,6 +2479,10 @@ template <typename T> da_status linear_model<T>::serialize(serialization_buffer
     io_dispatch(this->dual_coef);
     io_dispatch(this->alpha);
     io_dispatch(this->lambda);
+    io_dispatch(this->user_method);
+    da_int scaling_id = static_cast<da_int>(this->user_scaling);
+    io_dispatch(scaling_id);
+    this->user_scaling = static_cast<da_linmod_types::scaling_t>(scaling_id);
 
     return status;
 }
@@ -2626,6 +2633,18 @@ da_status linear_model<T>::save_model(serialization_buffer &buffer) {
                         "the data associated with it is out of date.");
     }
 
+    // Options changed since the fit are the user's
+    std::string value;
+    da_int id;
+    if (!this->opts.is_set_by_solver("optim method")) {
+        this->opts.get("optim method", value, id);
+        this->user_method = static_cast<linmod_method>(id);
+    }
+    if (!this->opts.is_set_by_solver("scaling")) {
+        this->opts.get("scaling", value, id);
+        this->user_scaling = static_cast<scaling_t>(id);
+    }
+
     da_status status = basic_handle<T>::save_model(buffer);
     if (status != da_status_success)
         return da_error_trace(this->err, status, "Failure serializing model.");
@@ -2639,6 +2658,20 @@ da_status linear_model<T>::load_model(serialization_buffer &buffer) {
     if (status != da_status_success)
         return da_error_trace(this->err, status, "Failure deserializing model.");
 
+    // The options hold what the solver chose during the fit: a loaded model that is trained
+    // again goes by what the user asked for
+    std::string value;
+    da_int method = static_cast<da_int>(this->user_method);
+    da_int scaling = static_cast<da_int>(this->user_scaling);
+    if (this->opts.query_map("optim method", value, method) != da_status_success ||
+        this->opts.query_map("scaling", value, scaling) != da_status_success)
+        return da_error(this->err, da_status_invalid_file_data,
+                        "The saved model holds an unknown option value.");
+    this->opts.get("optim method", value, method);
+    this->opts.set("optim method", value, da_options::solver);
+    this->opts.get("scaling", value, scaling);
+    this->opts.set("scaling", value, da_options::solver);
+
     return status;
 }
 
-- 
2.43.0


From 6cef90510d6612afef2b9866b0c2c772e8fc9743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:05 +0000
Subject: [PATCH 115/124] fix: a repeated SVM computation added its support
 vectors to those of the previous one

---
 source/core/svm/base_svm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/svm/base_svm.cpp b/source/core/svm/base_svm.cpp
index 8e37477..06b379e 100644
--- a/source/core/svm/base_svm.cpp
+++ b/source/core/svm/base_svm.cpp
@@ -285,7 +285,7 @@ da_status base_svm<T>::compute_impl(const std::vector<T> *initial_alpha) {
         // Update gradient
         alpha_diff.resize(ws_size);
         // Result handling
-        n_support_per_class.resize(2, 0);
+        n_support_per_class.assign(2, 0);
     } catch (std::bad_alloc &) {                     // LCOV_EXCL_LINE
         return da_error(err, da_status_memory_error, // LCOV_EXCL_LINE
                         "Memory allocation error");
-- 
2.43.0


From 2af811606b151a923bd1a25465392de79f290fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:16 +0000
Subject: [PATCH 116/124] fix: a repeated SVM computation with the rbf kernel
 accumulated the norms of the samples

---
 source/core/svm/base_svm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/svm/base_svm.cpp b/source/core/svm/base_svm.cpp
index 06b379e..adbe955 100644
--- a/source/core/svm/base_svm.cpp
+++ b/source/core/svm/base_svm.cpp
@@ -225,7 +225,7 @@ da_status base_svm<T>::compute_impl(const std::vector<T> *initial_alpha) {
     case svm_kernel::rbf:
         kernel_f = &rbf_wrapper<T>;
         try {
-            x_norm_aux.resize(n + padding);
+            x_norm_aux.assign(n + padding, T(0));
             y_norm_aux.resize(ws_size + padding);
         } catch (std::bad_alloc &) {
             return da_error(err, da_status_memory_error, "Memory allocation error");
-- 
2.43.0


From 77e468a7db6c9bf76d30256007f124916df63393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:29 +0000
Subject: [PATCH 117/124] fix: support vectors with small coefficients were
 dropped, though large values of the kernel make them matter

---
 source/core/svm/base_svm.cpp | 9 +++++++++
 source/core/svm/c_svm.cpp    | 4 ++--
 source/core/svm/nu_svm.cpp   | 4 ++--
 source/core/svm/svm.hpp      | 1 +
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/source/core/svm/base_svm.cpp b/source/core/svm/base_svm.cpp
index adbe955..3a398e0 100644
--- a/source/core/svm/base_svm.cpp
+++ b/source/core/svm/base_svm.cpp
@@ -833,6 +833,15 @@ template <typename T> da_int base_svm<T>::maxpowtwo(da_int &n) {
     return power;
 };
 
+// Coefficients up to this size are taken as zero: it must not be larger than rounding relative to
+// the other coefficients, which are small when the values of the kernel are large
+template <typename T> T base_svm<T>::sv_threshold(const std::vector<T> &alpha) const {
+    T largest = 0;
+    for (const T &a : alpha)
+        largest = std::max(largest, da_std::abs(a));
+    return std::numeric_limits<T>::epsilon() * std::min(largest, T(1));
+}
+
 // Select i-th index for the local smo working set selection
 // We pick argmin of gradient such that it is in I_up set
 template <typename T>
diff --git a/source/core/svm/c_svm.cpp b/source/core/svm/c_svm.cpp
index 1a890c5..1a3f130 100644
--- a/source/core/svm/c_svm.cpp
+++ b/source/core/svm/c_svm.cpp
@@ -309,7 +309,7 @@ da_status svr<T>::initialisation(da_int &size, std::vector<T> &gradient,
 // Find support vectors and their indexes
 template <typename T> da_status svc<T>::set_sv(std::vector<T> &alpha, da_int &n_support) {
     n_support = 0;
-    T epsilon = std::numeric_limits<T>::epsilon();
+    T epsilon = this->sv_threshold(alpha);
     for (da_int i = 0; i < this->n; i++) {
         // There could be a better way to find if alpha is different than 0
         // Possibly one that would look if it is within the tolerance around 0.
@@ -360,7 +360,7 @@ template <typename T> da_status svc<T>::set_sv(std::vector<T> &alpha, da_int &n_
 // Find support vectors and their indexes
 template <typename T> da_status svr<T>::set_sv(std::vector<T> &alpha, da_int &n_support) {
     n_support = 0;
-    T epsilon = std::numeric_limits<T>::epsilon();
+    T epsilon = this->sv_threshold(alpha);
     for (da_int i = 0; i < this->n; i++) {
         alpha[i] = alpha[i] - alpha[i + this->n];
         // There could be a better way to find if alpha is different than 0
diff --git a/source/core/svm/nu_svm.cpp b/source/core/svm/nu_svm.cpp
index de44e19..8da262a 100644
--- a/source/core/svm/nu_svm.cpp
+++ b/source/core/svm/nu_svm.cpp
@@ -601,7 +601,7 @@ da_status nusvr<T>::initialisation(da_int &size, std::vector<T> &gradient,
 template <typename T>
 da_status nusvc<T>::set_sv(std::vector<T> &alpha, da_int &n_support) {
     n_support = 0;
-    T epsilon = std::numeric_limits<T>::epsilon();
+    T epsilon = this->sv_threshold(alpha);
     for (da_int i = 0; i < this->n; i++) {
         // There could be a better way to find if alpha is different than 0
         // Possibly one that would look if it is within the tolerance around 0.
@@ -653,7 +653,7 @@ da_status nusvc<T>::set_sv(std::vector<T> &alpha, da_int &n_support) {
 template <typename T>
 da_status nusvr<T>::set_sv(std::vector<T> &alpha, da_int &n_support) {
     n_support = 0;
-    T epsilon = std::numeric_limits<T>::epsilon();
+    T epsilon = this->sv_threshold(alpha);
     for (da_int i = 0; i < this->n; i++) {
         alpha[i] = alpha[i] - alpha[i + this->n];
         // There could be a better way to find if alpha is different than 0
diff --git a/source/core/svm/svm.hpp b/source/core/svm/svm.hpp
index 1514af9..038e9d8 100644
--- a/source/core/svm/svm.hpp
+++ b/source/core/svm/svm.hpp
@@ -247,6 +247,7 @@ template <typename T> class base_svm {
                         std::vector<T *> &ptr_kernel_col, da_cache::LRUCache<T> &cache);
     void compute_ws_size(da_int &ws_size, da_int max_ws_size);
     da_int maxpowtwo(da_int &n);
+    T sv_threshold(const std::vector<T> &alpha) const;
     void wssi(std::vector<da_int> &I_up, std::vector<T> &gradient, da_int &i,
               T &min_grad);
     void wssj(std::vector<da_int> &I_low, std::vector<T> &gradient, da_int &i,
-- 
2.43.0


From abaf4e4df29196252a24d1ebfad2c6345f876860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:38 +0000
Subject: [PATCH 118/124] fix: SVM training with a tiny working set stopped
 before the solution

---
 source/core/svm/base_svm.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/core/svm/base_svm.cpp b/source/core/svm/base_svm.cpp
index 3a398e0..35b7689 100644
--- a/source/core/svm/base_svm.cpp
+++ b/source/core/svm/base_svm.cpp
@@ -308,6 +308,8 @@ da_status base_svm<T>::compute_impl(const std::vector<T> *initial_alpha) {
             return status;
     }
 
+    const da_int min_carry =
+        (mod == da_svm_model::nusvc || mod == da_svm_model::nusvr) ? 8 : 4;
     for (; iter < max_iter; iter++) {
         ////////// Outer WSS
         da_std::fill(ws_indicator.begin(), ws_indicator.end(), false);
@@ -317,7 +319,8 @@ da_status base_svm<T>::compute_impl(const std::vector<T> *initial_alpha) {
         }
         // Before next iteration, copy last half of indexes into the first half (heuristic barely mentioned in the paper, but used in implementation)
         else {
-            n_selected = ws_size / 2;
+            // (unless the other half is too small to take a violating pair)
+            n_selected = ws_size < min_carry ? 0 : ws_size / 2;
             for (da_int i = 0; i < n_selected; i++) {
                 ws_indexes[i] = ws_indexes[i + n_selected];
                 ws_indicator[ws_indexes[i]] = true;
@@ -548,8 +551,9 @@ da_status base_svm<T>::decision_function(da_int nsamples, da_int nfeat, const T
 template <typename T>
 void base_svm<T>::compute_ws_size(da_int &ws_size, da_int max_ws_size) {
     // Pick minimum between maximum power of two such that it is less than n, or some constant in this case 1024
-    da_int pow_two = maxpowtwo(actual_size);
-    ws_size = std::min(pow_two, max_ws_size);
+    // It must have room for a violating pair (of each class in nu problems)
+    da_int pow_two = actual_size < 4 ? actual_size : maxpowtwo(actual_size);
+    ws_size = std::min(pow_two, std::max(max_ws_size, (da_int)4));
 }
 
 /* Given a set of indices 'idx', compute the kernel matrix between X and X_temp,
-- 
2.43.0


From a5dcac5406bbdb2a5ce8b0f9f018ca577cc3d15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:12 +0000
Subject: [PATCH 119/124] fix: SVM training stopped while samples were still
 being visited for the first time

---
 source/core/svm/base_svm.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/core/svm/base_svm.cpp b/source/core/svm/base_svm.cpp
index 35b7689..b6c8163 100644
--- a/source/core/svm/base_svm.cpp
+++ b/source/core/svm/base_svm.cpp
@@ -157,7 +157,7 @@ da_status base_svm<T>::compute_impl(const std::vector<T> *initial_alpha) {
     // Variable to keep track of number of selected indexes in working set. At iter==0 equals 0, later ws_size/2 because we copy last half to the first half.
     da_int n_selected;
     // Global convergence variables, if first diff of local SMO does not change for some number of iterations, then stop
-    T first_diff = T(0), previous_first_diff = T(0);
+    T first_diff = T(0), previous_first_diff = T(0), initial_first_diff = T(0);
     da_int no_diff_counter = 0;
     // For multiclass we take slices of user's data on indexes where class is i or j (those indexes are stored in idx_class and obtained in set_data())
     if (ismulticlass) {
@@ -341,9 +341,18 @@ da_status base_svm<T>::compute_impl(const std::vector<T> *initial_alpha) {
         // Check global convergence
         // Stop when first_diff does not change for 5 iteration OR first_diff is less than tolerance
         // Additionally make sure that we perform at least 5 iterations
-        no_diff_counter = da_std::abs(first_diff - previous_first_diff) < tol * 1e-3
-                              ? no_diff_counter + 1
-                              : 0;
+        // While first_diff has its initial value and alpha still changes, the iterations work
+        // through samples that were not visited yet: this is progress
+        if (iter == 0)
+            initial_first_diff = first_diff;
+        bool first_visits =
+            da_std::abs(first_diff - initial_first_diff) < tol * 1e-3 &&
+            std::any_of(alpha_diff.begin(), alpha_diff.end(),
+                        [](const T &a) { return a != T(0); });
+        no_diff_counter =
+            da_std::abs(first_diff - previous_first_diff) < tol * 1e-3 && !first_visits
+                ? no_diff_counter + 1
+                : 0;
         previous_first_diff = first_diff;
         if ((no_diff_counter > 4 || first_diff < tol) && iter > 4)
             break;
-- 
2.43.0


From a06d95988408899f34d7f2d99baf2cb1fa1fb044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:32 +0000
Subject: [PATCH 120/124] fix: NLLS Hessian-vector callbacks crashed, and the
 cubic regularization was treated as quadratic

---
 external/RALFit/libRALFit/src/ral_nlls_ciface.F90  | 11 ++++++++---
 .../RALFit/libRALFit/src/ral_nlls_internal.F90     | 14 +++++++++-----
 source/core/drivers/ralfit_driver.hpp              |  3 ++-
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_ciface.F90 b/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
index 04f8801..a4410cf 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_ciface.F90
@@ -175,7 +175,7 @@ module MODULE_PREC(ral_nlls_ciface)
        use, intrinsic :: iso_c_binding
        use :: MODULE_PREC(ral_nlls_types)
        implicit none
-       integer(ral_c_int) :: n,m
+       integer(ral_c_int), value :: n,m
        real(ral_c_real), dimension(*), intent(in)  :: x
        real(ral_c_real), dimension(*), intent(in)  :: y
        real(ral_c_real), dimension(*), intent(out) :: hp
@@ -535,7 +535,7 @@ subroutine IFACE_PREC(nlls_solve)(n, m, cx, r, j, hf,  params, coptions, cinform
 
   logical :: f_arrays
   logical :: lb_sent_in, ub_sent_in, w_sent_in
-  logical :: hp_sent_in = .false.
+  logical :: hp_sent_in
 
   ! copy data in and associate pointers correctly
   call copy_options_in(coptions, foptions, f_arrays)
@@ -555,7 +555,12 @@ subroutine IFACE_PREC(nlls_solve)(n, m, cx, r, j, hf,  params, coptions, cinform
   endif
 
   fparams%params = params
-  if (C_ASSOCIATED(hp)) hp_sent_in = .true.
+  hp_sent_in = .false.
+  nullify(fparams%hp)
+  if (C_ASSOCIATED(hp)) then
+    hp_sent_in = .true.
+    call c_f_procpointer(hp, fparams%hp)
+  end if
 
   ! the following steps for passing optional arguments
   ! requires a compiler compatible with Fortran 2008+TS29113
diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index 5d0e98c..491e267 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -3074,11 +3074,13 @@ lp:  do i = 1, options%more_sorensen_maxits
           md_gn = md_gn + 0.5_wp * sigma * norm2(Xnew(1:n))**2
        case (2)
           normx = norm2(X(1:n))
-          xtd = dot_product(X(1:n),d(1:n))
-          md_gn = md_gn + &
-               sigma * ( 1.0_wp/p * (normx**p) + &
-               (normx**(p-2.0_wp)) * xtd + &
-               (p/4.0_wp) * (normx**(p-4.0_wp)) * (xtd**2) )
+          if (normx > epsmch) then
+             xtd = dot_product(X(1:n),d(1:n))
+             md_gn = md_gn + &
+                  sigma * ( 1.0_wp/p * (normx**p) + &
+                  (normx**(p-2.0_wp)) * xtd + &
+                  (p/4.0_wp) * (normx**(p-4.0_wp)) * (xtd**2) )
+          end if
        end select
 
        select case (options%model)
@@ -3239,6 +3241,7 @@ lp:  do i = 1, options%more_sorensen_maxits
           p = options%regularization_power
           sigma = options%regularization_term
           normx = norm2(X(1:n))
+          if (normx <= epsmch) return ! powers above two have no curvature at zero
           do ii = 1,n
              do jj = 1,n
                 hf_local = x(ii)*x(jj)
@@ -4747,6 +4750,7 @@ lp:    do i = 1, w%tensor_options%maxit
         call mult_Jt(w%J,n,m,w%fnew,w%g,options%Fortran_Jacobian)
         w%g(:) = -w%g(:)
         if ( options%regularization > 0 ) Then
+          normX = norm2(w%Xnew)
           call update_regularized_gradient(w%g,w%Xnew,normX,options)
         End If
 
diff --git a/source/core/drivers/ralfit_driver.hpp b/source/core/drivers/ralfit_driver.hpp
index c770deb..34f2f2c 100644
--- a/source/core/drivers/ralfit_driver.hpp
+++ b/source/core/drivers/ralfit_driver.hpp
@@ -422,7 +422,8 @@ da_status copy_options_to_ralfit(da_options::OptionRegistry &opts,
 
     // Set up automatic options
     if (reg_term > 0)
-        options.regularization = 1; // type 1 but can also be of type 2
+        // type 1 is the quadratic term only, type 2 takes the power into account
+        options.regularization = ireg_power == da_optim_types::regularization::cubic ? 2 : 1;
     // Exact second derivative -> user provided HF?
     options.exact_second_derivatives = ok_eval_HF;
 
-- 
2.43.0


From 1d2c9afdadb2c405f7f815786c1796a17502540a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 05:51:43 +0000
Subject: [PATCH 121/124] fix: NLLS accepted steps that increase the objective
 when the model predicts no decrease

---
 external/RALFit/libRALFit/src/ral_nlls_internal.F90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index 491e267..d0d3ed7 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -3132,6 +3132,10 @@ lp:  do i = 1, options%more_sorensen_maxits
 
        if ( abs(actual_reduction) < tol ) then
           rho = 1.0_wp
+       else if ( actual_reduction < 0.0_wp .and. predicted_reduction < tol ) then
+          ! the step increases the objective and does not decrease the model: their
+          ! quotient is not a measure of agreement and the step has to be rejected
+          rho = -1.0_wp
        else if (abs( predicted_reduction ) < tol ) then
           rho = 1.0_wp
        else
-- 
2.43.0


From 663bdee9cc0f2fd9ca32c2b83bbf448080c71d10 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 05:53:32 +0000
Subject: [PATCH 122/124] fix: mixed precision SVR ignored epsilon when the low
 precision phase found no support vectors

---
 source/core/svm/base_svm.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/core/svm/base_svm.cpp b/source/core/svm/base_svm.cpp
index b6c8163..f8434ab 100644
--- a/source/core/svm/base_svm.cpp
+++ b/source/core/svm/base_svm.cpp
@@ -755,11 +755,12 @@ da_status base_svm<T>::recompute_gradient(std::vector<T> &alpha, std::vector<T>
     if (idx_all.empty()) {
         da_std::fill(gradient.begin(), gradient.end(), T(0));
         if (is_regression) {
+            T tube = mod == da_svm_model::svr ? eps : T(0);
             for (da_int i = 0; i < n; i++) {
-                gradient[i] = -y[i];
-                gradient[i + n] = -y[i];
+                gradient[i] = tube - y[i];
+                gradient[i + n] = -tube - y[i];
             }
-        } else {
+        } else if (mod == da_svm_model::svc) {
             for (da_int i = 0; i < gradient_size; i++) {
                 gradient[i] = -response[i];
             }
-- 
2.43.0


From dbc82d5170d82cdba6db2b1d9ef83bb5bf6e0b5b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 06:01:01 +0000
Subject: [PATCH 123/124] fix: NLLS looped forever when the dogleg method and
 all of its fallbacks fail

---
 external/RALFit/libRALFit/src/ral_nlls_internal.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/external/RALFit/libRALFit/src/ral_nlls_internal.F90 b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
index d0d3ed7..7b72fab 100644
--- a/external/RALFit/libRALFit/src/ral_nlls_internal.F90
+++ b/external/RALFit/libRALFit/src/ral_nlls_internal.F90
@@ -1443,7 +1443,9 @@ lp: do while (.not. success)
              ! If we're using a method for the second time, or
              ! we're not allowing a fallback, then bail with an
              ! appropiate exit code
+             ! (the fallbacks of the dogleg method do not lead back to it)
              if ( (subproblem_method == options%nlls_method) .or. &
+                  (num_methods_tried >= 4) .or. &
                   (.not. options%allow_fallback_method)) Then
                   ! Force no progress error if fall-back was tried otherwise
                   ! keep existing error status
-- 
2.43.0


From 79287b7be0f7eb1e7e96d44e5b0b921862ee564d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 06:44:29 +0000
Subject: [PATCH 124/124] fix: training an approximate neighbour index again
 starts from an empty index

---
 source/core/approximate_neighbors/approximate_neighbors.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/core/approximate_neighbors/approximate_neighbors.cpp b/source/core/approximate_neighbors/approximate_neighbors.cpp
index 07ae95e..a126964 100644
--- a/source/core/approximate_neighbors/approximate_neighbors.cpp
+++ b/source/core/approximate_neighbors/approximate_neighbors.cpp
@@ -340,6 +340,12 @@ template <typename T> da_status approximate_neighbors<T>::train_ivfflat() {
     */
     da_status status = da_status_success;
 
+    // Training (again) discards anything that was in the index
+    this->model_trained = false;
+    this->data_is_added = false;
+    this->n_index = 0;
+    this->n_samples_train = this->n_samples;
+
     this->ld_centroids = (this->order == column_major) ? this->n_list : n_features;
     // We can now allocate memory for centroids, list_sizes and global_indices
     // as we have read n_list in read_training_options
-- 
2.43.0

