From 85e5c0f8479f468de77df67e74c5051c7643e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 01/25] fix: low-rank products apply beta when a low-rank
 operand has rank 0

---
 include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp | 7 +++++++
 include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp | 7 +++++++
 .../htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp | 7 +++++++
 .../hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp      | 7 +++++++
 .../lrmat/linalg/add_lrmat_matrix_product_row_major.hpp    | 4 ++++
 .../hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp      | 4 ++++
 .../hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp      | 7 +++++++
 7 files changed, 43 insertions(+)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
index 9f64341..2de83d3 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_lrmat_product.hpp
@@ -34,6 +34,8 @@ void internal_add_hmatrix_lrmat_product(char transa, char transb, CoefficientPre
             internal_add_hmatrix_matrix_product<CoefficientPrecision>(transa, transb, 1, A, V, 0, AU);
             add_matrix_matrix_product<CoefficientPrecision>('N', transb, alpha, AU, U, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -110,6 +112,11 @@ void internal_add_hmatrix_lrmat_product(char transa, char transb, CoefficientPre
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta == CoefficientPrecision(0) || C.rank_of() == 0) {
+        C.get_U().resize((transa == 'N') ? A.nb_rows() : A.nb_cols(), 0);
+        C.get_V().resize(0, (transb == 'N') ? B.nb_cols() : B.nb_rows());
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C.get_V());
     }
 }
 
diff --git a/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
index eaccdf2..303b64a 100644
--- a/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_lrmat_hmatrix_product.hpp
@@ -29,6 +29,8 @@ void internal_add_lrmat_hmatrix_product(char transa, char transb, CoefficientPre
             internal_add_matrix_hmatrix_product<CoefficientPrecision>(transa, transb, CoefficientPrecision(1), U, B, CoefficientPrecision(0), UtB);
             add_matrix_matrix_product<CoefficientPrecision>(transa, 'N', alpha, V, UtB, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -100,6 +102,11 @@ void internal_add_lrmat_hmatrix_product(char transa, char transb, CoefficientPre
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta == CoefficientPrecision(0) || C.rank_of() == 0) {
+        C.get_U().resize((transa == 'N') ? A.nb_rows() : A.nb_cols(), 0);
+        C.get_V().resize(0, (transb == 'N') ? B.nb_cols() : B.nb_rows());
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C.get_V());
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
index a9a026d..f473450 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_lrmat_product.hpp
@@ -28,6 +28,8 @@ void add_lrmat_lrmat_product(char transa, char transb, CoefficientPrecision alph
             add_lrmat_matrix_product(transa, transb, CoefficientPrecision(1), A, V_B, CoefficientPrecision(0), AVBt);
             add_matrix_matrix_product('N', transb, alpha, AVBt, U_B, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -95,6 +97,11 @@ void add_lrmat_lrmat_product(char transa, char transb, CoefficientPrecision alph
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta == CoefficientPrecision(0) || C.rank_of() == 0) {
+        C.get_U().resize((transa == 'N') ? A.nb_rows() : A.nb_cols(), 0);
+        C.get_V().resize(0, (transb == 'N') ? B.nb_cols() : B.nb_rows());
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C.get_V());
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
index d921453..2977492 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product.hpp
@@ -29,6 +29,8 @@ void add_lrmat_matrix_product(char transa, char transb, CoefficientPrecision alp
             add_matrix_matrix_product<CoefficientPrecision>(transa, transb, 1, U, B, 0, UtB);
             add_matrix_matrix_product<CoefficientPrecision>(transa, 'N', alpha, V, UtB, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -103,6 +105,11 @@ void add_lrmat_matrix_product(char transa, char transb, CoefficientPrecision alp
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta == CoefficientPrecision(0) || C.rank_of() == 0) {
+        C.get_U().resize((transa == 'N') ? A.nb_rows() : A.nb_cols(), 0);
+        C.get_V().resize(0, (transb == 'N') ? B.nb_cols() : B.nb_rows());
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C.get_V());
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
index 434b68e..7a3912e 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_matrix_product_row_major.hpp
@@ -3,6 +3,7 @@
 
 #include "../../../matrix/linalg/add_matrix_matrix_product_row_major.hpp"
 #include "../lrmat.hpp"
+#include <algorithm>
 #include <vector>
 
 namespace htool {
@@ -23,6 +24,9 @@ void add_lrmat_matrix_product_row_major(char transa, char transb, CoefficientPre
             add_matrix_matrix_product_row_major(transa, transb, CoefficientPrecision(1), U, in, CoefficientPrecision(0), a.data(), mu);
             add_matrix_matrix_product_row_major(transa, 'N', alpha, V, a.data(), beta, out, mu);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        int out_size = ((transa == 'N') ? A.nb_rows() : A.nb_cols()) * mu;
+        std::transform(out, out + out_size, out, [&beta](CoefficientPrecision &c) { return c * beta; });
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
index bc34cd7..58863b7 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_lrmat_vector_product.hpp
@@ -2,6 +2,7 @@
 #define HTOOL_LRMAT_LINALG_ADD_LRMAT_VECTOR_PRODUCT_HPP
 #include "../../../matrix/linalg/add_matrix_vector_product.hpp" // for add_...
 #include "../lrmat.hpp"                                         // for LowR...
+#include <algorithm>
 #include <vector>                                               // for vector
 namespace htool {
 
@@ -20,6 +21,9 @@ void add_lrmat_vector_product(char trans, CoefficientPrecision alpha, const LowR
             add_matrix_vector_product<CoefficientPrecision>(trans, CoefficientPrecision(1.), U, in, 0, a.data());
             add_matrix_vector_product<CoefficientPrecision>(trans, alpha, V, a.data(), beta, out);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        int out_size = (trans == 'N') ? A.nb_rows() : A.nb_cols();
+        std::transform(out, out + out_size, out, [&beta](CoefficientPrecision &c) { return c * beta; });
     }
 }
 
diff --git a/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp b/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
index b50a74a..a82a359 100644
--- a/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
+++ b/include/htool/hmatrix/lrmat/linalg/add_matrix_lrmat_product.hpp
@@ -32,6 +32,8 @@ void add_matrix_lrmat_product(char transa, char transb, CoefficientPrecision alp
             add_matrix_matrix_product<CoefficientPrecision>(transa, transb, 1, A, V, 0, AU);
             add_matrix_matrix_product<CoefficientPrecision>('N', transb, alpha, AU, U, beta, C);
         }
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C);
     }
 }
 
@@ -107,6 +109,11 @@ void add_matrix_lrmat_product(char transa, char transb, CoefficientPrecision alp
             C.get_V() = new_V;
             recompression(C);
         }
+    } else if (beta == CoefficientPrecision(0) || C.rank_of() == 0) {
+        C.get_U().resize((transa == 'N') ? A.nb_rows() : A.nb_cols(), 0);
+        C.get_V().resize(0, (transb == 'N') ? B.nb_cols() : B.nb_rows());
+    } else if (beta != CoefficientPrecision(1)) {
+        scale(beta, C.get_V());
     }
 }
 
-- 
2.43.0


From aac5d343375aadd0f6e75ccb3efa63f32dc743bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 02/25] fix: expanding or adding a rank-0 low-rank matrix no
 longer calls BLAS with a zero leading dimension

---
 include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp | 3 +++
 include/htool/hmatrix/lrmat/lrmat.hpp              | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp b/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp
index 520d7b3..b387973 100644
--- a/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp
+++ b/include/htool/hmatrix/linalg/add_lrmat_hmatrix.hpp
@@ -13,6 +13,9 @@ namespace htool {
 
 template <typename CoefficientPrecision, typename CoordinatePrecision = CoefficientPrecision>
 void internal_add_lrmat_hmatrix(const LowRankMatrix<CoefficientPrecision, CoordinatePrecision> &lrmat, HMatrix<CoefficientPrecision, CoordinatePrecision> &hmatrix) {
+    if (lrmat.rank_of() == 0) {
+        return;
+    }
     std::vector<HMatrix<CoefficientPrecision, CoordinatePrecision> *> leaves;
     preorder_tree_traversal(hmatrix, [&leaves](HMatrix<CoefficientPrecision, CoordinatePrecision> &current_node) {
         if (!current_node.is_hierarchical()) {
diff --git a/include/htool/hmatrix/lrmat/lrmat.hpp b/include/htool/hmatrix/lrmat/lrmat.hpp
index d4cc908..1eef319 100644
--- a/include/htool/hmatrix/lrmat/lrmat.hpp
+++ b/include/htool/hmatrix/lrmat/lrmat.hpp
@@ -125,6 +125,10 @@ class LowRankMatrix {
         int M                      = m_U.nb_rows();
         int N                      = m_V.nb_cols();
         int K                      = m_U.nb_cols();
+        if (K == 0) {
+            std::fill_n(out, M * N, CoefficientPrecision(0));
+            return;
+        }
         CoefficientPrecision alpha = 1;
         int lda                    = m_U.nb_rows();
         int ldb                    = m_V.nb_rows();
-- 
2.43.0


From 9d03007dd6764abb65907775c6f334183686e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 03/25] fix: hierarchical Cholesky Schur update uses both block
 rows (columns) of the factor

The update of block (i,j) by pivot k is L(i,k) L(j,k)^H; the code used the
same factor block twice, which is only right for i == j, that is with at
most two diagonal blocks at each level.
---
 include/htool/hmatrix/linalg/factorization.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/htool/hmatrix/linalg/factorization.hpp b/include/htool/hmatrix/linalg/factorization.hpp
index 6124716..39fc9ce 100644
--- a/include/htool/hmatrix/linalg/factorization.hpp
+++ b/include/htool/hmatrix/linalg/factorization.hpp
@@ -132,20 +132,22 @@ void cholesky_factorization(char UPLO, HMatrix<CoefficientPrecision, CoordinateP
                 for (auto &input_cluster_child : clusters) {
                     if (UPLO == 'L' && output_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() > cluster_child->get_offset() && output_cluster_child->get_offset() >= input_cluster_child->get_offset()) {
                         HMatrix<CoefficientPrecision, CoordinatePrecision> *A_child = hmatrix.get_sub_hmatrix(*output_cluster_child, *input_cluster_child);
-                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *L = hmatrix.get_sub_hmatrix(*output_cluster_child, *cluster_child);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *L_output = hmatrix.get_sub_hmatrix(*output_cluster_child, *cluster_child);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *L_input  = hmatrix.get_sub_hmatrix(*input_cluster_child, *cluster_child);
 
                         // if (*output_cluster_child == *input_cluster_child) {
                         //     symmetric_rank_k_update(UPLO, 'N', CoefficientPrecision(-1), *L, CoefficientPrecision(1), *A_child);
                         // } else {
-                        internal_add_hmatrix_hmatrix_product('N', is_complex<CoefficientPrecision>() ? 'C' : 'T', CoefficientPrecision(-1), *L, *L, CoefficientPrecision(1), *A_child);
+                        internal_add_hmatrix_hmatrix_product('N', is_complex<CoefficientPrecision>() ? 'C' : 'T', CoefficientPrecision(-1), *L_output, *L_input, CoefficientPrecision(1), *A_child);
                         // }
                     } else if (UPLO == 'U' && output_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() > cluster_child->get_offset() && input_cluster_child->get_offset() >= output_cluster_child->get_offset()) {
                         HMatrix<CoefficientPrecision, CoordinatePrecision> *A_child = hmatrix.get_sub_hmatrix(*output_cluster_child, *input_cluster_child);
-                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *U = hmatrix.get_sub_hmatrix(*cluster_child, *input_cluster_child);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *U_output = hmatrix.get_sub_hmatrix(*cluster_child, *output_cluster_child);
+                        const HMatrix<CoefficientPrecision, CoordinatePrecision> *U_input  = hmatrix.get_sub_hmatrix(*cluster_child, *input_cluster_child);
                         // if (*output_cluster_child == *input_cluster_child) {
                         //     symmetric_rank_k_update(UPLO, 'C', CoefficientPrecision(-1), *U, CoefficientPrecision(1), *A_child);
                         // } else {
-                        internal_add_hmatrix_hmatrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), *U, *U, CoefficientPrecision(1), *A_child);
+                        internal_add_hmatrix_hmatrix_product(is_complex<CoefficientPrecision>() ? 'C' : 'T', 'N', CoefficientPrecision(-1), *U_output, *U_input, CoefficientPrecision(1), *A_child);
                         // }
                     }
                 }
-- 
2.43.0


From cc19b2239e6434838fbe44bdab43d3d8e7b73471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 04/25] fix: do not read through a reference to a popped stack
 element

std::stack::pop may free the block of the underlying deque the reference
points into.
---
 include/htool/hmatrix/hmatrix.hpp                   | 2 +-
 include/htool/hmatrix/tree_builder/tree_builder.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 314600e..2604d5d 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -247,7 +247,7 @@ std::pair<std::vector<const HMatrix<CoefficientPrecision, CoordinatePrecision> *
     hmatrix_stack.push(std::pair<const HMatrix<CoefficientPrecision, CoordinatePrecision> *, bool>(&hmatrix, hmatrix.get_symmetry() != 'N'));
 
     while (!hmatrix_stack.empty()) {
-        auto &current_element = hmatrix_stack.top();
+        auto current_element = hmatrix_stack.top();
         hmatrix_stack.pop();
         const HMatrix<CoefficientPrecision, CoordinatePrecision> *current_hmatrix = current_element.first;
         bool has_symmetric_ancestor                                               = current_element.second;
diff --git a/include/htool/hmatrix/tree_builder/tree_builder.hpp b/include/htool/hmatrix/tree_builder/tree_builder.hpp
index d08a746..766e4d3 100644
--- a/include/htool/hmatrix/tree_builder/tree_builder.hpp
+++ b/include/htool/hmatrix/tree_builder/tree_builder.hpp
@@ -345,7 +345,7 @@ void HMatrixTreeBuilder<CoefficientPrecision, CoordinatePrecision>::reset_root_o
         std::vector<std::unique_ptr<HMatrixType>> new_root_children;
 
         while (!block_stack.empty()) {
-            auto &current_hmatrix = block_stack.top();
+            auto current_hmatrix = block_stack.top();
             block_stack.pop();
 
             for (auto &child : current_hmatrix->get_children_with_ownership()) {
-- 
2.43.0


From 878d5d9740c0f06b300254e64ab9d489c9b75404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 05/25] fix: copies of an HMatrix keep the symmetry of their
 leaves and no stale leaf data

The copy constructor dropped m_symmetry_type_for_leaves and
m_UPLO_for_leaves, so products with a copied symmetric matrix ignored the
mirrored leaves; copy assignment kept the dense or low-rank data of the
overwritten matrix.
---
 include/htool/hmatrix/hmatrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 2604d5d..a1ba340 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -57,7 +57,7 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
     // Child constructor
     HMatrix(const HMatrix &parent, const Cluster<CoordinatePrecision> *target_cluster, const Cluster<CoordinatePrecision> *source_cluster) : TreeNode<HMatrix, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(parent), m_target_cluster(target_cluster), m_source_cluster(source_cluster) {}
 
-    HMatrix(const HMatrix &rhs) : TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecision>, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(rhs), m_target_cluster(rhs.m_target_cluster), m_source_cluster(rhs.m_source_cluster), m_symmetry(rhs.m_symmetry), m_UPLO(rhs.m_UPLO), m_symmetry_type_for_leaves(), m_storage_type(rhs.m_storage_type) {
+    HMatrix(const HMatrix &rhs) : TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecision>, HMatrixTreeData<CoefficientPrecision, CoordinatePrecision>>(rhs), m_target_cluster(rhs.m_target_cluster), m_source_cluster(rhs.m_source_cluster), m_symmetry(rhs.m_symmetry), m_UPLO(rhs.m_UPLO), m_symmetry_type_for_leaves(rhs.m_symmetry_type_for_leaves), m_UPLO_for_leaves(rhs.m_UPLO_for_leaves), m_storage_type(rhs.m_storage_type) {
         if (m_target_cluster->is_root() or is_cluster_on_partition(*m_target_cluster)) {
             Logger::get_instance().log(LogLevel::INFO, "Deep copy of HMatrix");
         }
@@ -95,6 +95,8 @@ class HMatrix : public TreeNode<HMatrix<CoefficientPrecision, CoordinatePrecisio
         m_symmetry_type_for_leaves = rhs.m_symmetry_type_for_leaves;
         m_UPLO_for_leaves          = rhs.m_UPLO_for_leaves;
 
+        m_dense_data.reset();
+        m_low_rank_data.reset();
         if (rhs.m_dense_data) {
             m_dense_data = std::make_unique<Matrix<CoefficientPrecision>>(*rhs.m_dense_data);
         }
-- 
2.43.0


From d64e35a5d91e74e37cedd95ff006d55603dd3e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 06/25] fix: copy_diagonal reads every leaf that meets the
 diagonal

Leaves that meet the diagonal without starting on it were skipped, and a
rectangular low-rank leaf was expanded into a buffer with its two
dimensions swapped.
---
 include/htool/hmatrix/hmatrix.hpp | 32 +++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index a1ba340..4dfcbe0 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -390,15 +390,17 @@ void copy_diagonal(const HMatrix<CoefficientPrecision, CoordinatePrecision> &hma
         int local_nc = leaf->get_source_cluster().get_size();
         int offset_i = leaf->get_target_cluster().get_offset() - target_offset;
         int offset_j = leaf->get_source_cluster().get_offset() - source_offset;
-        if (leaf->is_dense() && offset_i == offset_j) {
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[k + offset_i] = (*leaf->get_dense_data())(k, k);
+        int diag_begin = std::max(offset_i, offset_j);
+        int diag_end   = std::min(offset_i + local_nr, offset_j + local_nc);
+        if (leaf->is_dense()) {
+            for (int k = diag_begin; k < diag_end; k++) {
+                ptr[k] = (*leaf->get_dense_data())(k - offset_i, k - offset_j);
             }
-        } else if (leaf->is_low_rank() && offset_i == offset_j) { // pretty rare...
-            Matrix<CoefficientPrecision> low_rank_to_dense(local_nc, local_nr);
+        } else if (leaf->is_low_rank() && diag_begin < diag_end) { // pretty rare...
+            Matrix<CoefficientPrecision> low_rank_to_dense(local_nr, local_nc);
             leaf->get_low_rank_data()->copy_to_dense(low_rank_to_dense.data());
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[k + offset_i] = (low_rank_to_dense)(k, k);
+            for (int k = diag_begin; k < diag_end; k++) {
+                ptr[k] = low_rank_to_dense(k - offset_i, k - offset_j);
             }
         }
     }
@@ -430,15 +432,17 @@ void copy_diagonal_in_user_numbering(const HMatrix<CoefficientPrecision, Coordin
         int local_nc = leaf->get_source_cluster().get_size();
         int offset_i = leaf->get_target_cluster().get_offset();
         int offset_j = leaf->get_source_cluster().get_offset();
-        if (leaf->is_dense() && offset_i == offset_j) {
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[permutation[k + offset_i] - target_offset] = (*leaf->get_dense_data())(k, k);
+        int diag_begin = std::max(offset_i, offset_j);
+        int diag_end   = std::min(offset_i + local_nr, offset_j + local_nc);
+        if (leaf->is_dense()) {
+            for (int k = diag_begin; k < diag_end; k++) {
+                ptr[permutation[k] - target_offset] = (*leaf->get_dense_data())(k - offset_i, k - offset_j);
             }
-        } else if (leaf->is_low_rank() && offset_i == offset_j) { // pretty rare...
-            Matrix<CoefficientPrecision> low_rank_to_dense(local_nc, local_nr);
+        } else if (leaf->is_low_rank() && diag_begin < diag_end) { // pretty rare...
+            Matrix<CoefficientPrecision> low_rank_to_dense(local_nr, local_nc);
             leaf->get_low_rank_data()->copy_to_dense(low_rank_to_dense.data());
-            for (int k = 0; k < std::min(local_nr, local_nc); k++) {
-                ptr[permutation[k + offset_i] - target_offset] = (low_rank_to_dense)(k, k);
+            for (int k = diag_begin; k < diag_end; k++) {
+                ptr[permutation[k] - target_offset] = low_rank_to_dense(k - offset_i, k - offset_j);
             }
         }
     }
-- 
2.43.0


From 48512c59e74010b810a716b9e816010e59661137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 07/25] fix: copy_to_dense writes the mirrored blocks of a
 symmetric HMatrix

copy_to_dense_in_user_numbering already did; without it the product of a
hierarchical matrix with a symmetric one used the stored half only.
---
 include/htool/hmatrix/hmatrix.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 4dfcbe0..458502d 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -302,6 +302,21 @@ void copy_to_dense(const HMatrix<CoefficientPrecision, CoordinatePrecision> &hma
             }
         }
     }
+    if (hmatrix.get_symmetry_for_leaves() != 'N') {
+        for (auto leaf : leaves_for_symmetry) {
+            int local_nr   = leaf->get_target_cluster().get_size();
+            int local_nc   = leaf->get_source_cluster().get_size();
+            int row_offset = leaf->get_target_cluster().get_offset() - target_offset;
+            int col_offset = leaf->get_source_cluster().get_offset() - source_offset;
+
+            for (int k = 0; k < local_nc; k++) {
+                for (int j = 0; j < local_nr; j++) {
+                    CoefficientPrecision coefficient                     = ptr[j + row_offset + (k + col_offset) * target_size];
+                    ptr[k + col_offset + (j + row_offset) * target_size] = hmatrix.get_symmetry_for_leaves() == 'S' ? coefficient : conj_if_complex(coefficient);
+                }
+            }
+        }
+    }
 }
 
 template <typename CoefficientPrecision, typename CoordinatePrecision = underlying_type<CoefficientPrecision>>
-- 
2.43.0


From 3e7d60bbadd37d4ebc7b68282176e80a263dc25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 08/25] fix: (conj-)transposed matrix times Hermitian HMatrix
 conjugates as the plain product does

---
 .../htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp  | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
index b959315..2cdf3f0 100644
--- a/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
@@ -35,16 +35,17 @@ void internal_add_matrix_hmatrix_product(char transa, char transb, CoefficientPr
             conj_if_complex(C.data(), C.nb_rows() * C.nb_cols());
         }
     } else {
+        bool need_conj = transb == 'C' or (B.get_symmetry_for_leaves() == 'H' and transb == 'N');
         Matrix<CoefficientPrecision> transposed_A(A.nb_cols(), A.nb_rows());
         transpose(A, transposed_A);
-        if (transb == 'C') {
+        if (need_conj) {
             conj_if_complex(C.data(), C.nb_rows() * C.nb_cols());
         }
-        if ((transa == 'T' && transb == 'C') or (transa == 'C' and transb != 'C')) {
+        if ((transa == 'C') != need_conj) {
             conj_if_complex(transposed_A.data(), transposed_A.nb_rows() * transposed_A.nb_cols());
         }
-        sequential_internal_add_hmatrix_matrix_product_row_major(new_transa, 'N', transb == 'C' ? conj_if_complex(alpha) : alpha, B, transposed_A.data(), transb == 'C' ? conj_if_complex(beta) : beta, C.data(), C.nb_rows());
-        if (transb == 'C') {
+        sequential_internal_add_hmatrix_matrix_product_row_major(new_transa, 'N', need_conj ? conj_if_complex(alpha) : alpha, B, transposed_A.data(), need_conj ? conj_if_complex(beta) : beta, C.data(), C.nb_rows());
+        if (need_conj) {
             conj_if_complex(C.data(), C.nb_rows() * C.nb_cols());
         }
     }
-- 
2.43.0


From 56c9d5bd4a4e59c50b71daf811b4bb1a2579ced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 09/25] fix: product into a hierarchical HMatrix applies beta
 when a factor is not hierarchical

beta was passed on to the product into an empty temporary low-rank matrix
and never reached C.
---
 .../linalg/add_hmatrix_hmatrix_product.hpp    | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
index 4a23020..9e0eff3 100644
--- a/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp
@@ -214,10 +214,10 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
     } else if (C.is_low_rank()) {
         internal_add_hmatrix_hmatrix_product(transa, transb, alpha, A, B, beta, *C.get_low_rank_data());
     } else {
+        if (beta != CoefficientPrecision(1)) {
+            sequential_scale(beta, C);
+        }
         if (A.is_hierarchical() and B.is_hierarchical()) {
-            if (beta != CoefficientPrecision(1)) {
-                sequential_scale(beta, C);
-            }
             bool block_tree_not_consistent = (A.get_target_cluster().get_rank() < 0 || A.get_source_cluster().get_rank() < 0 || B.get_target_cluster().get_rank() < 0 || B.get_source_cluster().get_rank() < 0);
 
             std::vector<const Cluster<CoordinatePrecision> *> output_clusters, middle_clusters, input_clusters;
@@ -279,26 +279,26 @@ void internal_add_hmatrix_hmatrix_product(char transa, char transb, CoefficientP
                 LowRankMatrix<CoefficientPrecision, CoordinatePrecision> lrmat(A.is_low_rank() ? A.get_low_rank_data()->get_epsilon() : B.get_low_rank_data()->get_epsilon());
 
                 if (A.is_dense() and B.is_low_rank()) {
-                    add_matrix_lrmat_product(transa, transb, alpha, *A.get_dense_data(), *B.get_low_rank_data(), beta, lrmat);
+                    add_matrix_lrmat_product(transa, transb, alpha, *A.get_dense_data(), *B.get_low_rank_data(), CoefficientPrecision(1), lrmat);
                 } else if (A.is_hierarchical() and B.is_low_rank()) {
-                    internal_add_hmatrix_lrmat_product(transa, transb, alpha, A, *B.get_low_rank_data(), beta, lrmat);
+                    internal_add_hmatrix_lrmat_product(transa, transb, alpha, A, *B.get_low_rank_data(), CoefficientPrecision(1), lrmat);
                 } else if (A.is_low_rank() and B.is_low_rank()) {
-                    add_lrmat_lrmat_product(transa, transb, alpha, *A.get_low_rank_data(), *B.get_low_rank_data(), beta, lrmat);
+                    add_lrmat_lrmat_product(transa, transb, alpha, *A.get_low_rank_data(), *B.get_low_rank_data(), CoefficientPrecision(1), lrmat);
                 } else if (A.is_low_rank() and B.is_dense()) {
-                    add_lrmat_matrix_product(transa, transb, alpha, *A.get_low_rank_data(), *B.get_dense_data(), beta, lrmat);
+                    add_lrmat_matrix_product(transa, transb, alpha, *A.get_low_rank_data(), *B.get_dense_data(), CoefficientPrecision(1), lrmat);
                 } else if (A.is_low_rank() and B.is_hierarchical()) {
-                    internal_add_lrmat_hmatrix_product(transa, transb, alpha, *A.get_low_rank_data(), B, beta, lrmat);
+                    internal_add_lrmat_hmatrix_product(transa, transb, alpha, *A.get_low_rank_data(), B, CoefficientPrecision(1), lrmat);
                 }
 
                 internal_add_lrmat_hmatrix(lrmat, C);
             } else {
                 LowRankMatrix<CoefficientPrecision, CoordinatePrecision> lrmat(C.get_epsilon());
                 if (A.is_dense() and B.is_dense()) {
-                    add_matrix_matrix_product(transa, transb, alpha, *A.get_dense_data(), *B.get_dense_data(), beta, lrmat);
+                    add_matrix_matrix_product(transa, transb, alpha, *A.get_dense_data(), *B.get_dense_data(), CoefficientPrecision(1), lrmat);
                 } else if (A.is_dense() and B.is_hierarchical()) {
-                    internal_add_matrix_hmatrix_product(transa, transb, alpha, *A.get_dense_data(), B, beta, lrmat);
+                    internal_add_matrix_hmatrix_product(transa, transb, alpha, *A.get_dense_data(), B, CoefficientPrecision(1), lrmat);
                 } else if (A.is_hierarchical() and B.is_dense()) {
-                    internal_add_hmatrix_matrix_product(transa, transb, alpha, A, *B.get_dense_data(), beta, lrmat);
+                    internal_add_hmatrix_matrix_product(transa, transb, alpha, A, *B.get_dense_data(), CoefficientPrecision(1), lrmat);
                 }
 
                 internal_add_lrmat_hmatrix(lrmat, C);
-- 
2.43.0


From 02d66e3de50dbf4321f69ca1b8522056b92a2fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 10/25] fix: triangular solves leave a rank-0 low-rank
 right-hand side alone

They called BLAS with a zero leading dimension.
---
 .../htool/hmatrix/linalg/triangular_hmatrix_hmatrix_solve.hpp  | 3 +++
 .../htool/hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/htool/hmatrix/linalg/triangular_hmatrix_hmatrix_solve.hpp b/include/htool/hmatrix/linalg/triangular_hmatrix_hmatrix_solve.hpp
index 168a10f..a784c2c 100644
--- a/include/htool/hmatrix/linalg/triangular_hmatrix_hmatrix_solve.hpp
+++ b/include/htool/hmatrix/linalg/triangular_hmatrix_hmatrix_solve.hpp
@@ -171,6 +171,9 @@ void internal_triangular_hmatrix_hmatrix_solve(char side, char UPLO, char transa
             if (B.is_dense()) {
                 triangular_matrix_matrix_solve(side, UPLO, transa, diag, CoefficientPrecision(1), *A.get_dense_data(), *B.get_dense_data());
             } else if (B.is_low_rank()) {
+                if (B.get_low_rank_data()->rank_of() == 0) {
+                    return;
+                }
                 if (side == 'L' or side == 'l') {
                     triangular_matrix_matrix_solve('L', UPLO, transa, diag, CoefficientPrecision(1), *A.get_dense_data(), B.get_low_rank_data()->get_U());
                 } else {
diff --git a/include/htool/hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp b/include/htool/hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp
index afb4ed5..8b7da1f 100644
--- a/include/htool/hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp
+++ b/include/htool/hmatrix/linalg/triangular_hmatrix_lrmat_solve.hpp
@@ -12,6 +12,9 @@ void internal_triangular_hmatrix_lrmat_solve(char side, char UPLO, char transa,
     if (alpha != CoefficientPrecision(1)) {
         scale(alpha, B);
     }
+    if (B.rank_of() == 0) {
+        return;
+    }
     if (side == 'L' or side == 'l') {
         internal_triangular_hmatrix_matrix_solve('L', UPLO, transa, diag, CoefficientPrecision(1), A, B.get_U());
     } else {
-- 
2.43.0


From 2cf090111420c5ae5118ce19fab647ba51132cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 11/25] fix: HMatrixTreeBuilder::build can be called more than
 once

---
 include/htool/hmatrix/tree_builder/tree_builder.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/htool/hmatrix/tree_builder/tree_builder.hpp b/include/htool/hmatrix/tree_builder/tree_builder.hpp
index 766e4d3..70acc85 100644
--- a/include/htool/hmatrix/tree_builder/tree_builder.hpp
+++ b/include/htool/hmatrix/tree_builder/tree_builder.hpp
@@ -179,6 +179,11 @@ class HMatrixTreeBuilder {
 
 template <typename CoefficientPrecision, typename CoordinatePrecision>
 HMatrix<CoefficientPrecision, CoordinatePrecision> HMatrixTreeBuilder<CoefficientPrecision, CoordinatePrecision>::build(const VirtualInternalGenerator<CoefficientPrecision> &generator) const {
+    // Forget the tasks of a previous build
+    m_admissible_tasks.clear();
+    m_dense_tasks.clear();
+    m_false_positive = 0;
+
     // Create root hmatrix
     HMatrixType root_hmatrix(m_target_root_cluster, m_source_root_cluster);
     root_hmatrix.set_admissibility_condition(m_admissibility_condition);
-- 
2.43.0


From f38121fba1b477bd8e5f9a464417b5490c018fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 12/25] fix: a moved-from Matrix is empty, so it can be
 assigned or resized

---
 include/htool/matrix/matrix.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 9298e3b..3f82118 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -59,7 +59,9 @@ class Matrix {
         return *this;
     }
     Matrix(Matrix &&rhs) : m_number_of_rows(rhs.m_number_of_rows), m_number_of_cols(rhs.m_number_of_cols), m_data(rhs.m_data), m_is_owning_data(rhs.m_is_owning_data), m_pivots(rhs.m_pivots) {
-        rhs.m_data = nullptr;
+        rhs.m_number_of_rows = 0;
+        rhs.m_number_of_cols = 0;
+        rhs.m_data           = nullptr;
     }
 
     Matrix &operator=(Matrix &&rhs) {
@@ -70,8 +72,11 @@ class Matrix {
             m_number_of_cols = rhs.m_number_of_cols;
             m_data           = rhs.m_data;
             m_is_owning_data = rhs.m_is_owning_data;
-            rhs.m_data       = nullptr;
             m_pivots         = rhs.m_pivots;
+
+            rhs.m_number_of_rows = 0;
+            rhs.m_number_of_cols = 0;
+            rhs.m_data           = nullptr;
         }
         return *this;
     }
-- 
2.43.0


From c8254d64279849eea69d64608b76a8d8d0f47504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 13/25] fix: Matrix::resize does not take ownership of memory
 it does not own

---
 include/htool/matrix/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/htool/matrix/matrix.hpp b/include/htool/matrix/matrix.hpp
index 3f82118..25514de 100644
--- a/include/htool/matrix/matrix.hpp
+++ b/include/htool/matrix/matrix.hpp
@@ -230,13 +230,13 @@ class Matrix {
             m_data = nullptr;
             m_data = new T[nbr * nbc];
         } else if (m_number_of_rows * m_number_of_cols != nbr * nbc) {
-            m_data = new T[nbr * nbc];
+            m_data           = new T[nbr * nbc];
+            m_is_owning_data = true;
         }
 
         m_number_of_rows = nbr;
         m_number_of_cols = nbc;
         std::fill_n(m_data, nbr * nbc, value);
-        m_is_owning_data = true;
     }
 
     //! ### Matrix-scalar product
-- 
2.43.0


From b2468b0108b8b9a82b618bda01dd66e6d4312325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:02 +0000
Subject: [PATCH 14/25] fix: bounding box of points with negative coordinates

---
 include/htool/clustering/tree_builder/direction_computation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/clustering/tree_builder/direction_computation.hpp b/include/htool/clustering/tree_builder/direction_computation.hpp
index 9ee1c8c..976439c 100644
--- a/include/htool/clustering/tree_builder/direction_computation.hpp
+++ b/include/htool/clustering/tree_builder/direction_computation.hpp
@@ -63,7 +63,7 @@ class ComputeBoundingBox final : public VirtualDirectionComputationStrategy<T> {
 
         // min max for each axis
         std::vector<T> min_point(spatial_dimension, std::numeric_limits<T>::max());
-        std::vector<T> max_point(spatial_dimension, std::numeric_limits<T>::min());
+        std::vector<T> max_point(spatial_dimension, std::numeric_limits<T>::lowest());
         for (int j = 0; j < cluster->get_size(); j++) {
             std::vector<T> u(spatial_dimension, 0);
             for (int p = 0; p < spatial_dimension; p++) {
-- 
2.43.0


From bec5de977611179c959ae32806f181b2925968a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 15/25] fix: LocalOperator multi-column product writes its
 output when the target permutation is used

---
 .../htool/local_operators/local_operator.hpp  | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index 93104a3..121bd2c 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -94,6 +94,18 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         std::vector<CoefficientPrecision> buffer_out(m_target_use_permutation_to_mvprod ? nr * mu : 0);
 
         CoefficientPrecision *output = m_target_use_permutation_to_mvprod ? buffer_out.data() : out;
+        std::vector<CoefficientPrecision> column(m_target_use_permutation_to_mvprod ? nr : 0), permuted_column(m_target_use_permutation_to_mvprod ? nr : 0);
+        if (m_target_use_permutation_to_mvprod) {
+            for (int i = 0; i < mu; i++) {
+                for (int j = 0; j < nr; j++) {
+                    column[j] = out[i + j * mu];
+                }
+                user_to_cluster(m_target_cluster, column.data(), permuted_column.data());
+                for (int j = 0; j < nr; j++) {
+                    buffer_out[i + j * mu] = permuted_column[j];
+                }
+            }
+        }
         // Permutation + transpose
         if (m_source_use_permutation_to_mvprod) {
             for (int i = 0; i < mu; i++) {
@@ -131,12 +143,18 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         //     conj_if_complex<CoefficientPrecision>(output, nr * mu);
         // }
 
-        // Permutation TODO
-        // if (m_target_use_permutation_to_mvprod) {
-        //     for (int i = 0; i < mu; i++) {
-        //         cluster_to_user(m_cluster_tree_target.get(), output + i * nr, out + i * nr);
-        //     }
-        // }
+        // Permutation
+        if (m_target_use_permutation_to_mvprod) {
+            for (int i = 0; i < mu; i++) {
+                for (int j = 0; j < nr; j++) {
+                    permuted_column[j] = buffer_out[i + j * mu];
+                }
+                cluster_to_user(m_target_cluster, permuted_column.data(), column.data());
+                for (int j = 0; j < nr; j++) {
+                    out[i + j * mu] = column[j];
+                }
+            }
+        }
     }
 
     void add_vector_product_transp_local_to_global(CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out) const override {
-- 
2.43.0


From 6d40873484a4a6a19b52911811715f90163464cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 16/25] fix: LocalOperator transposed multi-column product adds
 to its output

---
 include/htool/local_operators/local_operator.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index 121bd2c..15982d5 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -198,6 +198,21 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
 
         const CoefficientPrecision *input = m_symmetry == 'H' ? input_perm.data() : in;
 
+        // Current value of the output
+        if (m_source_use_permutation_to_mvprod) {
+            for (int i = 0; i < mu; i++) {
+                for (int j = 0; j < nc; j++) {
+                    buffer_out[j] = out[i + (m_source_cluster.get_offset() + j) * mu];
+                }
+                user_to_cluster(m_source_cluster, buffer_out.data(), buffer_out.data() + nc);
+                for (int j = 0; j < nc; j++) {
+                    output_perm[i + j * mu] = buffer_out[nc + j];
+                }
+            }
+        } else {
+            std::copy_n(out + m_source_cluster.get_offset() * mu, output_perm.size(), output_perm.data());
+        }
+
         // Local to local product
         if (m_symmetry == 'N') {
             local_add_matrix_product_row_major('T', alpha, input, beta, output_perm.data(), mu);
-- 
2.43.0


From 3e743e8a2d41a588eb03a3424dc75fa83fa11c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 17/25] fix: transposed products of a Hermitian LocalOperator

---
 .../htool/local_operators/local_operator.hpp    | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index 15982d5..f66a043 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -171,7 +171,15 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
             local_add_vector_product('T', alpha, in, beta, output);
         } else if (m_symmetry == 'S' || m_symmetry == 'H') {
             // m_data.add_vector_product('T', alpha, in, beta, output);
-            local_add_vector_product_symmetric('T', alpha, in, beta, output, m_UPLO, m_symmetry);
+            if (m_symmetry == 'H') { // A^T x = conj(A^H conj(x))
+                std::vector<CoefficientPrecision> conjugate_in(in, in + m_target_cluster.get_size());
+                conj_if_complex<CoefficientPrecision>(conjugate_in.data(), m_target_cluster.get_size());
+                conj_if_complex<CoefficientPrecision>(output, m_source_cluster.get_size());
+                local_add_vector_product_symmetric('C', conj_if_complex<CoefficientPrecision>(alpha), conjugate_in.data(), conj_if_complex<CoefficientPrecision>(beta), output, m_UPLO, m_symmetry);
+                conj_if_complex<CoefficientPrecision>(output, m_source_cluster.get_size());
+            } else {
+                local_add_vector_product_symmetric('T', alpha, in, beta, output, m_UPLO, m_symmetry);
+            }
         } else {
             htool::Logger::get_instance().log(LogLevel::ERROR, "Invalid arguments for LocalDenseMatrix"); // LCOV_EXCL_LINE
             // throw std::invalid_argument("[Htool error] Invalid arguments for LocalDenseMatrix");
@@ -217,7 +225,12 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         if (m_symmetry == 'N') {
             local_add_matrix_product_row_major('T', alpha, input, beta, output_perm.data(), mu);
         } else if (m_symmetry == 'S' || m_symmetry == 'H') {
-            local_add_matrix_product_symmetric_row_major('T', alpha, input, beta, output_perm.data(), mu, m_UPLO, m_symmetry);
+            if (m_symmetry == 'H') { // A^T x = conj(A^H conj(x))
+                conj_if_complex<CoefficientPrecision>(output_perm.data(), nc * mu);
+                local_add_matrix_product_symmetric_row_major('C', conj_if_complex<CoefficientPrecision>(alpha), input, conj_if_complex<CoefficientPrecision>(beta), output_perm.data(), mu, m_UPLO, m_symmetry);
+            } else {
+                local_add_matrix_product_symmetric_row_major('T', alpha, input, beta, output_perm.data(), mu, m_UPLO, m_symmetry);
+            }
         } else {
             htool::Logger::get_instance().log(LogLevel::ERROR, "Invalid arguments for LocalDenseMatrix"); // LCOV_EXCL_LINE
             // throw std::invalid_argument("[Htool error] Invalid arguments for LocalDenseMatrix");
-- 
2.43.0


From 894d1d7048e08964b03cbb6645c51c2a5da8791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 18/25] fix: transposed products of a LocalOperator renumber
 their input when the target permutation is used

---
 .../htool/local_operators/local_operator.hpp  | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index f66a043..1c45f22 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -166,6 +166,12 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
             user_to_cluster(m_source_cluster, out + m_source_cluster.get_offset(), buffer_out.data());
         }
 
+        std::vector<CoefficientPrecision> buffer_in(m_target_use_permutation_to_mvprod ? m_target_cluster.get_size() : 0);
+        if (m_target_use_permutation_to_mvprod) {
+            user_to_cluster(m_target_cluster, in, buffer_in.data());
+            in = buffer_in.data();
+        }
+
         // Local to local product
         if (m_symmetry == 'N') {
             local_add_vector_product('T', alpha, in, beta, output);
@@ -199,6 +205,20 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
         std::vector<CoefficientPrecision> buffer_out(m_source_use_permutation_to_mvprod ? nc * mu + nc : 0);
         std::vector<CoefficientPrecision> output_perm(nc * mu);
 
+        std::vector<CoefficientPrecision> buffer_in(m_target_use_permutation_to_mvprod ? nr * mu + 2 * nr : 0);
+        if (m_target_use_permutation_to_mvprod) {
+            for (int i = 0; i < mu; i++) {
+                for (int j = 0; j < nr; j++) {
+                    buffer_in[nr * mu + j] = in[i + j * mu];
+                }
+                user_to_cluster(m_target_cluster, buffer_in.data() + nr * mu, buffer_in.data() + nr * mu + nr);
+                for (int j = 0; j < nr; j++) {
+                    buffer_in[i + j * mu] = buffer_in[nr * mu + nr + j];
+                }
+            }
+            in = buffer_in.data();
+        }
+
         if (m_symmetry == 'H') { // we have to conjugate to apply in this particular case
             std::copy_n(in, input_perm.size(), input_perm.data());
             conj_if_complex<CoefficientPrecision>(input_perm.data(), input_perm.size());
-- 
2.43.0


From c50ab09f6d5fb75d1be8858e19fef21a2d90f7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 19/25] fix: LocalOperator::sub_matrix_product_to_local with a
 source cluster that does not start at 0

---
 include/htool/local_operators/local_operator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index 1c45f22..33bcc47 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -36,7 +36,7 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
     virtual void local_add_matrix_product_symmetric_row_major(char trans, CoefficientPrecision alpha, const CoefficientPrecision *in, CoefficientPrecision beta, CoefficientPrecision *out, int mu, char UPLO, char symmetry) const = 0;
 
     virtual void local_sub_matrix_vector_product(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, int offset, int size) const {
-        std::vector<CoefficientPrecision> temp(m_source_cluster.get_size() * mu, 0);
+        std::vector<CoefficientPrecision> temp((m_source_cluster.get_offset() + m_source_cluster.get_size()) * mu, 0);
         std::copy_n(in, size * mu, temp.data() + offset * mu);
         add_matrix_product_global_to_local(1, temp.data(), 0, out, mu);
     }
@@ -289,7 +289,7 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
             else {
 
                 int temp_offset                           = std::max(offset, source_offset);
-                const CoefficientPrecision *const temp_in = (offset < source_offset) ? in + source_offset - offset : in;
+                const CoefficientPrecision *const temp_in = (offset < source_offset) ? in + (source_offset - offset) * mu : in;
                 int temp_size                             = (size + offset <= source_size + source_offset) ? size - std::max(source_offset - offset, 0) : size - std::max(source_offset - offset, 0) - (size + offset - source_offset - source_size);
 
                 local_sub_matrix_vector_product(temp_in, out, mu, temp_offset, temp_size);
-- 
2.43.0


From 2a93e2c96325e23b0a8ec27ddd590e747e39fb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 20/25] fix: LocalOperator::sub_matrix_product_to_local honours
 symmetry and permutations on its whole source

---
 include/htool/local_operators/local_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/htool/local_operators/local_operator.hpp b/include/htool/local_operators/local_operator.hpp
index 33bcc47..3dd2789 100644
--- a/include/htool/local_operators/local_operator.hpp
+++ b/include/htool/local_operators/local_operator.hpp
@@ -284,7 +284,7 @@ class LocalOperator : public VirtualLocalOperator<CoefficientPrecision> {
 
         if (!is_output_null) {
             // Same size as local operator
-            if (source_offset == offset && source_size + source_offset == size + offset)
+            if (source_offset == offset && source_size + source_offset == size + offset && m_symmetry == 'N' && !m_target_use_permutation_to_mvprod && !m_source_use_permutation_to_mvprod)
                 local_add_matrix_product_row_major('N', 1, in, 0, out, mu);
             else {
 
-- 
2.43.0


From f270be3fa52245f426bf42ec26c0e900dbeb1e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 21/25] fix: internal_matrix_product_transp_local_to_local
 starts from zero

---
 include/htool/distributed_operator/distributed_operator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/htool/distributed_operator/distributed_operator.hpp b/include/htool/distributed_operator/distributed_operator.hpp
index c3705c0..e40d499 100644
--- a/include/htool/distributed_operator/distributed_operator.hpp
+++ b/include/htool/distributed_operator/distributed_operator.hpp
@@ -635,6 +635,7 @@ void DistributedOperator<CoefficientPrecision>::internal_matrix_product_transp_l
     std::vector<CoefficientPrecision> buffer((work == nullptr) ? (nc + local_size_source * sizeWorld) * mu : 0);
     CoefficientPrecision *buffer_ptr = (work == nullptr) ? buffer.data() : work;
 
+    std::fill(out, out + local_size_source * mu, 0);
     std::fill(buffer_ptr, buffer_ptr + nc * mu, 0);
     CoefficientPrecision *rbuf = buffer_ptr + nc * mu;
 
-- 
2.43.0


From 4d4bde0926f3c5c0082322fde9e07d182990d73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 22/25] fix: internal transposed local-to-local products of a
 Hermitian DistributedOperator conjugate

---
 .../distributed_operator.hpp                  | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/include/htool/distributed_operator/distributed_operator.hpp b/include/htool/distributed_operator/distributed_operator.hpp
index e40d499..bb45820 100644
--- a/include/htool/distributed_operator/distributed_operator.hpp
+++ b/include/htool/distributed_operator/distributed_operator.hpp
@@ -575,11 +575,6 @@ void DistributedOperator<CoefficientPrecision>::internal_matrix_product_local_to
 
 template <typename CoefficientPrecision>
 void DistributedOperator<CoefficientPrecision>::internal_vector_product_transp_local_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, CoefficientPrecision *work) const {
-    if (m_symmetry == 'S' || m_symmetry == 'H') {
-        this->internal_vector_product_local_to_local(in, out, work);
-        return;
-    }
-
     int sizeWorld, rankWorld;
     MPI_Comm_rank(m_comm, &rankWorld);
     MPI_Comm_size(m_comm, &sizeWorld);
@@ -587,6 +582,18 @@ void DistributedOperator<CoefficientPrecision>::internal_vector_product_transp_l
     int local_size_source = m_source_partition.get_size_of_partition(rankWorld);
     int nc                = m_source_partition.get_global_size();
 
+    if (m_symmetry == 'S') {
+        this->internal_vector_product_local_to_local(in, out, work);
+        return;
+    } else if (m_symmetry == 'H') {
+        int local_size = m_target_partition.get_size_of_partition(rankWorld);
+        std::vector<CoefficientPrecision> in_conj(in, in + local_size);
+        conj_if_complex<CoefficientPrecision>(in_conj.data(), local_size);
+        this->internal_vector_product_local_to_local(in_conj.data(), out, work);
+        conj_if_complex<CoefficientPrecision>(out, local_size_source);
+        return;
+    }
+
     std::vector<CoefficientPrecision> buffer((work == nullptr) ? nc + local_size_source * sizeWorld : 0);
     CoefficientPrecision *buffer_ptr = (work == nullptr) ? buffer.data() : work;
 
@@ -621,17 +628,24 @@ void DistributedOperator<CoefficientPrecision>::internal_vector_product_transp_l
 
 template <typename CoefficientPrecision>
 void DistributedOperator<CoefficientPrecision>::internal_matrix_product_transp_local_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, CoefficientPrecision *work) const {
-    if (m_symmetry == 'S' || m_symmetry == 'H') {
-        this->internal_matrix_product_local_to_local(in, out, mu, work);
-        return;
-    }
-
     int sizeWorld, rankWorld;
     MPI_Comm_rank(m_comm, &rankWorld);
     MPI_Comm_size(m_comm, &sizeWorld);
     int local_size_source = m_source_partition.get_size_of_partition(rankWorld);
     int nc                = m_source_partition.get_global_size();
 
+    if (m_symmetry == 'S') {
+        this->internal_matrix_product_local_to_local(in, out, mu, work);
+        return;
+    } else if (m_symmetry == 'H') {
+        int local_size = m_target_partition.get_size_of_partition(rankWorld);
+        std::vector<CoefficientPrecision> in_conj(in, in + local_size * mu);
+        conj_if_complex<CoefficientPrecision>(in_conj.data(), local_size * mu);
+        this->internal_matrix_product_local_to_local(in_conj.data(), out, mu, work);
+        conj_if_complex<CoefficientPrecision>(out, local_size_source * mu);
+        return;
+    }
+
     std::vector<CoefficientPrecision> buffer((work == nullptr) ? (nc + local_size_source * sizeWorld) * mu : 0);
     CoefficientPrecision *buffer_ptr = (work == nullptr) ? buffer.data() : work;
 
-- 
2.43.0


From 0d5b2c62c5c5e96856392f974102a8dbb987794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 23/25] fix: internal_sub_matrix_product_to_local sums the
 local operators

---
 .../htool/distributed_operator/distributed_operator.hpp  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/htool/distributed_operator/distributed_operator.hpp b/include/htool/distributed_operator/distributed_operator.hpp
index bb45820..e8bf538 100644
--- a/include/htool/distributed_operator/distributed_operator.hpp
+++ b/include/htool/distributed_operator/distributed_operator.hpp
@@ -680,8 +680,15 @@ void DistributedOperator<CoefficientPrecision>::internal_matrix_product_transp_l
 
 template <typename CoefficientPrecision>
 void DistributedOperator<CoefficientPrecision>::internal_sub_matrix_product_to_local(const CoefficientPrecision *const in, CoefficientPrecision *const out, int mu, int offset, int size) const {
+    int rankWorld;
+    MPI_Comm_rank(m_comm, &rankWorld);
+    int local_size = m_target_partition.get_size_of_partition(rankWorld);
+    std::fill_n(out, local_size * mu, CoefficientPrecision(0));
+    std::vector<CoefficientPrecision> local_out(local_size * mu);
     for (auto &local_operator : m_local_operators) {
-        local_operator->sub_matrix_product_to_local(in, out, mu, offset, size);
+        std::fill(local_out.begin(), local_out.end(), CoefficientPrecision(0));
+        local_operator->sub_matrix_product_to_local(in, local_out.data(), mu, offset, size);
+        std::transform(out, out + local_size * mu, local_out.begin(), out, std::plus<CoefficientPrecision>());
     }
 }
 
-- 
2.43.0


From aeadb3372490e7238cf673a99eaf278f45bf7211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 24/25] fix: mirrored blocks of a symmetric HMatrix whose
 target and source offsets differ

---
 include/htool/hmatrix/hmatrix.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/htool/hmatrix/hmatrix.hpp b/include/htool/hmatrix/hmatrix.hpp
index 458502d..dd824f3 100644
--- a/include/htool/hmatrix/hmatrix.hpp
+++ b/include/htool/hmatrix/hmatrix.hpp
@@ -306,13 +306,13 @@ void copy_to_dense(const HMatrix<CoefficientPrecision, CoordinatePrecision> &hma
         for (auto leaf : leaves_for_symmetry) {
             int local_nr   = leaf->get_target_cluster().get_size();
             int local_nc   = leaf->get_source_cluster().get_size();
-            int row_offset = leaf->get_target_cluster().get_offset() - target_offset;
-            int col_offset = leaf->get_source_cluster().get_offset() - source_offset;
+            int row_offset = leaf->get_target_cluster().get_offset();
+            int col_offset = leaf->get_source_cluster().get_offset();
 
             for (int k = 0; k < local_nc; k++) {
                 for (int j = 0; j < local_nr; j++) {
-                    CoefficientPrecision coefficient                     = ptr[j + row_offset + (k + col_offset) * target_size];
-                    ptr[k + col_offset + (j + row_offset) * target_size] = hmatrix.get_symmetry_for_leaves() == 'S' ? coefficient : conj_if_complex(coefficient);
+                    CoefficientPrecision coefficient                                                       = ptr[j + row_offset - target_offset + (k + col_offset - source_offset) * target_size];
+                    ptr[k + col_offset - target_offset + (j + row_offset - source_offset) * target_size] = hmatrix.get_symmetry_for_leaves() == 'S' ? coefficient : conj_if_complex(coefficient);
                 }
             }
         }
-- 
2.43.0


From 1391c4fa39d27c14a9ffdd99a2096fc2d42983eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:20 +0000
Subject: [PATCH 25/25] fix: product of a matrix with a rectangular part of a
 symmetric hmatrix

---
 include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp b/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
index 2cdf3f0..52c14cc 100644
--- a/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
+++ b/include/htool/hmatrix/linalg/add_matrix_hmatrix_product.hpp
@@ -19,9 +19,9 @@ namespace htool {
 template <typename CoefficientPrecision, typename CoordinatePrecision = CoefficientPrecision>
 void internal_add_matrix_hmatrix_product(char transa, char transb, CoefficientPrecision alpha, const Matrix<CoefficientPrecision> &A, const HMatrix<CoefficientPrecision, CoordinatePrecision> &B, CoefficientPrecision beta, Matrix<CoefficientPrecision> &C) {
 
+    // B may be a rectangular part of a symmetric or hermitian matrix, so that op(B) = B does not hold in general
     char new_transa = transb == 'N' ? 'T' : 'N';
-    new_transa      = B.get_symmetry_for_leaves() == 'H' and transb == 'N' ? 'N' : new_transa;
-    new_transa      = B.get_symmetry_for_leaves() == 'S' and transb == 'N' ? 'N' : new_transa;
+    new_transa      = B.get_symmetry_for_leaves() == 'H' and transb == 'N' ? 'C' : new_transa;
     if (transa == 'N') {
         bool need_buffer_for_conj = transb == 'C' or (B.get_symmetry_for_leaves() == 'H' and transb == 'N');
         std::vector<CoefficientPrecision> buffer_A(need_buffer_for_conj ? A.nb_cols() * A.nb_rows() : 0);
-- 
2.43.0

