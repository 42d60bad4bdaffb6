// Driver that instantiates the hierarchical matrix algebra of htool for extraction (never executed).
#include <htool/hmatrix/hmatrix.hpp>
#include <htool/hmatrix/linalg/interface.hpp>
#include <htool/hmatrix/linalg/add_lrmat_hmatrix.hpp>
using namespace htool;
template <typename T>
void drive_hmatrix(char c, T s, HMatrix<T> &H, HMatrix<T> &G, HMatrix<T> &K, Matrix<T> &A, Matrix<T> &B, LowRankMatrix<T> &L, LowRankMatrix<T> &M, const Cluster<double> &k, T *p, const T *q, int n, const VirtualInternalGenerator<T> &g) {
    internal_add_hmatrix_vector_product(c, s, H, q, s, p);
    sequential_internal_add_hmatrix_vector_product(c, s, H, q, s, p);
    openmp_internal_add_hmatrix_vector_product(c, s, H, q, s, p);
    internal_add_hmatrix_matrix_product_row_major(c, c, s, H, q, s, p, n);
    sequential_internal_add_hmatrix_matrix_product_row_major(c, c, s, H, q, s, p, n);
    openmp_internal_add_hmatrix_matrix_product_row_major(c, c, s, H, q, s, p, n);
    openmp_scale(s, H);
    sequential_scale(s, H);
    scale(s, H);
    get_leaves_from(H);
    copy_to_dense(H, p);
    copy_to_dense_in_user_numbering(H, p);
    copy_diagonal(H, p);
    copy_diagonal_in_user_numbering(H, p);
    H.get_sub_hmatrix(k, k);
    static_cast<const HMatrix<T> &>(H).get_sub_hmatrix(k, k);
    H.get_child_or_this(k, k);
    HMatrix<T> X(H);
    X = H;
    H.compute_dense_data(g);
    internal_add_hmatrix_matrix_product(c, c, s, H, A, s, B);
    internal_add_hmatrix_matrix_product(c, c, s, H, A, s, L);
    internal_add_matrix_hmatrix_product(c, c, s, A, H, s, B);
    internal_add_matrix_hmatrix_product(c, c, s, A, H, s, L);
    internal_add_hmatrix_lrmat_product(c, c, s, H, L, s, A);
    internal_add_hmatrix_lrmat_product(c, c, s, H, L, s, M);
    internal_add_hmatrix_lrmat_product(c, c, s, H, L, s, G);
    internal_add_lrmat_hmatrix_product(c, c, s, L, H, s, A);
    internal_add_lrmat_hmatrix_product(c, c, s, L, H, s, M);
    internal_add_lrmat_hmatrix_product(c, c, s, L, H, s, G);
    internal_add_hmatrix_hmatrix_product(c, c, s, H, G, s, A);
    internal_add_hmatrix_hmatrix_product(c, c, s, H, G, s, L);
    internal_add_hmatrix_hmatrix_product(c, c, s, H, G, s, K);
    internal_add_lrmat_hmatrix(L, H);
    internal_triangular_hmatrix_matrix_solve(c, c, c, c, s, H, A);
    internal_triangular_hmatrix_lrmat_solve(c, c, c, c, s, H, L);
    internal_triangular_hmatrix_hmatrix_solve(c, c, c, c, s, H, G);
    lu_factorization(H);
    cholesky_factorization(c, H);
    internal_lu_solve(c, H, A);
    internal_cholesky_solve(c, H, A);
    lu_solve(c, H, A);
    cholesky_solve(c, H, A);
}
#define A(T) (char c, T s, HMatrix<T> &H, HMatrix<T> &G, HMatrix<T> &K, Matrix<T> &A, Matrix<T> &B, LowRankMatrix<T> &L, LowRankMatrix<T> &M, const Cluster<double> &k, T *p, const T *q, int n, const VirtualInternalGenerator<T> &g)
template void drive_hmatrix<double>A(double);
template void drive_hmatrix<std::complex<double>>A(std::complex<double>);
