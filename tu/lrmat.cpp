// Driver that instantiates the low-rank algebra of htool for extraction (never executed).
#include <htool/hmatrix/lrmat/linalg/interface.hpp>
#include <htool/hmatrix/lrmat/linalg/add_lrmat_lrmat.hpp>
#include <htool/hmatrix/lrmat/SVD.hpp>
#include <htool/hmatrix/lrmat/fullACA.hpp>
#include <htool/hmatrix/lrmat/partialACA.hpp>
#include <htool/hmatrix/lrmat/sympartialACA.hpp>
#include <htool/hmatrix/lrmat/utils/recompression.hpp>
using namespace htool;
template <typename T>
void drive_lrmat(char c, T s, Matrix<T> &A, Matrix<T> &B, LowRankMatrix<T> &L, LowRankMatrix<T> &M, LowRankMatrix<T> &N, const Cluster<double> &k, T *p, const T *q, int n, const VirtualInternalGenerator<T> &g) {
    add_lrmat_vector_product(c, s, L, q, s, p);
    add_lrmat_matrix_product(c, c, s, L, A, s, B);
    add_lrmat_matrix_product(c, c, s, L, A, s, M);
    add_lrmat_matrix_product_row_major(c, c, s, L, q, s, p, n);
    add_matrix_lrmat_product(c, c, s, A, L, s, B);
    add_matrix_lrmat_product(c, c, s, A, L, s, M);
    add_lrmat_lrmat_product(c, c, s, L, M, s, A);
    add_lrmat_lrmat_product(c, c, s, L, M, s, N);
    add_matrix_matrix_product(c, c, s, A, B, s, L);
    add_lrmat_lrmat(L, k, k, M, k, k);
    scale(s, L);
    recompression(L);
    auto u = recompression(static_cast<const LowRankMatrix<T> &>(L));
    L.copy_to_dense(p);
    L.rank_of(); L.nb_rows(); L.nb_cols(); L.get_U(n, n); L.get_V(n, n); L.get_epsilon();
    LowRankMatrix<T> X(L), Y(1e-3);
    Y = X;
    SVD<T> svd;
    fullACA<T> faca;
    partialACA<T> paca;
    sympartialACA<T> saca;
    LowRankMatrix<T> Z(g, svd, k, k, n, 1e-3);
    svd.copy_low_rank_approximation(g, k, k, 1e-3, n, A, B);
    faca.copy_low_rank_approximation(g, k, k, 1e-3, n, A, B);
    paca.copy_low_rank_approximation(g, k, k, 1e-3, n, A, B);
    saca.copy_low_rank_approximation(g, k, k, 1e-3, n, A, B);
    Frobenius_absolute_error(k, k, L, g, n);
}
template void drive_lrmat<double>(char c, double s, Matrix<double> &A, Matrix<double> &B, LowRankMatrix<double> &L, LowRankMatrix<double> &M, LowRankMatrix<double> &N, const Cluster<double> &k, double *p, const double *q, int n, const VirtualInternalGenerator<double> &g);
template void drive_lrmat<std::complex<double>>(char c, std::complex<double> s, Matrix<std::complex<double>> &A, Matrix<std::complex<double>> &B, LowRankMatrix<std::complex<double>> &L, LowRankMatrix<std::complex<double>> &M, LowRankMatrix<std::complex<double>> &N, const Cluster<double> &k, std::complex<double> *p, const std::complex<double> *q, int n, const VirtualInternalGenerator<std::complex<double>> &g);
