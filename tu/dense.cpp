// Driver that instantiates the dense linear algebra of htool for extraction (never executed).
#include <htool/matrix/matrix.hpp>
#include <htool/matrix/linalg/interface.hpp>
#include <htool/matrix/utils/SVD_truncation.hpp>
using namespace htool;
template <typename T>
void drive_dense(char c, T s, Matrix<T> A, Matrix<T> B, Matrix<T> C, T *p, const T *q, int n) {
    add_matrix_vector_product(c, s, A, q, s, p);
    add_symmetric_matrix_vector_product(c, s, A, q, s, p);
    add_hermitian_matrix_vector_product(c, s, A, q, s, p);
    add_matrix_matrix_product(c, c, s, A, B, s, C);
    add_symmetric_matrix_matrix_product(c, c, s, A, B, s, C);
    add_hermitian_matrix_matrix_product(c, c, s, A, B, s, C);
    add_matrix_matrix_product_row_major(c, c, s, A, q, s, p, n);
    add_symmetric_matrix_matrix_product_row_major(c, c, s, A, q, s, p, n);
    add_hermitian_matrix_matrix_product_row_major(c, c, s, A, q, s, p, n);
    lu_factorization(A);
    lu_solve(c, A, B);
    cholesky_factorization(c, A);
    cholesky_solve(c, A, B);
    triangular_matrix_matrix_solve(c, c, c, c, s, A, B);
    scale(s, A);
    transpose(A, B);
    Matrix<T> D(A), E(std::move(B)), F;
    F = D;
    F = std::move(D);
    F = s;
    F.resize(n, n, s);
    F.resize(n, n);
    F.assign(n, n, p, true);
    F.release();
    F.set_size(n, n);
    F.get_pivots();
    std::vector<T> v = F.get_row(n);
    v                = F.get_col(n);
    v                = F.get_stridedslice(n, n, n);
    F.set_row(n, v);
    F.set_col(n, v);
    F.set_stridedslice(n, n, n, v);
    F    = A * s;
    F    = s * A;
    F    = A + B;
    F    = A - B;
    F    = A * B;
    v    = A * v;
    F(n, n) = E(n, n);
    const Matrix<T> &G = F;
    p[0] = G(n, n);
    argmax(A);
    F.matrix_to_bytes("f");
    F.bytes_to_matrix("f");
    normFrob(A);
}
template void drive_dense<double>(char c, double s, Matrix<double> A, Matrix<double> B, Matrix<double> C, double *p, const double *q, int n);
template void drive_dense<std::complex<double>>(char c, std::complex<double> s, Matrix<std::complex<double>> A, Matrix<std::complex<double>> B, Matrix<std::complex<double>> C, std::complex<double> *p, const std::complex<double> *q, int n);
