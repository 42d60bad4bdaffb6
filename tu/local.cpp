// Driver that instantiates the local operators of htool for extraction (never executed).
#include <complex>
#include <htool/hmatrix/hmatrix.hpp>
#include <htool/hmatrix/linalg/interface.hpp>
#include <htool/matrix/linalg/interface.hpp>
#include <htool/local_operators/local_dense_matrix.hpp>
#include <htool/local_operators/local_hmatrix.hpp>
using namespace htool;
template <typename T, typename O>
void drive(const O &o, T s, int n, const T *p, T *q) {
    const VirtualLocalOperator<T> &v = o;
    v.add_vector_product_global_to_local(s, p, s, q);
    v.add_matrix_product_global_to_local(s, p, s, q, n);
    v.add_vector_product_transp_local_to_global(s, p, s, q);
    v.add_matrix_product_transp_local_to_global(s, p, s, q, n);
    v.sub_matrix_product_to_local(p, q, n, n, n);
}
template <typename T>
void drive_local(const Matrix<T> &A, const HMatrix<T, double> &H, const Cluster<double> &t, char c, bool b, T s, int n, const T *p, T *q) {
    LocalDenseMatrix<T, double> D(A, t, t, c, c, b, b);
    LocalHMatrix<T, double> K(H, t, t, c, c, b, b);
    drive<T>(D, s, n, p, q);
    drive<T>(K, s, n, p, q);
}
template void drive_local<double>(const Matrix<double> &, const HMatrix<double, double> &, const Cluster<double> &, char, bool, double, int, const double *, double *);
template void drive_local<std::complex<double>>(const Matrix<std::complex<double>> &, const HMatrix<std::complex<double>, double> &, const Cluster<double> &, char, bool, std::complex<double>, int, const std::complex<double> *, std::complex<double> *);
