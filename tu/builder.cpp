// Driver that instantiates the builder of hierarchical matrices of htool for extraction (never executed).
#include <htool/hmatrix/hmatrix.hpp>
#include <htool/hmatrix/linalg/interface.hpp>
#include <htool/hmatrix/tree_builder/tree_builder.hpp>
using namespace htool;
template <typename T>
void drive_builder(const Cluster<double> &t, const Cluster<double> &s, const VirtualInternalGenerator<T> &g, const VirtualGenerator<T> &u, const VirtualLowRankGenerator<T, double> &lr, double eps, char c, int n, const int *p, T *q, HMatrix<T> &H) {
    HMatrixTreeBuilder<T, double> b(t, s, eps, eps, c, c, n, n, n);
    HMatrix<T> X = b.build(u);
    HMatrix<T> Y = b.build(g);
    LowRankMatrix<T, double> L(g, lr, t, s, n, eps);
    H.compute_dense_data(g);
    H.compute_low_rank_data(g, lr, n, eps);
    InternalGeneratorWithPermutation<T> w(u, p, p);
    w.copy_submatrix(n, n, n, n, q);
    recompression(L);
    b.set_minimal_source_depth(n);
}
void drive(const Cluster<double> &t, const Cluster<double> &s, const VirtualInternalGenerator<double> &g, const VirtualGenerator<double> &u, const VirtualLowRankGenerator<double, double> &lr, const VirtualInternalGenerator<std::complex<double>> &gc, const VirtualGenerator<std::complex<double>> &uc, const VirtualLowRankGenerator<std::complex<double>, double> &lrc, HMatrix<double> &H, HMatrix<std::complex<double>> &Hc, const int *p, double *q, std::complex<double> *qc) {
    drive_builder<double>(t, s, g, u, lr, 1e-3, 'N', -1, p, q, H);
    drive_builder<std::complex<double>>(t, s, gc, uc, lrc, 1e-3, 'N', -1, p, qc, Hc);
}
