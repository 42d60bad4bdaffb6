// Driver that instantiates the distributed operator of htool for extraction (never executed).
#include <complex>
#include <htool/clustering/cluster_node.hpp>
#include <htool/distributed_operator/distributed_operator.hpp>
using namespace htool;
template <typename T>
void drive_distributed(const DistributedOperator<T> &o, int n, const T *p, T *q) {
    o.vector_product_global_to_global(p, q);
    o.matrix_product_global_to_global(p, q, n);
    o.vector_product_transp_global_to_global(p, q);
    o.matrix_product_transp_global_to_global(p, q, n);
    o.vector_product_local_to_local(p, q, q);
    o.matrix_product_local_to_local(p, q, n, q);
    o.vector_product_transp_local_to_local(p, q, q);
    o.matrix_product_transp_local_to_local(p, q, n, q);
    o.internal_vector_product_global_to_local(p, q);
    o.internal_matrix_product_global_to_local(p, q, n);
    o.internal_vector_product_transp_local_to_global(p, q);
    o.internal_matrix_product_transp_local_to_global(p, q, n);
    o.internal_vector_product_local_to_local(p, q, q);
    o.internal_matrix_product_local_to_local(p, q, n, q);
    o.internal_vector_product_transp_local_to_local(p, q, q);
    o.internal_matrix_product_transp_local_to_local(p, q, n, q);
    o.internal_sub_matrix_product_to_local(p, q, n, n, n);
    o.local_to_global_source(p, q, n);
    o.local_to_global_target(p, q, n);
}
template void drive_distributed<double>(const DistributedOperator<double> &, int, const double *, double *);
template void drive_distributed<std::complex<double>>(const DistributedOperator<std::complex<double>> &, int, const std::complex<double> *, std::complex<double> *);
