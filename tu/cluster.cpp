// Driver that instantiates the cluster functions of htool for extraction (never executed).
#include <complex>
#include <htool/clustering/cluster_node.hpp>
#include <htool/clustering/tree_builder/tree_builder.hpp>
#include <htool/distributed_operator/implementations/partition_from_cluster.hpp>
using namespace htool;
template <typename T>
void drive_cluster(const Cluster<double> &c, int i, const T *in, T *out) {
    root_cluster_to_global(c, in, out);
    global_to_root_cluster(c, in, out);
    local_cluster_to_local(c, i, in, out);
    local_to_local_cluster(c, i, in, out);
    cluster_to_user(c, in, out);
    user_to_cluster(c, in, out);
}
template void drive_cluster<double>(const Cluster<double> &, int, const double *, double *);
template void drive_cluster<std::complex<double>>(const Cluster<double> &, int, const std::complex<double> *, std::complex<double> *);
void drive_builder(ClusterTreeBuilder<double> &b, int n, int d, const double *x, const double *r, const double *w, int c, int s, const int *p) {
    b.create_cluster_tree(n, d, x, r, w, c, s, p);
    b.create_cluster_tree(n, d, x, c, s, p);
    b.create_cluster_tree(n, d, x, c, s);
}
template <typename T>
int drive_partition(const PartitionFromCluster<T, double> &p, int i, const T *in, T *out) {
    p.global_to_partition_numbering(in, out);
    p.partition_to_global_numbering(in, out);
    p.local_to_local_partition_numbering(i, in, out);
    p.local_partition_to_local_numbering(i, in, out);
    return p.get_size_of_partition(i) + p.get_offset_of_partition(i) + p.get_global_size() + p.is_renumbering_local();
}
template int drive_partition<double>(const PartitionFromCluster<double, double> &, int, const double *, double *);
template int drive_partition<std::complex<double>>(const PartitionFromCluster<std::complex<double>, double> &, int, const std::complex<double> *, std::complex<double> *);
void drive_splitting(RegularSplitting<double> &r, GeometricSplitting<double> &g, ComputeLargestExtent<double> &e, ComputeBoundingBox<double> &b, Cluster<double> *c, const Cluster<double> *cc, const std::vector<int> &perm, int d, const double *x, const double *rad, const double *w, int k, int m, const std::vector<double> &dir, std::vector<std::pair<int, int>> &out) {
    r.splitting(c, perm, d, x, k, m, dir, out);
    g.splitting(c, perm, d, x, k, m, dir, out);
    e.compute_direction(cc, perm, d, x, rad, w);
    b.compute_direction(cc, perm, d, x, rad, w);
}
