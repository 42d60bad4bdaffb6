// P03: renumbering between the user's numbering and the numbering of a cluster tree is the tree's permutation and its inverse.
#include "hm.hpp"
#include <htool/distributed_operator/implementations/partition_from_cluster.hpp>
using namespace hv;
using namespace htool;
template <typename T> static std::vector<T> values(Run &R, int n) {
    std::vector<T> v(n);
    for (auto &x : v) x = Rnd<T>::get(R);
    return v;
}
template <typename T> static void tree(Run &R, const Cl &root, const std::string &what) {
    int n = root.get_size();
    auto &perm = root.get_permutation();
    const T sentinel = T(-77);
    auto x0 = values<T>(R, n + 2);
    const auto x = x0;
    std::vector<T> y(n + 2, sentinel), z(n + 2, sentinel);
    auto margins = [&](const std::vector<T> &v, int m) { for (int i = m; i < int(v.size()); i++) if (v[i] != sentinel) return false; return true; };
    auto pair = [&](const char *name, int off, int m, auto fwd, auto bwd) {
        std::string w = what + S("offset", off, "size", m);
        R.at(name, w);
        std::fill(y.begin(), y.end(), sentinel), std::fill(z.begin(), z.end(), sentinel);
        fwd(x0.data(), y.data());
        bool ok = margins(y, m);
        for (int i = 0; i < m; i++) if (y[perm[off + i] - off] != x[i]) ok = false;
        R.check(ok, std::string(name) + ": to the user's numbering", w);
        bwd(x0.data(), z.data());
        ok = margins(z, m);
        for (int i = 0; i < m; i++) if (z[i] != x[perm[off + i] - off]) ok = false;
        R.check(ok, std::string(name) + ": from the user's numbering", w);
        std::vector<T> back(n + 2, sentinel);
        bwd(y.data(), back.data());
        ok = true;
        for (int i = 0; i < m; i++) if (back[i] != x[i]) ok = false;
        R.check(ok, std::string(name) + ": there and back", w);
        R.check(x0 == x, std::string(name) + ": the input is not modified", w);
    };
    PartitionFromCluster<T, double> part(root);
    pair("root", 0, n, [&](const T *a, T *b) { root_cluster_to_global(root, a, b); }, [&](const T *a, T *b) { global_to_root_cluster(root, a, b); });
    pair("cluster_to_user of the root", 0, n, [&](const T *a, T *b) { cluster_to_user(root, a, b); }, [&](const T *a, T *b) { user_to_cluster(root, a, b); });
    pair("partition, global", 0, n, [&](const T *a, T *b) { part.partition_to_global_numbering(a, b); }, [&](const T *a, T *b) { part.global_to_partition_numbering(a, b); });
    auto &P = root.get_clusters_on_partition();
    bool ok = part.get_global_size() == n && part.is_renumbering_local() == root.is_permutation_local();
    for (int p = 0; p < int(P.size()); p++) ok = ok && part.get_size_of_partition(p) == P[p]->get_size() && part.get_offset_of_partition(p) == P[p]->get_offset();
    R.check(ok, "partition: sizes and offsets", what);
    if (root.is_permutation_local())
        for (int p = 0; p < int(P.size()); p++) {
            int o = P[p]->get_offset(), m = P[p]->get_size();
            pair("local", o, m, [&](const T *a, T *b) { local_cluster_to_local(root, p, a, b); }, [&](const T *a, T *b) { local_to_local_cluster(root, p, a, b); });
            pair("local, from the cluster of the partition", o, m, [&](const T *a, T *b) { local_cluster_to_local(*P[p], p, a, b); }, [&](const T *a, T *b) { local_to_local_cluster(*P[p], p, a, b); });
            pair("cluster_to_user of a cluster of the partition", o, m, [&](const T *a, T *b) { cluster_to_user(*P[p], a, b); }, [&](const T *a, T *b) { user_to_cluster(*P[p], a, b); });
            pair("partition, local", o, m, [&](const T *a, T *b) { part.local_partition_to_local_numbering(p, a, b); }, [&](const T *a, T *b) { part.local_to_local_partition_numbering(p, a, b); });
        }
    // the index each position stands for
    std::vector<int> id(n), pid(n);
    for (int i = 0; i < n; i++) id[i] = i;
    R.at("integers", what);
    user_to_cluster(root, id.data(), pid.data());
    R.check(pid == perm, "renumbering the identity gives the permutation", what);
}
static void one(Run &R) {
    int dim = R.irand(2, 3), children = R.irand(2, 4), parts = R.irand(1, 5), n = std::max(R.irand(2, 120), 3 * parts * children * children), minsize = std::min(R.irand(0, 12), std::max(0, n / (4 * parts * children)));
    Geo g(R, n, dim);
    ClusterTreeBuilder<double> b;
    b.set_minclustersize(minsize);
    std::vector<int> given;
    if (R.irand(0, 2)) {
        std::vector<int> cut{0, n};
        while (int(cut.size()) < parts + 1) {
            int c = R.irand(1, n - 1);
            if (std::find(cut.begin(), cut.end(), c) == cut.end()) cut.push_back(c);
        }
        std::sort(cut.begin(), cut.end());
        for (int p = 0; p < parts; p++) { given.push_back(cut[p]); given.push_back(cut[p + 1] - cut[p]); }
    }
    std::string what = S("n", n, "dim", dim, "children", children, "parts", parts, "minsize", minsize, "given", given.size());
    R.at("create_cluster_tree", what);
    auto t = given.empty() ? b.create_cluster_tree(n, dim, g.x.data(), children, parts) : b.create_cluster_tree(n, dim, g.x.data(), children, parts, given.data());
    tree<double>(R, t, what);
    tree<cd>(R, t, what);
}
int main(int argc, char **argv) {
    Run R;
    R.init(argc, argv);
    for (int i = 0; i < (R.thorough ? 20000 : 1500) && !R.out_of_time(); i++) one(R);
    return R.done();
}
