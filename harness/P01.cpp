// P01: cluster trees are nested contiguous partitions of a permutation of the points.
#include "hm.hpp"
#include <numeric>
using namespace hv;
using namespace htool;
// a user strategy: uneven but valid tiles
struct Uneven : VirtualSplittingStrategy<double> {
    void splitting(Cluster<double> *c, const std::vector<int> &, int, const double *, int k, int mn, const std::vector<double> &, std::vector<std::pair<int, int>> &p) override {
        p.clear();
        int n = c->get_size(), o = c->get_offset();
        if (n / k <= mn || n < 2 * k) return;
        for (int i = 0; i < k; i++) {
            int s = i + 1 < k ? std::max(1, n / (2 * k)) : c->get_offset() + n - o;
            p.push_back({o, s});
            o += s;
        }
    }
};
static void tree(Run &R, const Cl &root, const Geo &g, const std::vector<double> &rad, const std::vector<double> &w, int parts, const std::vector<int> &given, int minsize, bool regular, const std::string &what) {
    int n      = g.n;
    auto &perm = root.get_permutation();
    std::vector<char> hit(n, 0);
    bool bij = int(perm.size()) == n;
    for (int v : perm) {
        if (v < 0 || v >= n || hit[v]) bij = false;
        else hit[v] = 1;
    }
    R.check(bij, "permutation is a bijection", what);
    R.check(root.is_root() && root.get_depth() == 0 && root.get_offset() == 0 && root.get_size() == n, "root cluster is everything", what);
    bool tiles = true, depth = true, encl = true, cen = true, rank = true, counter = true, data = true, leafsize = true, once = true;
    unsigned maxd = 0, mind = 1u << 30;
    std::map<unsigned, std::set<int>> counters;
    std::set<const Cl *> onpart(root.get_clusters_on_partition().begin(), root.get_clusters_on_partition().end());
    std::vector<std::pair<const Cl *, const Cl *>> st{{&root, nullptr}};
    while (!st.empty()) {
        auto *c = st.back().first, *part = st.back().second;
        st.pop_back();
        if (onpart.count(c)) {
            if (part) rank = false;
            part = c;
        }
        if (part ? c->get_rank() != part->get_rank() : c->get_rank() != -1) rank = false;
        if (&c->get_permutation() != &perm || c->get_clusters_on_partition() != root.get_clusters_on_partition()) data = false;
        if (!counters[c->get_depth()].insert(c->get_counter()).second) counter = false;
        int o = c->get_offset();
        for (auto &k : c->get_children()) {
            if (k->get_offset() != o || k->get_size() <= 0) tiles = false;
            o += k->get_size();
            if (k->get_depth() != c->get_depth() + 1 || k->is_root()) depth = false;
            if (regular && part && k->get_size() <= minsize) leafsize = false;
            st.push_back({k.get(), part});
        }
        if (!c->is_leaf() && o != c->get_offset() + c->get_size()) tiles = false;
        if (c->is_leaf()) { maxd = std::max(maxd, c->get_depth()); mind = std::min(mind, c->get_depth()); if (!part) once = false; }
        if (int(c->get_center().size()) != g.dim) { cen = false; continue; }
        std::vector<double> m(g.dim, 0.);
        double tw = 0, ext = 0;
        for (int i = 0; i < c->get_size(); i++) {
            int v = perm[c->get_offset() + i];
            tw += w[v];
            for (int p = 0; p < g.dim; p++) m[p] += w[v] * g.x[size_t(v) * g.dim + p];
        }
        for (int i = 0; i < c->get_size(); i++) {
            int v    = perm[c->get_offset() + i];
            double d = 0;
            for (int p = 0; p < g.dim; p++) d += std::pow(g.x[size_t(v) * g.dim + p] - c->get_center()[p], 2);
            d = std::sqrt(d);
            ext = std::max(ext, d + rad[v]);
            if (d + rad[v] > c->get_radius() * (1 + 1e-12) + 1e-12) encl = false;
        }
        if (std::abs(ext - c->get_radius()) > 1e-9 * (1 + ext)) encl = false;
        for (int p = 0; p < g.dim; p++)
            if (std::abs(m[p] / tw - c->get_center()[p]) > 1e-9 * (1 + std::abs(m[p] / tw))) cen = false;
    }
    R.check(tiles, "children tile their parent", what);
    R.check(depth, "depth increases by one", what);
    R.check(encl, "radius encloses the cluster's points", what);
    R.check(cen, "center is the weighted mean", what);
    R.check(rank, "rank is the partition's number below the partition, -1 above", what);
    R.check(counter, "counters are distinct on a level", what);
    R.check(data, "tree data is shared", what);
    R.check(leafsize, "splitting keeps clusters above the minimal size", what);
    R.check(once, "every leaf lies below the partition", what);
    R.check(root.get_maximal_depth() == maxd && root.get_minimal_depth() == mind, "minimal and maximal depth", what + S(root.get_minimal_depth(), root.get_maximal_depth(), mind, maxd));
    // the partition
    auto &P = root.get_clusters_on_partition();
    bool pt = int(P.size()) == parts;
    if (pt) {
        std::vector<std::pair<int, int>> iv;
        for (int p = 0; p < parts; p++) {
            if (!P[p] || P[p]->get_rank() != p || &root.get_cluster_on_partition(p) != P[p] || !is_cluster_on_partition(*P[p])) { pt = false; break; }
            iv.push_back({P[p]->get_offset(), P[p]->get_size()});
            if (!given.empty() && (iv.back().first != given[2 * p] || iv.back().second != given[2 * p + 1])) pt = false;
        }
        int o = 0;
        for (auto &x : iv) {
            if (x.first != o) pt = false;
            o += x.second;
        }
        if (o != n) pt = false;
    }
    R.check(pt, "clusters on the partition tile the root in order", what);
    if (!given.empty() && bij) {
        bool loc = root.is_permutation_local();
        for (int p = 0; p < parts; p++)
            for (int i = 0; i < given[2 * p + 1]; i++) {
                int v = perm[given[2 * p] + i];
                if (v < given[2 * p] || v >= given[2 * p] + given[2 * p + 1]) loc = false;
            }
        R.check(loc, "a given partition is kept by the permutation", what);
    } else R.check(!root.is_permutation_local(), "permutation declared local without a given partition", what);
}
static void one(Run &R) {
    int dim = R.irand(2, 3), children = R.irand(2, 4), parts = R.irand(1, 5), kind = R.irand(0, 3);
    if (R.irand(0, 3) == 0) parts = R.pick(std::vector<int>{4, 8, 9, 16, 6, 7});
    int n = std::max(R.irand(2, 200), 3 * parts * children * children), minsize = parts == 1 ? R.irand(0, 12) : R.irand(0, std::max(0, n / (4 * parts * children)));
    minsize = std::min(minsize, n / 2 - 1);
    Geo g(R, n, dim);
    std::vector<double> rad(n), w(n);
    bool rw = R.irand(0, 1);
    for (int i = 0; i < n; i++) { rad[i] = rw ? R.drand(0, 0.3) : 0.; w[i] = rw ? R.drand(0.1, 2.) : 1.; }
    std::vector<int> given;
    if (R.irand(0, 2) == 0) {
        std::vector<int> cut{0, n};
        while (int(cut.size()) < parts + 1) {
            int c = R.irand(1, n - 1);
            if (std::find(cut.begin(), cut.end(), c) == cut.end()) cut.push_back(c);
        }
        std::sort(cut.begin(), cut.end());
        for (int p = 0; p < parts; p++) { given.push_back(cut[p]); given.push_back(cut[p + 1] - cut[p]); }
    }
    ClusterTreeBuilder<double> b;
    b.set_minclustersize(minsize);
    if (kind & 1) b.set_direction_computation_strategy(std::make_shared<ComputeBoundingBox<double>>());
    int sp = R.irand(0, 2);
    if (sp == 1 && given.empty() && parts > children) sp = 0; // uneven parts need not divide down to the partition's depth (the library logs an error)
    if (sp == 1) b.set_splitting_strategy(std::make_shared<GeometricSplitting<double>>());
    if (sp == 2 && parts == 1) b.set_splitting_strategy(std::make_shared<Uneven>());
    std::string what = S("n", n, "dim", dim, "children", children, "parts", parts, "minsize", minsize, "dir", kind & 1, "split", sp, "given", given.size(), "weights", rw);
    if (sp == 2 && parts != 1) sp = 0;
    for (int rep = 0; rep < 2; rep++) { // a builder can be used again
        R.at("create_cluster_tree", what);
        if (rw) {
            auto t = b.create_cluster_tree(n, dim, g.x.data(), rad.data(), w.data(), children, parts, given.empty() ? nullptr : given.data());
            tree(R, t, g, rad, w, parts, given, minsize, sp != 2, what);
        } else if (given.empty()) {
            auto t = b.create_cluster_tree(n, dim, g.x.data(), children, parts);
            tree(R, t, g, rad, w, parts, given, minsize, sp != 2, what);
        } else {
            auto t = b.create_cluster_tree(n, dim, g.x.data(), children, parts, given.data());
            tree(R, t, g, rad, w, parts, given, minsize, sp != 2, what);
            auto moved = std::make_shared<Cl>(std::move(t));
            tree(R, *moved, g, rad, w, parts, given, minsize, sp != 2, what + "moved ");
        }
    }
}
int main(int argc, char **argv) {
    Run R;
    R.init(argc, argv);
    for (int i = 0; i < (R.thorough ? 20000 : 2000) && !R.out_of_time(); i++) one(R);
    return R.done();
}
