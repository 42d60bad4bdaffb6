// Random hierarchical matrices and an independent dense expansion of them.
#pragma once
#include <htool/clustering/clustering.hpp>
#include <htool/hmatrix/hmatrix.hpp>
#include <htool/hmatrix/hmatrix_output.hpp>
#include <htool/hmatrix/linalg/interface.hpp>
#include <htool/hmatrix/lrmat/linalg/interface.hpp>
#include <htool/hmatrix/tree_builder/tree_builder.hpp>
#include <htool/matrix/linalg/interface.hpp>
#include <memory>
#define HTOOL_MATRIX_HPP 1
#include "common.hpp"
namespace hv {
using Cl = htool::Cluster<double>;
struct Geo {
    int n, dim;
    std::vector<double> x;
    Geo(Run &R, int n_, int dim_) : n(n_), dim(dim_), x(size_t(n_) * dim_) {
        int kind = R.irand(0, 3);
        for (int i = 0; i < n; i++)
            for (int p = 0; p < dim; p++) {
                double v = R.drand();
                if (kind == 1) v = R.irand(0, 4);                 // many equal coordinates
                if (kind == 2) v = v * 0.1 + 3 * R.irand(0, 1);   // two clouds
                if (kind == 3 && p == 0) v = v * 100;             // anisotropic
                x[size_t(i) * dim + p] = v;
            }
    }
};
inline std::shared_ptr<Cl> rnd_cluster(Run &R, const Geo &g, int parts, int children, int minsize) {
    htool::ClusterTreeBuilder<double> b;
    b.set_minclustersize(minsize);
    if (R.irand(0, 2) == 0) b.set_direction_computation_strategy(std::make_shared<htool::ComputeBoundingBox<double>>());
    return std::make_shared<Cl>(b.create_cluster_tree(g.n, g.dim, g.x.data(), nullptr, nullptr, children, parts, nullptr));
}
template <typename T> struct Gen : htool::VirtualGenerator<T> {
    D<T> A;
    explicit Gen(D<T> a) : A(std::move(a)) {}
    void copy_submatrix(int M, int N, const int *rows, const int *cols, T *ptr) const override {
        for (int i = 0; i < M; i++)
            for (int j = 0; j < N; j++) ptr[i + size_t(M) * j] = A(rows[i], cols[j]);
    }
};
// low-rank leaves of arbitrary small rank, rank 0 included: the algebra is then exact
template <typename T> struct RandLR : htool::VirtualLowRankGenerator<T, double> {
    mutable std::mt19937_64 g;
    int maxrank;
    RandLR(unsigned long s, int mr) : g(s), maxrank(mr) {}
    void copy_low_rank_approximation(const htool::VirtualInternalGenerator<T> &, const Cl &t, const Cl &s, double, int &rank, htool::Matrix<T> &U, htool::Matrix<T> &V) const override {
#pragma omp critical(hv_randlr)
        {
            Run R;
            R.g.seed(g());
            rank = R.irand(0, maxrank);
            U.resize(t.get_size(), rank);
            V.resize(rank, s.get_size());
            for (int i = 0; i < t.get_size(); i++)
                for (int k = 0; k < rank; k++) U(i, k) = Rnd<T>::get(R);
            for (int i = 0; i < s.get_size(); i++)
                for (int k = 0; k < rank; k++) V(k, i) = Rnd<T>::get(R);
        }
    }
};
struct RandAdm : htool::VirtualAdmissibilityCondition<double> {
    unsigned long seed;
    int den;
    bool disjoint;
    RandAdm(unsigned long s, int d, bool dj) : seed(s), den(d), disjoint(dj) {}
    bool ComputeAdmissibility(const Cl &t, const Cl &s, double) const override {
        if (disjoint && !(t.get_offset() + t.get_size() <= s.get_offset() || s.get_offset() + s.get_size() <= t.get_offset())) return false;
        if (t.get_size() == 0 || s.get_size() == 0) return false;
        std::mt19937_64 h(seed + 1000003ul * t.get_offset() + 10007ul * t.get_size() + 31ul * s.get_offset() + s.get_size());
        h();
        return int(h() % 100) < den;
    }
};
template <typename T> D<T> leafdense(const htool::HMatrix<T, double> &h) {
    int m = h.get_target_cluster().get_size(), n = h.get_source_cluster().get_size();
    if (h.is_dense()) {
        auto d = from_h(*h.get_dense_data());
        if (d.r != m || d.c != n) throw std::runtime_error("leaf of wrong size");
        if (h.get_symmetry() != 'N') d = d.sym(h.get_UPLO(), h.get_symmetry() == 'H');
        return d;
    }
    auto *l = h.get_low_rank_data();
    auto U = from_h(l->get_U()), V = from_h(l->get_V());
    if (l->get_U().nb_cols() == 0) return D<T>(m, n);
    if (U.r != m || V.c != n || U.c != V.r) throw std::runtime_error("low-rank leaf of wrong size");
    return U.mul(V);
}
// adds the blocks below h to M; sym: a proper ancestor (or h itself) is stored by one triangle
template <typename T> void expand_into(const htool::HMatrix<T, double> &h, D<T> &M, int r0, int c0, char sym) {
    if (h.get_symmetry() != 'N') sym = h.get_symmetry();
    if (h.is_leaf()) {
        auto d = leafdense(h);
        int ro = h.get_target_cluster().get_offset(), co = h.get_source_cluster().get_offset();
        for (int i = 0; i < d.r; i++)
            for (int j = 0; j < d.c; j++) M(ro - r0 + i, co - c0 + j) += d(i, j);
        if (sym != 'N' && ro != co)
            for (int i = 0; i < d.r; i++)
                for (int j = 0; j < d.c; j++) M(co - r0 + j, ro - c0 + i) += sym == 'H' ? T(cj(d(i, j))) : d(i, j);
        return;
    }
    for (auto &c : h.get_children()) expand_into(*c, M, r0, c0, sym);
}
template <typename T> D<T> expand(const htool::HMatrix<T, double> &h) {
    D<T> M(h.get_target_cluster().get_size(), h.get_source_cluster().get_size());
    expand_into(h, M, h.get_target_cluster().get_offset(), h.get_source_cluster().get_offset(), 'N');
    return M;
}
template <typename T> struct Case {
    std::shared_ptr<Geo> gt, gs;
    std::shared_ptr<Cl> t, s;
    D<T> A; // user numbering
    std::unique_ptr<htool::HMatrix<T, double>> h;
    char sym = 'N', uplo = 'N';
    std::string what;
};
struct Opt {
    int nmax = 40;
    int part = -1;          // row of a partition
    bool exact = true;      // random low-rank leaves, otherwise compression of A
    double eps = 1e-12;
    int adm = -1;           // percentage of admissible blocks
    int maxrank = 3;
    bool square = false;    // same tree on both sides even when not symmetric
    bool consistent = true;
    int parts = 0;
    bool diagdom = false;
    bool spd = false;
    int reqrank = -1;
    int children = 0;       // children of both trees
    bool indep = false;     // the source tree has its own number of children and of parts
    bool fixed_trees = false; // reuse the trees passed in
};
template <typename T> void make_trees(Run &R, Case<T> &c, bool same, const Opt &o) {
    int m = R.irand(1, o.nmax), n = same ? m : R.irand(1, o.nmax), dim = R.irand(2, 3);
    int children = o.children ? o.children : R.irand(2, 4), parts = o.parts ? o.parts : R.irand(1, 4), minsize = R.irand(1, 12);
    int minsize2 = R.irand(1, 12);
    int children2 = children, parts2 = parts;
    if (o.indep && !same) {
        children2 = R.irand(2, 3);
        parts2    = R.pick(std::vector<int>{1, 2, 3, 4});
    }
    m = std::max(m, 2 * parts * children);
    n = std::max(n, 2 * parts2 * children2);
    minsize  = std::min(minsize, m - 1);
    minsize2 = std::min(minsize2, n - 1);
    if (parts > 1) minsize = std::min(minsize, m / (2 * parts * children));
    if (o.indep && !same && parts2 == 1 && R.irand(0, 3) == 0) minsize2 = n - 1; // a source without children
    if (parts2 > 1) minsize2 = std::min(minsize2, n / (2 * parts2 * children2));
    if (same) n = m;
    c.gt = std::make_shared<Geo>(R, m, dim);
    c.t = rnd_cluster(R, *c.gt, parts, children, minsize);
    if (same) { c.gs = c.gt; c.s = c.t; }
    else {
        c.gs = std::make_shared<Geo>(R, n, dim);
        c.s = rnd_cluster(R, *c.gs, parts2, children2, minsize2);
    }
    c.what = S("m", m, "n", n, "dim", dim, "children", children, "parts", parts, "minsize", minsize, "source", children2, parts2, minsize2, same ? "same-tree" : "two-trees");
}
template <typename T> void make_h(Run &R, Case<T> &c, char sym, char uplo, const Opt &o) {
    c.sym = sym;
    c.uplo = uplo;
    int m = c.t->get_size(), n = c.s->get_size();
    c.A = D<T>::rnd(R, m, n);
    if (sym != 'N') c.A = c.A.sym('L', sym == 'H');
    if (o.spd) {
        auto B = D<T>::rnd(R, m, m);
        c.A    = B.mul(B.op('C'));
        if (sym == 'S') for (auto &v : c.A.d) v = std::real(v);
        for (int i = 0; i < m; i++) c.A(i, i) = std::real(c.A(i, i)) + 3.0 * m;
    }
    if (o.diagdom) for (int i = 0; i < std::min(m, n); i++) c.A(i, i) += T(3.0 * m);
    Gen<T> gen(c.A);
    htool::HMatrixTreeBuilder<T, double> b(*c.t, *c.s, o.eps, 10., sym, uplo, o.reqrank, o.part, o.part);
    int adm = o.adm >= 0 ? o.adm : R.pick(std::vector<int>{0, 20, 50, 80});
    b.set_admissibility_condition(std::make_shared<RandAdm>(R.g(), adm, sym != 'N' || o.diagdom || o.spd));
    if (o.exact) b.set_low_rank_generator(std::make_shared<RandLR<T>>(R.g(), o.maxrank));
    if (!o.consistent) b.set_block_tree_consistency(false);
    c.h = std::make_unique<htool::HMatrix<T, double>>(b.build(gen));
    c.what += S(tn<T>(), "sym", sym, uplo, "adm", adm, "exact", o.exact, "part", o.part, "consistent", o.consistent);
}
template <typename T> Case<T> rnd_case(Run &R, char sym, char uplo, const Opt &o) {
    Case<T> c;
    make_trees(R, c, sym != 'N' || o.square || o.diagdom, o);
    make_h(R, c, sym, uplo, o);
    return c;
}
template <typename T> std::vector<char> syms() { return {'N', 'S'}; }
template <> inline std::vector<char> syms<cd>() { return {'N', 'S', 'H'}; }
} // namespace hv
