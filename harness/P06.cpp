// P06: a hierarchical matrix approximates the matrix of its generator within epsilon.
#include "hm.hpp"
#include <htool/hmatrix/lrmat/SVD.hpp>
#include <htool/hmatrix/lrmat/fullACA.hpp>
#include <htool/hmatrix/lrmat/partialACA.hpp>
#include <htool/hmatrix/lrmat/sympartialACA.hpp>
using namespace hv;
using namespace htool;
template <typename T> T kval(double r, double u, char sy);
template <> double kval<double>(double r, double, char) { return 1 / (0.05 + r); }
template <> cd kval<cd>(double r, double u, char sy) { return std::exp(cd(0, sy == 'H' ? 0.7 * u : r)) / (0.05 + r); }
template <typename T> struct IntG : VirtualInternalGenerator<T> {
    const D<T> &A;
    explicit IntG(const D<T> &a) : A(a) {}
    void copy_submatrix(int M, int N, int r0, int c0, T *p) const override {
        for (int j = 0; j < N; j++) for (int i = 0; i < M; i++) p[i + size_t(M) * j] = A(r0 + i, c0 + j);
    }
};
template <typename T> struct DenseGen : VirtualDenseBlocksGenerator<T> {
    const D<T> &A;
    mutable int calls = 0;
    explicit DenseGen(const D<T> &a) : A(a) {}
    void copy_dense_blocks(const std::vector<int> &M, const std::vector<int> &N, const std::vector<int> &rows, const std::vector<int> &cols, std::vector<T *> &ptr) const override {
        calls++;
        for (size_t k = 0; k < M.size(); k++)
            for (int j = 0; j < N[k]; j++) for (int i = 0; i < M[k]; i++) ptr[k][i + size_t(M[k]) * j] = A(rows[k] + i, cols[k] + j);
    }
};
template <typename T, typename C> struct Fickle : VirtualLowRankGenerator<T, double> { // gives up on some blocks, whatever it has prepared by then
    C c;
    unsigned seed;
    explicit Fickle(unsigned sd) : seed(sd) {}
    void copy_low_rank_approximation(const VirtualInternalGenerator<T> &A, const Cl &t, const Cl &s, double eps, int &rank, Matrix<T> &U, Matrix<T> &V) const override {
        unsigned h = (seed + t.get_offset() * 31u + s.get_offset() * 17u + t.get_size() * 7u) % 6u;
        if (h > 2) return c.copy_low_rank_approximation(A, t, s, eps, rank, U, V);
        rank = -1;
        if (h == 1) U.resize(t.get_size(), h);
        if (h == 2) V.resize(h, s.get_size());
    }
};
template <typename T> void one(Run &R, char sym, char uplo) {
    Opt o;
    o.nmax  = 90;
    o.parts = R.irand(1, 3);
    if (R.irand(0, 2) == 0) o.part = R.irand(0, o.parts - 1);
    Case<T> c;
    make_trees<T>(R, c, sym != 'N' || R.irand(0, 1), o);
    int kind = R.irand(0, 3);
    if (kind >= 2) { // the heuristics are claimed on smooth kernels of points in general position
        auto fresh = [&](std::shared_ptr<Geo> g, int parts) {
            for (auto &x : g->x) x = R.drand();
            ClusterTreeBuilder<double> b;
            b.set_minclustersize(R.irand(2, 6));
            return std::make_shared<Cl>(b.create_cluster_tree(g->n, g->dim, g->x.data(), 2, parts));
        };
        bool same = c.t == c.s;
        if (c.gt->n < 8 * o.parts || c.gs->n < 8 * o.parts) return;
        c.t = fresh(c.gt, o.parts);
        c.s = same ? c.t : fresh(c.gs, o.parts);
        if (same) c.gs = c.gt;
    }
    int m = c.t->get_size(), n = c.s->get_size(), dim = c.gt->dim;
    D<T> A(m, n), Ac(m, n);
    bool rough = kind <= 1 && R.irand(0, 1);
    for (int i = 0; i < m; i++)
        for (int j = 0; j < n; j++) {
            double r = 0, u = 0;
            for (int p = 0; p < dim; p++) { double d = c.gt->x[size_t(i) * dim + p] - c.gs->x[size_t(j) * dim + p]; r += d * d; u += (p + 1) * d; }
            A(i, j) = rough ? Rnd<T>::get(R) : kval<T>(std::sqrt(r), u, sym);
        }
    if (rough && sym != 'N') A = A.sym('L', sym == 'H');
    auto &pt = c.t->get_permutation(), &ps = c.s->get_permutation();
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) Ac(i, j) = A(pt[i], ps[j]);
    double eps = std::pow(10., -R.irand(1, 8)), eta = R.pick(std::vector<double>{0.9, 2., 10., 1000.});
    if (kind >= 2) eta = R.pick(std::vector<double>{0.9, 1.5});
    int req = R.irand(0, 4) ? -1 : R.irand(1, 5);
    HMatrixTreeBuilder<T, double> b(*c.t, *c.s, eps, eta, sym, uplo, req, o.part, o.part);
    const char *nm[] = {"SVD", "fullACA", "partialACA", "sympartialACA"};
    if (kind == 0) b.set_low_rank_generator(std::make_shared<SVD<T, double>>());
    if (kind == 1) b.set_low_rank_generator(std::make_shared<fullACA<T, double>>());
    if (kind == 2) b.set_low_rank_generator(std::make_shared<partialACA<T, double>>());
    bool fickle = kind <= 1 && R.irand(0, 2) == 0;
    unsigned fs = R.irand(0, 100);
    if (fickle && kind == 0) b.set_low_rank_generator(std::make_shared<Fickle<T, SVD<T, double>>>(fs));
    if (fickle && kind == 1) b.set_low_rank_generator(std::make_shared<Fickle<T, fullACA<T, double>>>(fs));
    int adm = kind <= 1 ? R.irand(0, 2) : 0, den = R.irand(10, 90);
    if (adm) b.set_admissibility_condition(std::make_shared<RandAdm>(R.g(), den, sym != 'N'));
    bool dg = R.irand(0, 2) == 0, internal = R.irand(0, 1);
    auto dgen = std::make_shared<DenseGen<T>>(Ac);
    if (dg) b.set_dense_blocks_generator(dgen);
    std::string k = nm[kind];
    R.at("build with " + k, c.what + S(tn<T>(), "symmetry", sym, uplo, "epsilon", eps, "eta", eta, "required rank", req, "partition", o.part, "rough", rough, "compressor that gives up", fickle, fs, "admissibility", adm, den, "dense blocks generator", dg, "internal generator", internal));
    Gen<T> gen(A);
    IntG<T> igen(Ac);
    auto H = internal ? b.build(igen) : b.build(gen);
    int r0 = H.get_target_cluster().get_offset(), c0 = H.get_source_cluster().get_offset();
    R.check(H.get_epsilon() == eps, "parameters kept by the matrix", "epsilon or eta");
    auto ref = Ac.sub(r0, H.get_target_cluster().get_size(), c0, H.get_source_cluster().get_size());
    double fac = kind <= 1 ? 1 + 1e-6 : 100, facl = kind <= 1 ? 1 + 1e-6 : 500; // the two heuristics only estimate the error
    // leaves
    std::vector<const HMatrix<T, double> *> st{&H};
    int nd = 0, nl = 0;
    while (!st.empty()) {
        auto *h = st.back();
        st.pop_back();
        for (auto &q : h->get_children()) st.push_back(q.get());
        if (!h->is_leaf()) continue;
        int ro = h->get_target_cluster().get_offset(), co = h->get_source_cluster().get_offset(), M = h->get_target_cluster().get_size(), N = h->get_source_cluster().get_size();
        auto B = Ac.sub(ro, M, co, N);
        if (h->is_dense()) {
            nd++;
            auto d = from_h(*h->get_dense_data());
            R.check(d.r == M && d.c == N && d.d == B.d, "dense leaves hold the coefficients of the generator", S("leaf", ro, co, M, N));
        } else if (h->is_low_rank()) {
            nl++;
            auto *l = h->get_low_rank_data();
            R.check(l->rank_of() >= 0 && l->get_U().nb_rows() == M && l->get_V().nb_cols() == N && l->get_V().nb_rows() == l->rank_of() && l->get_epsilon() == eps, k + " leaf shape", S("leaf", ro, co, M, N));
            if (req > 0) R.check(l->rank_of() <= req, k + " leaf exceeds the required rank", S("rank", l->rank_of()));
            double e = dist(leafdense(*h), B);
            if (req < 0) R.check(e <= facl * eps * B.norm() + 1e-11, k + " leaf error above the tolerance", S("relative error", e / B.norm(), "leaf", ro, co, M, N, "rank", l->rank_of()));
        } else R.fail("a leaf without data", R.cur);
    }
    if (req < 0) {
        auto E = expand(H);
        R.check(dist(E, ref) <= fac * eps * ref.norm() + 1e-10, k + " matrix error above the tolerance", dd(E, ref) + S("dense", nd, "low-rank", nl));
        // the same through a product, in the user's numbering on the source
        std::vector<T> x(n), y(ref.r, T(0));
        for (auto &v : x) v = Rnd<T>::get(R);
        openmp_internal_add_hmatrix_vector_product('N', T(1), H, x.data(), T(0), y.data());
        D<T> X(n, 1), Y(ref.r, 1);
        X.d = x;
        Y.d = y;
        double xn = X.norm();
        R.check(dist(Y, ref.mul(X)) <= fac * eps * ref.norm() * xn + 1e-9, k + " product error above the tolerance", dd(Y, ref.mul(X)));
    }
}
template <typename T> void all(Run &R) {
    for (char s : syms<T>())
        for (char u : {'L', 'U'}) one<T>(R, s, s == 'N' ? 'N' : u);
}
int main(int argc, char **argv) {
    Run R;
    R.init(argc, argv);
    R.limit = R.thorough ? 300 : 45;
    for (int i = 0; i < (R.thorough ? 4000 : 400) && !R.out_of_time(); i++) { all<double>(R); all<cd>(R); }
    return R.done();
}
