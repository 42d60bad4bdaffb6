// Hierarchical triangular solves and LU / Cholesky factorisations.
#include "hm.hpp"
#include <htool/hmatrix/linalg/add_lrmat_hmatrix.hpp>
using namespace hv;
using namespace htool;
template <typename T> D<T> val(const LowRankMatrix<T> &l, int m, int n) {
    if (l.get_U().nb_rows() != m || l.get_V().nb_cols() != n || l.get_U().nb_cols() != l.get_V().nb_rows()) return D<T>(1, 1, T(NAN));
    return from_h(l.get_U()).mul(from_h(l.get_V()));
}
template <typename T> void solves(Run &R) {
    Opt o;
    o.nmax    = 36;
    o.diagdom = true;
    auto c    = rnd_case<T>(R, 'N', 'N', o);
    auto M    = expand(*c.h);
    int n     = M.r;
    // the other cluster tree, with the same number of partitions and children
    Case<T> oc;
    int kdim = R.irand(2, 3), parts = 1;
    { // same structure parameters as c.t
        parts = c.t->get_clusters_on_partition().size();
        int m = std::max(R.irand(1, 30), 8 * parts), mn = std::min(R.irand(1, 12), parts > 1 ? m / (8 * parts) : m - 1);
        oc.gt = std::make_shared<Geo>(R, m, kdim);
        oc.t  = rnd_cluster(R, *oc.gt, parts, R.irand(2, 4), std::max(mn, 1));
    }
    T al = Rnd<T>::get(R) * 2.;
    if (R.irand(0, 3) == 0) al = T(1);
    int k = oc.t->get_size();
    for (char side : {'L', 'R'})
        for (char u : {'L', 'U'})
            for (char t : {'N', 'T', 'C'})
                for (char dg : {'N', 'U'}) {
                    std::string a = c.what + S("k", k, "side", side, u, t, dg, "alpha", al);
                    auto Mx = M;
                    if (dg == 'U') for (int i = 0; i < n; i++) Mx(i, i) = 1;
                    auto Tr = Mx.tri(u, dg).op(t);
                    if (dg == 'U' && n > 12) continue; // unit triangular with large entries is badly conditioned
                    auto solved = [&](const char *nm, const D<T> &X, const D<T> &B, double tol) {
                        auto got = side == 'L' ? Tr.mul(X) : X.mul(Tr);
                        auto ref = B.axpby(al, T(0), B);
                        double sc = Tr.norm() * X.norm() + ref.norm() + 1;
                        R.check(dist(got, ref) <= tol * sc, nm, dd(got, ref));
                    };
                    auto B = side == 'L' ? D<T>::rnd(R, n, R.irand(1, 6)) : D<T>::rnd(R, R.irand(1, 6), n);
                    R.at("triangular hmatrix x matrix", a);
                    auto hb = to_h(B);
                    internal_triangular_hmatrix_matrix_solve(side, u, t, dg, al, *c.h, hb);
                    solved("triangular_hmatrix_matrix_solve", from_h(hb), B, 1e-9);
                    R.at("triangular hmatrix x lrmat", a);
                    int rk = R.irand(0, 3);
                    LowRankMatrix<T> l(1e-13);
                    int lm = side == 'L' ? n : R.irand(1, 6), ln = side == 'L' ? R.irand(1, 6) : n;
                    l.get_U() = to_h(D<T>::rnd(R, lm, rk));
                    l.get_V() = to_h(D<T>::rnd(R, rk, ln));
                    auto L0   = val(l, lm, ln);
                    if (rk) {
                        internal_triangular_hmatrix_lrmat_solve(side, u, t, dg, al, *c.h, l);
                        solved("triangular_hmatrix_lrmat_solve", val(l, lm, ln), L0, 1e-9);
                    }
                    R.at("triangular hmatrix x hmatrix", a);
                    Gen<T> gen(side == 'L' ? D<T>::rnd(R, n, k) : D<T>::rnd(R, k, n));
                    HMatrixTreeBuilder<T> b(side == 'L' ? *c.t : *oc.t, side == 'L' ? *oc.t : *c.t, 1e-13, 10., 'N', 'N', -1, -1, -1);
                    b.set_admissibility_condition(std::make_shared<RandAdm>(R.g(), R.pick(std::vector<int>{0, 20, 50, 80}), false));
                    b.set_low_rank_generator(std::make_shared<RandLR<T>>(R.g(), 3));
                    auto hh = b.build(gen);
                    auto H0 = expand(hh);
                    internal_triangular_hmatrix_hmatrix_solve(side, u, t, dg, al, *c.h, hh);
                    solved("triangular_hmatrix_hmatrix_solve", expand(hh), H0, 1e-8);
                    R.check(close(expand(*c.h), M, 0), "triangular factor modified", "the triangular factor changed");
                }
}
template <typename T> void lu(Run &R) {
    Opt o;
    o.nmax    = 60;
    o.diagdom = true;
    auto c    = rnd_case<T>(R, 'N', 'N', o);
    auto M    = expand(*c.h);
    int n     = M.r;
    // user numbering of the same matrix
    auto &p = c.t->get_permutation();
    D<T> Mu(n, n);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) Mu(p[i], p[j]) = M(i, j);
    R.at("lu_factorization(hmatrix)", c.what);
    lu_factorization(*c.h);
    for (char t : {'N', 'T', 'C'}) {
        R.at("lu_solve(hmatrix)", c.what + t);
        auto B = D<T>::rnd(R, n, R.irand(1, 5));
        auto X = to_h(B);
        internal_lu_solve(t, *c.h, X);
        auto got = M.op(t).mul(from_h(X));
        R.check(close(got, B, 1e-8), std::string("hmatrix LU solve trans ") + t, dd(got, B));
        X = to_h(B);
        lu_solve(t, *c.h, X);
        got = Mu.op(t).mul(from_h(X));
        R.check(close(got, B, 1e-8), std::string("hmatrix LU solve in user numbering trans ") + t, dd(got, B));
    }
}
template <typename T> void chol(Run &R) {
    for (char u : {'L', 'U'}) {
        Opt o;
        o.nmax = 60;
        o.spd  = true;
        auto c = rnd_case<T>(R, sizeof(T) == sizeof(double) ? 'S' : 'H', u, o);
        auto M = expand(*c.h);
        int n  = M.r;
        auto &p = c.t->get_permutation();
        D<T> Mu(n, n);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++) Mu(p[i], p[j]) = M(i, j);
        R.at("cholesky_factorization(hmatrix)", c.what);
        cholesky_factorization(u, *c.h);
        auto B = D<T>::rnd(R, n, R.irand(1, 5));
        R.at("cholesky_solve(hmatrix)", c.what);
        auto X = to_h(B);
        internal_cholesky_solve(u, *c.h, X);
        auto got = M.mul(from_h(X));
        R.check(close(got, B, 1e-8), std::string("hmatrix Cholesky solve uplo ") + u, dd(got, B));
        X = to_h(B);
        cholesky_solve(u, *c.h, X);
        got = Mu.mul(from_h(X));
        R.check(close(got, B, 1e-8), std::string("hmatrix Cholesky solve in user numbering uplo ") + u, dd(got, B));
    }
}
int main(int argc, char **argv) {
    Run R;
    R.init(argc, argv);
    for (int i = 0; i < (R.thorough ? 3000 : 150) && !R.out_of_time(); i++) {
        solves<double>(R); solves<cd>(R);
        for (int q = 0; q < 3; q++) { lu<double>(R); lu<cd>(R); chol<double>(R); chol<cd>(R); }
    }
    return R.done();
}
