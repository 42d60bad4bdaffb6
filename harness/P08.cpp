// singular value truncation and recompression of low-rank blocks
#include "hm.hpp"
#include <htool/hmatrix/lrmat/linalg/interface.hpp>
#include <htool/hmatrix/lrmat/utils/recompression.hpp>
#include <htool/matrix/utils/SVD_truncation.hpp>
using namespace hv;
using namespace htool;
template <typename T> D<T> orth(D<T> A) { // columns orthonormalised (twice)
    for (int pass = 0; pass < 2; pass++)
        for (int j = 0; j < A.c; j++) {
            for (int k = 0; k < j; k++) {
                T s = 0;
                for (int i = 0; i < A.r; i++) s += T(cj(A(i, k))) * A(i, j);
                for (int i = 0; i < A.r; i++) A(i, j) -= s * A(i, k);
            }
            double n = 0;
            for (int i = 0; i < A.r; i++) n += std::norm(A(i, j));
            for (int i = 0; i < A.r; i++) A(i, j) /= std::sqrt(n);
        }
    return A;
}
// a matrix with given singular values
template <typename T> D<T> with_sv(Run &R, int m, int n, const std::vector<double> &sv) {
    auto U = orth(D<T>::rnd(R, m, sv.size())), V = orth(D<T>::rnd(R, n, sv.size()));
    for (size_t k = 0; k < sv.size(); k++) for (int i = 0; i < m; i++) U(i, k) *= sv[k];
    return U.mul(V.op('C'));
}
std::vector<double> spectrum(Run &R, int k) {
    std::vector<double> s(k);
    double v = R.drand(0.5, 20), q = R.pick(std::vector<double>{1., 0.7, 0.3, 0.1, 0.02});
    for (int i = 0; i < k; i++, v *= q) s[i] = v;
    if (R.irand(0, 3) == 0) { int z = R.irand(0, k - 1); for (int i = std::max(1, z); i < k; i++) s[i] = 0; }
    return s;
}
template <typename T> D<T> lr_dense(const LowRankMatrix<T, double> &L) { return from_h(L.get_U()).mul(from_h(L.get_V())); }
template <typename T> void svd(Run &R) {
    int m = R.irand(1, 14), n = R.irand(1, 14), k = std::min(m, n);
    auto sv0 = spectrum(R, k);
    auto A   = with_sv<T>(R, m, n, sv0);
    double eps = R.irand(0, 6) ? std::pow(10., -R.drand(0.1, 10)) : 0;
    auto H = to_h(A);
    Matrix<T> u(R.irand(1, m), R.irand(1, m)), vt(R.irand(1, n), n);
    std::vector<double> sv(R.irand(0, k));
    std::string what = S(tn<T>(), "rows", m, "cols", n, "epsilon", eps, "first and last singular values", sv0[0], sv0[k - 1]);
    R.at("SVD_truncation", what);
    int r = SVD_truncation(H, eps, u, vt, sv);
    if ((int)sv.size() != k || u.nb_rows() != m || u.nb_cols() != m || vt.nb_rows() != n || vt.nb_cols() != n) { R.fail("SVD_truncation shapes", R.cur); return; }
    auto fu = from_h(u), fv = from_h(vt);
    D<T> I(m, m), J(n, n);
    for (int i = 0; i < m; i++) I(i, i) = 1;
    for (int i = 0; i < n; i++) J(i, i) = 1;
    R.check(close(fu.op('C').mul(fu), I) && close(fv.mul(fv.op('C')), J), "SVD_truncation factors are not unitary", "");
    D<T> Sg(m, n);
    for (int i = 0; i < k; i++) Sg(i, i) = sv[i];
    R.check(close(fu.mul(Sg).mul(fv), A), "SVD_truncation does not factorise the matrix", dd(fu.mul(Sg).mul(fv), A));
    double nn = 0, tail = 0;
    for (double x : sv) nn += x * x;
    for (int i = r; i < k; i++) tail += sv[i] * sv[i];
    R.check(r >= 1 && r <= k, "SVD_truncation rank out of range", S("rank", r));
    if (r < 1 || r > k) return;
    R.check(std::sqrt(tail) <= eps * std::sqrt(nn) * (1 + 1e-9), "SVD_truncation drops more than the tolerance", S("rank", r, "relative tail", std::sqrt(tail / nn)));
    if (r > 1) R.check(std::sqrt(tail + sv[r - 1] * sv[r - 1]) >= eps * std::sqrt(nn) * (1 - 1e-9), "SVD_truncation keeps more than needed", S("rank", r, "relative tail of one less", std::sqrt((tail + sv[r - 1] * sv[r - 1]) / nn)));
}
template <typename T> void recomp(Run &R) {
    int m = R.irand(1, 14), n = R.irand(1, 14), r = R.irand(1, 12);
    if (R.irand(0, 1)) r = std::min(r, std::min(m, n)); // the two branches
    double eps = std::pow(10., -R.drand(0.3, 10));
    D<T> U = D<T>::rnd(R, m, r), V = D<T>::rnd(R, r, n);
    double q = R.pick(std::vector<double>{1., 0.5, 0.1, 0.01}), s = R.drand(0.5, 30);
    for (int k = 0; k < r; k++, s *= q) for (int i = 0; i < m; i++) U(i, k) *= s;
    if (R.irand(0, 3) == 0 && r > 1) for (int i = 0; i < m; i++) U(i, r - 1) = U(i, 0); // redundant columns
    LowRankMatrix<T, double> L(eps);
    L.get_U() = to_h(U);
    L.get_V() = to_h(V);
    std::string what = S(tn<T>(), "rows", m, "cols", n, "rank", r, "epsilon", eps, "decay", q);
    auto A = U.mul(V);
    R.at("recompression", what);
    if (R.irand(0, 1)) recompression(L);
    else {
        const auto &cl = L;
        auto p = recompression(cl);
        R.check(close(lr_dense(L), A), "recompression modified its argument", "");
        L = *p;
    }
    auto u = from_h(L.get_U()), v = from_h(L.get_V());
    if (u.r != m || v.c != n || u.c != v.r) { R.fail("recompression shapes", S("U", u.r, u.c, "V", v.r, v.c) + R.cur); return; }
    double e = dist(u.mul(v), A), nn = A.norm();
    R.check(u.c <= std::min(r, std::min(m, n)), "recompression increases the rank", S("rank", u.c));
    R.check(L.get_epsilon() == eps, "recompression changes the tolerance", "");
    R.check(e <= eps * nn * (1 + 1e-6) + 1e-12 * (U.norm() * V.norm()), "recompression error above the tolerance", S("relative error", e / nn));
    // one less would not be enough
    if (u.c > 1) {
        auto H = to_h(A);
        Matrix<T> a(m, m), b(n, n);
        std::vector<double> sv;
        SVD_truncation(H, 0., a, b, sv);
        double t = 0;
        for (size_t k = u.c - 1; k < sv.size(); k++) t += sv[k] * sv[k];
        R.check(std::sqrt(t) >= eps * nn * (1 - 1e-6) - 1e-12 * U.norm() * V.norm(), "recompression keeps more than needed", S("rank", u.c));
    }
}
// accumulation of low-rank blocks truncates at the tolerance of the block
template <typename T> void accumulate(Run &R) {
    int m = R.irand(2, 12), n = R.irand(2, 12), r1 = R.irand(1, 4), r2 = R.irand(1, 4);
    double eps = std::pow(10., -R.drand(1, 8));
    LowRankMatrix<T, double> A(eps), B(eps), C(eps);
    auto set = [&](LowRankMatrix<T, double> &L, int r) { L.get_U() = to_h(D<T>::rnd(R, m, r)); L.get_V() = to_h(D<T>::rnd(R, r, n)); };
    set(C, r1);
    set(A, r2);
    auto ref = lr_dense(A).axpby(T(1), T(1), lr_dense(C));
    Geo g(R, m, 2), h(R, n, 2);
    auto t = rnd_cluster(R, g, 1, 2, 1), s = rnd_cluster(R, h, 1, 2, 1);
    R.at("add_lrmat_lrmat", S(tn<T>(), "rows", m, "cols", n, "ranks", r1, r2, "epsilon", eps));
    add_lrmat_lrmat(A, *t, *s, C, *t, *s);
    double e = dist(lr_dense(C), ref);
    R.check(e <= eps * ref.norm() * (1 + 1e-6) + 1e-10, "accumulation error above the tolerance", S("relative error", e / ref.norm()));
    R.check(C.rank_of() <= std::min(r1 + r2, std::min(m, n)), "accumulation rank", S("rank", C.rank_of()));
}
int main(int argc, char **argv) {
    Run R;
    R.init(argc, argv);
    R.limit = R.thorough ? 300 : 40;
    for (int i = 0; i < (R.thorough ? 40000 : 3000) && !R.out_of_time(); i++) {
        svd<double>(R);
        svd<cd>(R);
        recomp<double>(R);
        recomp<cd>(R);
        accumulate<double>(R);
        accumulate<cd>(R);
    }
    return R.done();
}
