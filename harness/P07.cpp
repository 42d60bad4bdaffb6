// low-rank compressors: shapes, error bound, interpolation on the chosen rows and columns, stopping rule
#include "hm.hpp"
#include <htool/hmatrix/lrmat/SVD.hpp>
#include <htool/hmatrix/lrmat/fullACA.hpp>
#include <htool/hmatrix/lrmat/lrmat.hpp>
#include <htool/hmatrix/lrmat/partialACA.hpp>
#include <htool/hmatrix/lrmat/sympartialACA.hpp>
using namespace hv;
using namespace htool;
// the block of A at the offsets asked for; records what is read
template <typename T> struct IGen : VirtualInternalGenerator<T> {
    D<T> A;
    mutable bool bad = false;
    explicit IGen(D<T> a) : A(std::move(a)) {}
    void copy_submatrix(int M, int N, int r0, int c0, T *p) const override {
        if (M < 0 || N < 0 || r0 < 0 || c0 < 0 || r0 + M > A.r || c0 + N > A.c) { bad = true; return; }
        for (int j = 0; j < N; j++) for (int i = 0; i < M; i++) p[i + size_t(M) * j] = A(r0 + i, c0 + j);
    }
};
template <typename T> D<T> block(Run &R, int m, int n, std::string &what) {
    int k = R.irand(0, 5);
    if (k <= 1) { // exact low rank
        int r = R.irand(1, 4);
        what = S("rank", r);
        return D<T>::rnd(R, m, r).mul(D<T>::rnd(R, r, n));
    }
    if (k <= 3) { // smooth kernel between two clouds at some distance
        double d = R.drand(1.5, 4);
        D<T> A(m, n);
        std::vector<double> x(m), y(n), z(m), w(n);
        for (auto *v : {&x, &z}) for (auto &c : *v) c = R.drand(0, 1);
        for (auto *v : {&y, &w}) for (auto &c : *v) c = d + R.drand(0, 1);
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
            double r = std::hypot(x[i] - y[j], z[i] - w[j]);
            A(i, j)  = std::is_same<T, cd>::value ? T(std::real(std::exp(cd(0, r)) / r)) : T(1 / r);
            if (std::is_same<T, cd>::value) { cd v = std::exp(cd(0, 2 * r)) / r; memcpy((void *)&A(i, j), &v, sizeof(T)); }
        }
        what = S("kernel at distance", d);
        return A;
    }
    if (k == 4) { what = "full rank "; return D<T>::rnd(R, m, n); }
    int r = R.irand(1, 3); // geometrically decaying singular values
    what = S("decaying");
    D<T> A(m, n);
    double s = 1;
    for (int q = 0; q < std::min(m, n); q++, s *= 0.1) A = A.axpby(T(1), T(s), D<T>::rnd(R, m, 1).mul(D<T>::rnd(R, 1, n)));
    return A;
}
template <typename T> D<T> col(const D<T> &a, int j) { return a.sub(0, a.r, j, 1); }
template <typename T> D<T> row(const D<T> &a, int i) { return a.sub(i, 1, 0, a.c); }
template <typename T> void one(Run &R, int kind) {
    const char *names[] = {"SVD", "fullACA", "partialACA", "sympartialACA"};
    std::string nm = names[kind], w;
    int m = R.irand(1, 30), n = R.irand(1, 30);
    if (R.irand(0, 1)) { m = R.irand(20, 40); n = R.irand(20, 40); }
    bool swap = R.irand(0, 1); // which side has the larger offset matters to the symmetric variant
    std::vector<double> xs(2 * (m + n));
    // two clusters of one tree: the first m points and the last n points
    for (int i = 0; i < m + n; i++) { xs[2 * i] = (i < m ? 0 : 10) + R.drand(0, 1); xs[2 * i + 1] = R.drand(0, 1); }
    std::vector<int> part = {0, m, m, n};
    ClusterTreeBuilder<double> b;
    b.set_minclustersize(1000);
    Cl root = b.create_cluster_tree(m + n, 2, xs.data(), 2, 2, part.data());
    const Cl &c0 = root.get_cluster_on_partition(0), &c1 = root.get_cluster_on_partition(1);
    const Cl &t = swap ? c1 : c0, &s = swap ? c0 : c1;
    int M = t.get_size(), N = s.get_size();
    auto B = block<T>(R, M, N, w);
    D<T> A(m + n, m + n);
    for (auto &v : A.d) v = T(1e30); // anything read outside the block would show
    for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) A(t.get_offset() + i, s.get_offset() + j) = B(i, j);
    IGen<T> gen(A);
    double eps  = std::pow(10., -R.irand(1, 9));
    int req     = R.irand(0, 3) ? -1 : R.irand(0, std::min(M, N) + 3);
    std::shared_ptr<VirtualLowRankGenerator<T, double>> g;
    if (kind == 0) g = std::make_shared<SVD<T, double>>();
    if (kind == 1) g = std::make_shared<fullACA<T, double>>();
    if (kind == 2) g = std::make_shared<partialACA<T, double>>();
    if (kind == 3) g = std::make_shared<sympartialACA<T, double>>();
    R.at(nm, S(tn<T>(), "rows", M, "cols", N, "target first", !swap, "epsilon", eps, "required rank", req, w));
    LowRankMatrix<T, double> L(gen, *g, t, s, req, eps);
    R.check(!gen.bad, nm + " reads outside the matrix", "a row or column index out of range");
    auto U = from_h(L.get_U()), V = from_h(L.get_V());
    R.check(L.get_epsilon() == eps, nm + " tolerance", "the block does not keep its tolerance");
    if (req == 0) { R.check(U.r == M && U.c == 0 && V.r == 0 && V.c == N, nm + " required rank zero", "wrong shape"); return; }
    if (U.c == 0 && U.r == 0) { // gave up: the caller keeps a dense block
        R.check(V.r == 0 && V.c == 0, nm + " gave up half-way", "one factor is empty, the other is not");
        if (kind == 0 && req < 0) { // then the smallest sufficient rank is not advantageous
            D<T> C = B;
            auto H = to_h(C);
            Matrix<T> u(M, M), vt(N, N);
            std::vector<double> sv;
            SVD_truncation(H, eps, u, vt, sv);
            double nn = 0, e = 0;
            for (double x : sv) nn += x * x;
            int q = sv.size();
            while (q > 0 && std::sqrt(e + sv[q - 1] * sv[q - 1]) < eps * (1 - 1e-6) * std::sqrt(nn)) { e += sv[q - 1] * sv[q - 1]; q--; }
            R.check((q + 1) * (M + N) > M * N, nm + " gives up although a small rank is enough", S("rank", q));
        }
        if (kind == 0 && req > 0) R.fail(nm + " gives up with a required rank", R.cur);
        // an ACA gives up when the next rank would not be advantageous, or at a zero first row or matrix
        if (kind > 0 && w.find("kernel") == 0 && req < 0 && M >= 25 && N >= 25 && eps >= 0.1) R.fail(nm + " gives up on a smooth kernel", R.cur);
        if (kind > 0 && w.find("rank") == 0 && req < 0) {
            int r = atoi(w.c_str() + 5);
            R.check((r + 2) * (M + N) > M * N, nm + " gives up on a block of low rank", S("rank", r));
        }
        return;
    }
    int r = U.c;
    if (U.r != M || V.c != N || V.r != r) { R.fail(nm + " shape of the factors", S("U", U.r, U.c, "V", V.r, V.c) + R.cur); return; }
    R.check(r >= 1 && r <= std::min(M, N), nm + " rank", S("rank", r, "of a block", M, N));
    if (req > 0) R.check(r <= req, nm + " exceeds the required rank", S("rank", r));
    if (req > 0 && kind == 0) R.check(r == std::min(req, std::min(M, N)), nm + " required rank", S("rank", r));
    if (kind > 0 || req < 0) R.check(r * (M + N) <= M * N, nm + " rank that is not advantageous", S("rank", r));
    auto E = U.mul(V).axpby(T(1), T(-1), B);
    double rel = E.norm() / (1e-300 + B.norm());
    if (req < 0 && kind <= 1) R.check(rel <= eps * (1 + 1e-6) + 1e-13, nm + " error above the tolerance", S("relative error", rel));
    if (kind == 0) { // best approximation of that rank, and not more than needed
        auto H = to_h(B);
        Matrix<T> u(M, M), vt(N, N);
        std::vector<double> sv;
        SVD_truncation(H, eps, u, vt, sv);
        double tail = 0, nn = 0;
        for (size_t k = 0; k < sv.size(); k++) { nn += sv[k] * sv[k]; if ((int)k >= r) tail += sv[k] * sv[k]; }
        R.check(std::abs(E.norm() - std::sqrt(tail)) <= 1e-10 * (1 + std::sqrt(nn)), nm + " is not the truncated singular value decomposition", S("error", E.norm(), "tail", std::sqrt(tail)));
        if (req < 0 && r > 1) R.check(std::sqrt(tail + sv[r - 1] * sv[r - 1]) >= eps * (1 - 1e-6) * std::sqrt(nn), nm + " keeps more singular values than needed", S("rank", r));
    }
    if (kind > 0) {
        // a cross approximation reproduces the rows and columns it went through
        double scale = 1e-300;
        for (auto &v : B.d) scale = std::max(scale, std::abs(v));
        int okr = 0, okc = 0;
        double growth = 0;
        for (auto &v : U.d) growth = std::max(growth, std::abs(v));
        for (auto &v : V.d) growth = std::max(growth, std::abs(v));
        double tol = 1e-9 * (scale + growth);
        for (int i = 0; i < M; i++) { double e = 0; for (int j = 0; j < N; j++) e = std::max(e, std::abs(E(i, j))); okr += e <= tol; }
        for (int j = 0; j < N; j++) { double e = 0; for (int i = 0; i < M; i++) e = std::max(e, std::abs(E(i, j))); okc += e <= tol; }
        R.check(okr >= r && okc >= r, nm + " does not reproduce the rows and columns it selected", S("rank", r, "rows reproduced", okr, "columns reproduced", okc));
        if (w.find("rank") == 0 && req < 0) R.check(rel <= 10 * eps + 1e-9, nm + " error on a block of low rank", S("relative error", rel));
        if (w.find("kernel") == 0 && req < 0) R.check(rel <= 20 * eps + 1e-9, nm + " error on a smooth kernel", S("relative error", rel));
        if (req < 0 && kind >= 2) // stops at the first cross that is small against the approximation
            for (int k = 1; k <= r; k++) {
                auto X = col(U, k - 1).mul(row(V, k - 1)), Ak = U.sub(0, M, 0, k).mul(V.sub(0, k, 0, N));
                double q = X.norm() / (1e-300 + Ak.norm());
                if (k < r) R.check(q > eps * (1 - 1e-5), nm + " goes on after the stopping criterion is met", S("cross", k, "of", r, "ratio", q));
                else if (k == r && w.find("rank") != 0 && (r + 1) * (M + N) <= M * N && r < std::min(M, N)) R.check(q <= eps * (1 + 1e-5), nm + " stops before the criterion is met", S("rank", r, "ratio", q));
            }
        if (req > 0 && w.find("full") == 0 && (std::min(req, std::min(M, N))) * (M + N) <= M * N) R.check(r == std::min(req, std::min(M, N)), nm + " required rank on a full-rank block", S("rank", r));
    }
}
int main(int argc, char **argv) {
    Run R;
    R.init(argc, argv);
    R.limit = R.thorough ? 300 : 40;
    for (int i = 0; i < (R.thorough ? 20000 : 1200) && !R.out_of_time(); i++) for (int k = 0; k < 4; k++) { one<double>(R, k); one<cd>(R, k); }
    return R.done();
}
