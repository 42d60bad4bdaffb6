#include "hm.hpp"
#include <functional>
#include <htool/hmatrix/linalg/add_lrmat_hmatrix.hpp>
using namespace hv;
using namespace htool;
template <typename T> D<T> val(const LowRankMatrix<T> &l, int m, int n) {
    if (l.get_U().nb_rows() != m || l.get_V().nb_cols() != n || l.get_U().nb_cols() != l.get_V().nb_rows()) return D<T>(1, 1, T(NAN));
    return from_h(l.get_U()).mul(from_h(l.get_V()));
}
template <typename T> LowRankMatrix<T> rl(Run &R, int m, int n, int r) {
    LowRankMatrix<T> l(1e-13);
    l.get_U() = to_h(D<T>::rnd(R, m, r));
    l.get_V() = to_h(D<T>::rnd(R, r, n));
    return l;
}
// three geometries X, Y, Z sharing the same number of partitions and children
template <typename T> struct Tri { std::shared_ptr<Cl> c[3]; std::shared_ptr<Geo> g[3]; std::string what; };
template <typename T> Tri<T> trio(Run &R, int nmax) {
    Tri<T> t;
    int parts = R.irand(1, 3), children = R.irand(2, 3), dim = R.irand(2, 3);
    std::ostringstream o;
    for (int i = 0; i < 3; i++) {
        int m = std::max(R.irand(1, nmax), 2 * parts * children), mn = std::min(R.irand(1, 12), parts > 1 ? m / (2 * parts * children) : m - 1);
        t.g[i] = std::make_shared<Geo>(R, m, dim);
        t.c[i] = rnd_cluster(R, *t.g[i], parts, children, mn);
        o << "n" << i << " " << m << " minsize " << mn << " ";
    }
    if (R.irand(0, 3) == 0) { t.c[1] = t.c[0]; t.c[2] = t.c[0]; o << "same tree "; }
    t.what = S("parts", parts, "children", children) + o.str();
    return t;
}
template <typename T> std::unique_ptr<HMatrix<T>> mk(Run &R, const Cl &t, const Cl &s, int adm, bool exact = true) {
    Gen<T> gen(D<T>::rnd(R, t.get_size(), s.get_size()));
    HMatrixTreeBuilder<T> b(t, s, 1e-13, 10., 'N', 'N', -1, -1, -1);
    b.set_admissibility_condition(std::make_shared<RandAdm>(R.g(), adm, false));
    b.set_low_rank_generator(std::make_shared<RandLR<T>>(R.g(), 3));
    return std::make_unique<HMatrix<T>>(b.build(gen));
}
template <typename T> void one(Run &R) {
    auto tr = trio<T>(R, 30);
    auto &X = *tr.c[0], &Y = *tr.c[1], &Z = *tr.c[2];
    auto P = [&] { return R.pick(std::vector<int>{0, 20, 50, 80}); };
    for (char ta : {'N', 'T', 'C'})
        for (char tb : {'N', 'T', 'C'}) {
            T al = pick_scal<T>(R), be = pick_scal<T>(R);
            auto A = ta == 'N' ? mk<T>(R, X, Y, P()) : mk<T>(R, Y, X, P());
            auto B = tb == 'N' ? mk<T>(R, Y, Z, P()) : mk<T>(R, Z, Y, P());
            auto C = mk<T>(R, X, Z, P());
            // random sub-blocks: any three nested clusters are a legal operand
            auto MA = expand(*A), MB = expand(*B);
            int m = X.get_size(), n = Y.get_size(), k = Z.get_size();
            auto OA = MA.op(ta), OB = MB.op(tb);
            auto C0 = D<T>::rnd(R, m, k);
            std::string a = tr.what + S(tn<T>(), "transa", ta, "transb", tb, "alpha", al, "beta", be);
            auto Ad = ta == 'N' ? D<T>::rnd(R, m, n) : D<T>::rnd(R, n, m);
            auto Bd = tb == 'N' ? D<T>::rnd(R, n, k) : D<T>::rnd(R, k, n);
            auto hA = to_h(Ad), hB = to_h(Bd);
            auto Al = rl<T>(R, Ad.r, Ad.c, R.irand(0, 3)), Bl = rl<T>(R, Bd.r, Bd.c, R.irand(0, 3));
            auto ODA = Ad.op(ta), ODB = Bd.op(tb), OLA = val(Al, Ad.r, Ad.c).op(ta), OLB = val(Bl, Bd.r, Bd.c).op(tb);
            auto dense = [&](const char *nm, const D<T> &P, std::function<void(Matrix<T> &)> f) {
                R.at(std::string(nm) + " dense C", a);
                auto h = to_h(C0);
                f(h);
                auto ref = P.axpby(al, be, C0);
                R.check(close(from_h(h), ref, 1e-8), std::string(nm) + " (dense C)", dd(from_h(h), ref));
            };
            auto low = [&](const char *nm, const D<T> &P, std::function<void(LowRankMatrix<T> &)> f) {
                R.at(std::string(nm) + " low-rank C", a);
                auto l = rl<T>(R, m, k, R.irand(0, 3));
                auto ref = P.axpby(al, be, val(l, m, k));
                f(l);
                R.check(close(val(l, m, k), ref, 1e-8), std::string(nm) + " (low-rank C)", dd(val(l, m, k), ref));
            };
            auto hier = [&](const char *nm, const D<T> &P, std::function<void(HMatrix<T> &)> f) {
                R.at(std::string(nm) + " hmatrix C", a);
                auto h = mk<T>(R, X, Z, R.pick(std::vector<int>{0, 20, 50, 80}));
                auto ref = P.axpby(al, be, expand(*h));
                f(*h);
                R.check(close(expand(*h), ref, 1e-7), std::string(nm) + " (hmatrix C" + (h->is_dense() ? " dense" : h->is_low_rank() ? " low-rank" : "") + ")", dd(expand(*h), ref));
            };
            auto HH = OA.mul(OB);
            std::string kind = std::string(A->is_dense() ? "D" : A->is_low_rank() ? "R" : "H") + (B->is_dense() ? "D" : B->is_low_rank() ? "R" : "H");
            dense(("hmatrix x hmatrix " + kind).c_str(), HH, [&](Matrix<T> &C) { internal_add_hmatrix_hmatrix_product(ta, tb, al, *A, *B, be, C); });
            low(("hmatrix x hmatrix " + kind).c_str(), HH, [&](LowRankMatrix<T> &C) { internal_add_hmatrix_hmatrix_product(ta, tb, al, *A, *B, be, C); });
            hier(("hmatrix x hmatrix " + kind).c_str(), HH, [&](HMatrix<T> &C) { internal_add_hmatrix_hmatrix_product(ta, tb, al, *A, *B, be, C); });
            auto HL = OA.mul(OLB);
            dense("hmatrix x lrmat", HL, [&](Matrix<T> &C) { internal_add_hmatrix_lrmat_product(ta, tb, al, *A, Bl, be, C); });
            low("hmatrix x lrmat", HL, [&](LowRankMatrix<T> &C) { internal_add_hmatrix_lrmat_product(ta, tb, al, *A, Bl, be, C); });
            hier("hmatrix x lrmat", HL, [&](HMatrix<T> &C) { internal_add_hmatrix_lrmat_product(ta, tb, al, *A, Bl, be, C); });
            auto LH = OLA.mul(OB);
            dense("lrmat x hmatrix", LH, [&](Matrix<T> &C) { internal_add_lrmat_hmatrix_product(ta, tb, al, Al, *B, be, C); });
            low("lrmat x hmatrix", LH, [&](LowRankMatrix<T> &C) { internal_add_lrmat_hmatrix_product(ta, tb, al, Al, *B, be, C); });
            hier("lrmat x hmatrix", LH, [&](HMatrix<T> &C) { internal_add_lrmat_hmatrix_product(ta, tb, al, Al, *B, be, C); });
            auto HD = OA.mul(ODB);
            dense("hmatrix x matrix", HD, [&](Matrix<T> &C) { internal_add_hmatrix_matrix_product(ta, tb, al, *A, hB, be, C); });
            low("hmatrix x matrix", HD, [&](LowRankMatrix<T> &C) { internal_add_hmatrix_matrix_product(ta, tb, al, *A, hB, be, C); });
            auto DH = ODA.mul(OB);
            dense("matrix x hmatrix", DH, [&](Matrix<T> &C) { internal_add_matrix_hmatrix_product(ta, tb, al, hA, *B, be, C); });
            low("matrix x hmatrix", DH, [&](LowRankMatrix<T> &C) { internal_add_matrix_hmatrix_product(ta, tb, al, hA, *B, be, C); });
            R.check(close(expand(*A), MA, 0) && close(expand(*B), MB, 0) && from_h(hA).d == Ad.d && from_h(hB).d == Bd.d, "input operand modified", "an input operand changed");
        }
    // symmetric and hermitian operands
    for (char sy : syms<T>()) {
        if (sy == 'N') continue;
        for (char u : {'L', 'U'}) {
            Opt o;
            o.nmax = 30;
            bool rect = R.irand(0, 2) == 0;
            if (rect) { o.parts = R.irand(2, 4); o.part = R.irand(0, o.parts - 1); }
            auto c = rnd_case<T>(R, sy, u, o);
            auto M = expand(*c.h);
            int k = R.irand(1, 5);
            T al = pick_scal<T>(R), be = pick_scal<T>(R);
            for (char ta : {'N', 'T', 'C'})
                for (char tb : {'N', 'T', 'C'}) {
                    R.at("matrix x symmetric hmatrix", c.what + S("transa", ta, "transb", tb, "alpha", al, "beta", be));
                    int n = tb == 'N' ? M.r : M.c;
                    auto Ad = ta == 'N' ? D<T>::rnd(R, k, n) : D<T>::rnd(R, n, k);
                    auto C0 = D<T>::rnd(R, k, tb == 'N' ? M.c : M.r);
                    auto hA = to_h(Ad), hC = to_h(C0);
                    internal_add_matrix_hmatrix_product(ta, tb, al, hA, *c.h, be, hC);
                    auto ref = Ad.op(ta).mul(M.op(tb)).axpby(al, be, C0);
                    R.check(close(from_h(hC), ref), std::string("matrix x ") + (rect ? "rectangular part of " : "") + sy + " hmatrix transa " + ta + " transb " + tb, dd(from_h(hC), ref));
                }
            if (rect) continue;
            int n = M.r;
            R.at("symmetric hmatrix x hmatrix", c.what + S("alpha", al, "beta", be));
            auto C0 = D<T>::rnd(R, n, n);
            auto hC = to_h(C0);
            internal_add_hmatrix_hmatrix_product('N', 'N', al, *c.h, *c.h, be, hC);
            auto ref = M.mul(M).axpby(al, be, C0);
            R.check(close(from_h(hC), ref), "symmetric hmatrix x symmetric hmatrix (dense C)", dd(from_h(hC), ref));
        }
    }
    // scale, lrmat + hmatrix
    auto C = mk<T>(R, X, Z, P());
    auto M = expand(*C);
    auto l = rl<T>(R, M.r, M.c, R.irand(0, 3));
    R.at("internal_add_lrmat_hmatrix", tr.what);
    internal_add_lrmat_hmatrix(l, *C);
    auto ref = M.axpby(T(1), T(1), val(l, M.r, M.c));
    R.check(close(expand(*C), ref, 1e-8), "internal_add_lrmat_hmatrix", dd(expand(*C), ref));
    for (int v = 0; v < 3; v++) {
        M = expand(*C);
        T al = pick_scal<T>(R);
        R.at("scale(hmatrix)", tr.what + S(v, al));
        if (v == 0) scale(al, *C);
        if (v == 1) openmp_scale(al, *C);
        if (v == 2) sequential_scale(al, *C);
        auto r2 = M.axpby(al, T(0), M);
        R.check(close(expand(*C), r2), "scale(hmatrix)", dd(expand(*C), r2));
    }
}
int main(int argc, char **argv) {
    Run R;
    R.init(argc, argv);
    for (int i = 0; i < (R.thorough ? 2000 : 120) && !R.out_of_time(); i++) { one<double>(R); one<cd>(R); }
    return R.done();
}
