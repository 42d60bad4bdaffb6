#include "hm.hpp"
#include <functional>
#include <htool/hmatrix/lrmat/linalg/add_lrmat_lrmat.hpp>
using namespace hv;
using namespace htool;
template <typename T> struct L {
    D<T> M;
    LowRankMatrix<T> l;
    L(Run &R, int m, int n, int r, double eps = 1e-13) : l(eps) {
        auto U = D<T>::rnd(R, m, r), V = D<T>::rnd(R, r, n);
        M         = U.mul(V);
        l.get_U() = to_h(U);
        l.get_V() = to_h(V);
    }
};
template <typename T> D<T> val(const LowRankMatrix<T> &l, int m, int n) {
    if (l.get_U().nb_rows() != m || l.get_V().nb_cols() != n || l.get_U().nb_cols() != l.get_V().nb_rows()) return D<T>(1, 1, T(NAN));
    return from_h(l.get_U()).mul(from_h(l.get_V()));
}
template <typename T> void sweep(Run &R) {
    int m = R.irand(1, 9), n = R.irand(1, 9), k = R.irand(1, 7), r = R.irand(0, 4), rb = R.irand(0, 4), rc = R.irand(0, 4);
    T al = pick_scal<T>(R), be = pick_scal<T>(R);
    for (char t : {'N', 'T', 'C'}) {
        int am = t == 'N' ? m : n, an = t == 'N' ? n : m;
        L<T> A(R, am, an, r);
        auto O = A.M.op(t);
        std::string args = S(tn<T>(), "m", m, "n", n, "k", k, "ranks", r, rb, rc, "alpha", al, "beta", be, "transa", t);
        auto keep = val(A.l, am, an);
        {
            auto x = D<T>::rnd(R, n, 1), y = D<T>::rnd(R, m, 1), out = y;
            R.at("add_lrmat_vector_product", args);
            add_lrmat_vector_product(t, al, A.l, x.d.data(), be, out.d.data());
            auto ref = O.mul(x).axpby(al, be, y);
            R.check(close(out, ref), "add_lrmat_vector_product", dd(out, ref));
        }
        {
            auto X = D<T>::rnd(R, n, k), Y = D<T>::rnd(R, m, k), Xr = X.op('T'), out = Y.op('T');
            R.at("add_lrmat_matrix_product_row_major", args);
            add_lrmat_matrix_product_row_major(t, 'N', al, A.l, Xr.d.data(), be, out.d.data(), k);
            auto ref = O.mul(X).axpby(al, be, Y);
            R.check(close(out.op('T'), ref), "add_lrmat_matrix_product_row_major", dd(out.op('T'), ref));
        }
        for (char tb : {'N', 'T', 'C'}) {
            std::string a2 = args + S("transb", tb);
            // A is m x n after op, B is n x k after op
            int bm = tb == 'N' ? n : k, bn = tb == 'N' ? k : n;
            auto B = D<T>::rnd(R, bm, bn);
            L<T> Bl(R, bm, bn, rb);
            auto Ad = D<T>::rnd(R, am, an);
            auto hA = to_h(Ad), hB = to_h(B);
            auto Y = D<T>::rnd(R, m, k);
            auto go = [&](const char *key, const D<T> &P, std::function<void(Matrix<T> &)> f, std::function<void(LowRankMatrix<T> &)> g) {
                auto ref = P.axpby(al, be, Y);
                if (f) {
                    R.at(key, a2);
                    auto hc = to_h(Y);
                    f(hc);
                    R.check(close(from_h(hc), ref), std::string(key) + " (dense C)", dd(from_h(hc), ref));
                }
                R.at(std::string(key) + " low-rank C", a2);
                L<T> C(R, m, k, rc);
                auto ref2 = P.axpby(al, be, C.M);
                g(C.l);
                auto v = val(C.l, m, k);
                R.check(close(v, ref2, 1e-8), std::string(key) + " (low-rank C)", dd(v, ref2));
                R.check(val(A.l, am, an).d == keep.d && from_h(hA).d == Ad.d && from_h(hB).d == B.d, std::string(key) + " input modified", "an input operand changed");
            };
            go("add_lrmat_matrix_product", O.mul(B.op(tb)), [&](Matrix<T> &C) { add_lrmat_matrix_product(t, tb, al, A.l, hB, be, C); }, [&](LowRankMatrix<T> &C) { add_lrmat_matrix_product(t, tb, al, A.l, hB, be, C); });
            go("add_matrix_lrmat_product", Ad.op(t).mul(Bl.M.op(tb)), [&](Matrix<T> &C) { add_matrix_lrmat_product(t, tb, al, hA, Bl.l, be, C); }, [&](LowRankMatrix<T> &C) { add_matrix_lrmat_product(t, tb, al, hA, Bl.l, be, C); });
            go("add_lrmat_lrmat_product", O.mul(Bl.M.op(tb)), [&](Matrix<T> &C) { add_lrmat_lrmat_product(t, tb, al, A.l, Bl.l, be, C); }, [&](LowRankMatrix<T> &C) { add_lrmat_lrmat_product(t, tb, al, A.l, Bl.l, be, C); });
            go("add_matrix_matrix_product", Ad.op(t).mul(B.op(tb)), nullptr, [&](LowRankMatrix<T> &C) { add_matrix_matrix_product(t, tb, al, hA, hB, be, C); });
        }
    }
    L<T> A(R, m, n, r);
    R.at("scale(lrmat)", S(m, n, r, al));
    scale(al, A.l);
    auto ref = A.M.axpby(al, T(0), A.M);
    R.check(close(val(A.l, m, n), ref), "scale(lrmat)", dd(val(A.l, m, n), ref));
    R.at("copy_to_dense(lrmat)", S(m, n, r));
    D<T> out(m, n, T(7));
    A.l.copy_to_dense(out.d.data());
    R.check(close(out, ref), "LowRankMatrix::copy_to_dense", dd(out, ref));
    // add_lrmat_lrmat between nested clusters
    Case<T> c;
    Opt o;
    make_trees(R, c, false, o);
    std::vector<std::pair<const Cl *, const Cl *>> pr{{c.t.get(), c.s.get()}};
    for (int i = 0; i < 3; i++) {
        auto p = pr.back();
        if (R.irand(0, 1) && !p.first->is_leaf()) p.first = R.pick(p.first->get_children()).get();
        if (R.irand(0, 1) && !p.second->is_leaf()) p.second = R.pick(p.second->get_children()).get();
        pr.push_back(p);
    }
    auto big = pr[R.irand(0, 1)], small = pr[R.irand(1, 3)];
    if (big.first->get_size() < small.first->get_size() || big.second->get_size() < small.second->get_size()) std::swap(big, small);
    for (int dir = 0; dir < 2; dir++) {
        auto x = dir ? small : big, y = dir ? big : small;
        int rx = R.irand(0, 3), ry = R.irand(0, 3);
        L<T> X(R, x.first->get_size(), x.second->get_size(), rx), Y(R, y.first->get_size(), y.second->get_size(), ry);
        D<T> ref = Y.M;
        for (int i = 0; i < ref.r; i++)
            for (int j = 0; j < ref.c; j++) {
                int a = i + y.first->get_offset() - x.first->get_offset(), b = j + y.second->get_offset() - x.second->get_offset();
                if (a >= 0 && a < X.M.r && b >= 0 && b < X.M.c) ref(i, j) += X.M(a, b);
            }
        R.at("add_lrmat_lrmat", c.what + S("X", x.first->get_offset(), X.M.r, x.second->get_offset(), X.M.c, "Y", y.first->get_offset(), Y.M.r, y.second->get_offset(), Y.M.c, "ranks", rx, ry));
        add_lrmat_lrmat(X.l, *x.first, *x.second, Y.l, *y.first, *y.second);
        auto v = val(Y.l, ref.r, ref.c);
        R.check(close(v, ref, 1e-8), "add_lrmat_lrmat", dd(v, ref));
    }
}
int main(int argc, char **argv) {
    Run R;
    R.init(argc, argv);
    for (int i = 0; i < (R.thorough ? 6000 : 500) && !R.out_of_time(); i++) { sweep<double>(R); sweep<cd>(R); }
    return R.done();
}
