#include <htool/matrix/matrix.hpp>
#include <htool/matrix/linalg/interface.hpp>
#define HTOOL_MATRIX_HPP 1
#include "common.hpp"
using namespace hv;
using namespace htool;
inline void herm_mm(char s, char u, cd a, Matrix<cd> &A, Matrix<cd> &B, cd b, Matrix<cd> &C) { add_hermitian_matrix_matrix_product(s, u, a, A, B, b, C); }
inline void herm_mm(char, char, double, Matrix<double> &, Matrix<double> &, double, Matrix<double> &) {}
template <typename T> void sweep(Run &R, int reps) {
    for (int it = 0; it < reps && !R.out_of_time(); it++) {
        int m = R.irand(1, 9), n = R.irand(1, 9), k = R.irand(1, 7);
        T al = pick_scal<T>(R), be = pick_scal<T>(R);
        std::string args = S(tn<T>(), m, n, k, al, be);
        for (char t : {'N', 'T', 'C'}) {
            auto A = D<T>::rnd(R, m, n);
            auto O = A.op(t);
            auto x = D<T>::rnd(R, O.c, 1), y = D<T>::rnd(R, O.r, 1);
            auto h = to_h(A);
            {
                R.at("add_matrix_vector_product", args + t);
                auto out = y;
                auto xin = x;
                add_matrix_vector_product(t, al, h, xin.d.data(), be, out.d.data());
                auto ref = O.mul(x).axpby(al, be, y);
                R.check(close(out, ref) && close(from_h(h), A, 0) && close(xin, x, 0), "add_matrix_vector_product", dd(out, ref));
            }
            {
                R.at("add_matrix_matrix_product_row_major", args + t);
                auto X = D<T>::rnd(R, O.c, k), Y = D<T>::rnd(R, O.r, k);
                auto Xr = X.op('T'), Yr = Y.op('T');
                add_matrix_matrix_product_row_major(t, 'N', al, h, Xr.d.data(), be, Yr.d.data(), k);
                auto ref = O.mul(X).axpby(al, be, Y);
                R.check(close(Yr.op('T'), ref), "add_matrix_matrix_product_row_major", dd(Yr.op('T'), ref));
            }
            for (char t2 : {'N', 'T', 'C'}) {
                R.at("add_matrix_matrix_product", args + t + t2);
                auto B = t2 == 'N' ? D<T>::rnd(R, O.c, k) : D<T>::rnd(R, k, O.c);
                auto C = D<T>::rnd(R, O.r, k);
                auto hb = to_h(B), hc = to_h(C);
                add_matrix_matrix_product(t, t2, al, h, hb, be, hc);
                auto ref = O.mul(B.op(t2)).axpby(al, be, C);
                R.check(close(from_h(hc), ref) && close(from_h(hb), B, 0), "add_matrix_matrix_product", dd(from_h(hc), ref));
            }
        }
        for (char u : {'L', 'U'}) {
            auto A = D<T>::rnd(R, n, n);
            auto H = A;
            for (int i = 0; i < n; i++) H(i, i) = std::real(H(i, i));
            auto x = D<T>::rnd(R, n, 1), y = D<T>::rnd(R, n, 1), X = D<T>::rnd(R, n, k), Y = D<T>::rnd(R, n, k);
            for (int herm = 0; herm < 2; herm++) {
                auto &B = herm ? H : A;
                auto h  = to_h(B);
                auto O  = B.sym(u, herm);
                std::string nm = herm ? "hermitian" : "symmetric";
                R.at(nm + "_vector", args + u);
                auto out = y;
                if (herm) add_hermitian_matrix_vector_product(u, al, h, x.d.data(), be, out.d.data());
                else add_symmetric_matrix_vector_product(u, al, h, x.d.data(), be, out.d.data());
                auto ref = O.mul(x).axpby(al, be, y);
                R.check(close(out, ref), "add_" + nm + "_matrix_vector_product", dd(out, ref));
                auto Xr = X.op('T'), Yr = Y.op('T');
                if (herm) add_hermitian_matrix_matrix_product_row_major('L', u, al, h, Xr.d.data(), be, Yr.d.data(), k);
                else add_symmetric_matrix_matrix_product_row_major('L', u, al, h, Xr.d.data(), be, Yr.d.data(), k);
                ref = O.mul(X).axpby(al, be, Y);
                R.check(close(Yr.op('T'), ref), "add_" + nm + "_matrix_matrix_product_row_major", dd(Yr.op('T'), ref));
                for (char side : {'L', 'R'}) {
                    R.at(nm + "_matrix", args + u + side);
                    auto P = side == 'L' ? X : X.op('T'), Q = side == 'L' ? Y : Y.op('T');
                    auto hp = to_h(P), hq = to_h(Q);
                    auto ref2 = (side == 'L' ? O.mul(P) : P.mul(O)).axpby(al, be, Q);
                    if (herm) {
                        if (std::is_same<T, double>::value) continue;
                        herm_mm(side, u, al, h, hp, be, hq);
                    } else add_symmetric_matrix_matrix_product(side, u, al, h, hp, be, hq);
                    R.check(close(from_h(hq), ref2), "add_" + nm + "_matrix_matrix_product", dd(from_h(hq), ref2));
                }
            }
        }
        {
            R.at("scale/transpose", args);
            auto A = D<T>::rnd(R, m, n);
            auto h = to_h(A);
            Matrix<T> B(n, m);
            transpose(h, B);
            R.check(close(from_h(B), A.op('T'), 0), "transpose", dd(from_h(B), A.op('T')));
            scale(al, h);
            R.check(close(from_h(h), A.axpby(al, 0, A)), "scale", "");
        }
    }
}
int main(int argc, char **argv) {
    Run R;
    R.init(argc, argv);
    int reps = R.thorough ? 3000 : 200;
    sweep<double>(R, reps);
    sweep<cd>(R, reps);
    return R.done();
}
