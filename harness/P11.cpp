#include <htool/matrix/matrix.hpp>
#include <htool/matrix/linalg/interface.hpp>
#define HTOOL_MATRIX_HPP 1
#include "common.hpp"
using namespace hv;
using namespace htool;
// well conditioned for the triangular solves
template <typename T> D<T> nice(Run &R, int n) {
    auto A = D<T>::rnd(R, n, n);
    for (int i = 0; i < n; i++) A(i, i) += (R.irand(0, 1) ? 1. : -1.) * double(n + 1);
    return A;
}
template <typename T> void sweep(Run &R, int reps) {
    for (int it = 0; it < reps && !R.out_of_time(); it++) {
        int n = R.irand(1, 9), k = R.irand(1, 6);
        T al = pick_scal<T>(R);
        std::string args = S(tn<T>(), n, k, al);
        auto A = nice<T>(R, n);
        for (char side : {'L', 'R'})
            for (char u : {'L', 'U'})
                for (char t : {'N', 'T', 'C'})
                    for (char dg : {'N', 'U'}) {
                        R.at("triangular_matrix_matrix_solve", args + side + u + t + dg);
                        auto h = to_h(A);
                        auto B = side == 'L' ? D<T>::rnd(R, n, k) : D<T>::rnd(R, k, n);
                        auto A2 = A;
                        if (dg == 'U') for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) A2(i, j) /= double(4 * n);
                        auto h2 = to_h(A2);
                        auto Tr = A2.tri(u, dg).op(t);
                        auto X = to_h(B);
                        triangular_matrix_matrix_solve(side, u, t, dg, al, h2, X);
                        auto got = side == 'L' ? Tr.mul(from_h(X)) : from_h(X).mul(Tr);
                        auto ref = B.axpby(al, 0, B);
                        R.check(close(got, ref, 1e-8) && close(from_h(h2), A2, 0), "triangular_matrix_matrix_solve", dd(got, ref));
                    }
        // LU with row exchanges: general matrices, rows permuted so that pivoting happens
        auto G = nice<T>(R, n);
        for (int i = 0; i < n; i++) { int j = R.irand(0, n - 1); for (int q = 0; q < n; q++) std::swap(G(i, q), G(j, q)); }
        auto F = to_h(G);
        lu_factorization(F);
        for (char t : {'N', 'T', 'C'}) {
            R.at("lu_solve", args + t);
            auto B = D<T>::rnd(R, n, k);
            auto X = to_h(B);
            lu_solve(t, F, X);
            auto got = G.op(t).mul(from_h(X));
            R.check(close(got, B, 1e-8), "lu_solve", dd(got, B));
            for (char side : {'L', 'R'}) {
                R.at("lu by triangular solves", args + t + side);
                auto B2 = side == 'L' ? D<T>::rnd(R, n, k) : D<T>::rnd(R, k, n);
                auto Y = to_h(B2);
                // op(A) = op(L U): the left solve starts with op's first factor
                bool lfirst = (t == 'N') == (side == 'L');
                triangular_matrix_matrix_solve(side, lfirst ? 'L' : 'U', t, lfirst ? 'U' : 'N', T(1), F, Y);
                triangular_matrix_matrix_solve(side, lfirst ? 'U' : 'L', t, lfirst ? 'N' : 'U', T(1), F, Y);
                auto g2 = side == 'L' ? G.op(t).mul(from_h(Y)) : from_h(Y).mul(G.op(t));
                R.check(close(g2, B2, 1e-8), "lu by triangular solves", dd(g2, B2));
            }
        }
        for (char u : {'L', 'U'}) {
            R.at("cholesky", args + u);
            auto Q = D<T>::rnd(R, n, n);
            auto SPD = Q.mul(Q.op('C'));
            for (int i = 0; i < n; i++) { SPD(i, i) = std::real(SPD(i, i)) + 1.; }
            auto Fc = to_h(SPD);
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (u == 'L' ? i < j : i > j) Fc(i, j) = T(1e3); // the other triangle is not referenced
            cholesky_factorization(u, Fc);
            auto B = D<T>::rnd(R, n, k);
            auto X = to_h(B);
            cholesky_solve(u, Fc, X);
            auto got = SPD.mul(from_h(X));
            R.check(close(got, B, 1e-7), "cholesky_solve", dd(got, B));
            auto Tr = from_h(Fc).tri(u, 'N');
            auto P = u == 'L' ? Tr.mul(Tr.op('C')) : Tr.op('C').mul(Tr);
            R.check(close(P, SPD, 1e-8), "cholesky_factorization", dd(P, SPD));
        }
    }
}
int main(int argc, char **argv) {
    Run R;
    R.init(argc, argv);
    int reps = R.thorough ? 3000 : 150;
    sweep<double>(R, reps);
    sweep<cd>(R, reps);
    return R.done();
}
