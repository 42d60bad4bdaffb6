// local operators: every product against the matrix the operator stands for
#include "hm.hpp"
#include <htool/local_operators/local_dense_matrix.hpp>
#include <htool/local_operators/local_hmatrix.hpp>
using namespace hv;
using namespace htool;
// permutation of the cluster's range: user = P * (numbering of the tree)
template <typename T> D<T> permat(const Cl &c, bool use) {
    int n = c.get_size(), o = c.get_offset();
    D<T> P(n, n);
    for (int i = 0; i < n; i++) P(use ? c.get_permutation()[o + i] - o : i, i) = 1;
    return P;
}
template <typename T> D<T> rowmajor(const std::vector<T> &v, int off, int n, int mu) {
    D<T> x(n, mu);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < mu; j++) x(i, j) = v[size_t(off + i) * mu + j];
    return x;
}
template <typename T> std::vector<T> rv(Run &R, size_t n) {
    std::vector<T> v(n);
    for (auto &x : v) x = Rnd<T>::get(R);
    return v;
}
template <typename T> void products(Run &R, const VirtualLocalOperator<T> &op, const Cl &t, const Cl &s, const D<T> &G, char sym, const std::string &what, const std::string &kind) {
    int nr = t.get_size(), nc = s.get_size(), so = s.get_offset(), N = so + nc;
    for (int v = 0; v < 2; v++) {
        T al = pick_scal<T>(R), be = pick_scal<T>(R);
        int mu = v == 0 ? 1 : R.irand(1, 4);
        std::string a = what + S("mu", mu, "alpha", al, "beta", be), k = kind + " symmetry " + sym;
        auto in = rv<T>(R, size_t(N) * mu), out = rv<T>(R, size_t(nr) * mu), in0 = in, out0 = out;
        auto X = rowmajor(in, so, nc, mu), Y = rowmajor(out, 0, nr, mu);
        R.at("global to local", a);
        if (v == 0) op.add_vector_product_global_to_local(al, in.data(), be, out.data());
        else op.add_matrix_product_global_to_local(al, in.data(), be, out.data(), mu);
        auto ref = G.mul(X).axpby(al, be, Y);
        R.check(close(rowmajor(out, 0, nr, mu), ref), k + (v ? " matrix" : " vector") + " product global to local", dd(rowmajor(out, 0, nr, mu), ref));
        R.check(in == in0, k + " input modified (global to local)", "the input changed");
        auto lin = rv<T>(R, size_t(nr) * mu), gout = rv<T>(R, size_t(N) * mu), lin0 = lin, gout0 = gout;
        X = rowmajor(lin, 0, nr, mu);
        Y = rowmajor(gout, so, nc, mu);
        R.at("transposed local to global", a);
        if (v == 0) op.add_vector_product_transp_local_to_global(al, lin.data(), be, gout.data());
        else op.add_matrix_product_transp_local_to_global(al, lin.data(), be, gout.data(), mu);
        ref = G.op('T').mul(X).axpby(al, be, Y);
        R.check(close(rowmajor(gout, so, nc, mu), ref), k + (v ? " matrix" : " vector") + " transposed product local to global", dd(rowmajor(gout, so, nc, mu), ref));
        R.check(lin == lin0, k + " input modified (local to global)", "the input changed");
        R.check(std::equal(gout.begin(), gout.begin() + size_t(so) * mu, gout0.begin()), k + " entries outside the source cluster modified", "entries outside the source cluster changed");
    }
    // part of the source
    for (int v = 0; v < 4; v++) {
        int mu = R.irand(1, 3), o = v == 0 ? so : R.irand(0, N), n = v == 0 ? nc : R.irand(1, N + 3);
        R.at("part of the source", what + S("mu", mu, "offset", o, "size", n));
        auto in = rv<T>(R, size_t(n) * mu);
        std::vector<T> out(size_t(nr) * mu, T(0));
        op.sub_matrix_product_to_local(in.data(), out.data(), mu, o, n);
        D<T> X(nc, mu);
        for (int i = 0; i < nc; i++)
            if (so + i >= o && so + i < o + n)
                for (int j = 0; j < mu; j++) X(i, j) = in[size_t(so + i - o) * mu + j];
        auto ref = G.mul(X);
        R.check(close(rowmajor(out, 0, nr, mu), ref), kind + " symmetry " + sym + " product of a part of the source", dd(rowmajor(out, 0, nr, mu), ref));
    }
}
template <typename T> void one(Run &R) {
    for (char sy : syms<T>())
        for (char u : {'L', 'U'}) {
            if (sy == 'N' && u == 'U') continue;
            char uplo = sy == 'N' ? 'N' : u;
            Opt o;
            o.nmax = 30;
            if (sy == 'N' && R.irand(0, 1)) { o.parts = R.irand(2, 4); o.part = R.irand(0, o.parts - 1); }
            auto c = rnd_case<T>(R, sy, uplo, o);
            const Cl &t = o.part >= 0 ? *c.t->get_clusters_on_partition()[o.part] : *c.t, &s = *c.s;
            auto M = expand(*c.h);
            for (int v = 0; v < 3; v++) {
                // the permutation maps the range of the cluster onto itself for the root only
                bool pt = o.part < 0 && R.irand(0, 1), ps = R.irand(0, 1);
                auto G = permat<T>(t, pt).mul(M).mul(permat<T>(s, ps).op('T'));
                std::string what = c.what + S("target-permuted", pt, "source-permuted", ps);
                LocalHMatrix<T, double> H(*c.h, t, s, sy, uplo, pt, ps);
                products<T>(R, H, t, s, G, sy, what, "LocalHMatrix");
            }
            // dense operators between any two clusters
            const Cl &td = sy == 'N' && R.irand(0, 1) ? *R.pick(c.t->get_clusters_on_partition()) : *c.t;
            const Cl &sd = sy == 'N' ? (R.irand(0, 1) ? *R.pick(c.s->get_clusters_on_partition()) : *c.s) : td;
            for (int v = 0; v < 3; v++) {
                bool pt = (td.is_root() || td.is_permutation_local()) && R.irand(0, 1), ps = (sd.is_root() || sd.is_permutation_local()) && R.irand(0, 1);
                auto A = D<T>::rnd(R, td.get_size(), sd.get_size());
                if (sy == 'H') for (int i = 0; i < A.r; i++) A(i, i) = std::real(A(i, i));
                auto full = sy == 'N' ? A : A.sym(uplo, sy == 'H');
                auto G = permat<T>(td, pt).mul(full).mul(permat<T>(sd, ps).op('T'));
                auto hA = to_h(A);
                LocalDenseMatrix<T, double> K(hA, td, sd, sy, uplo, pt, ps);
                products<T>(R, K, td, sd, G, sy, c.what + S("target", td.get_offset(), td.get_size(), "source", sd.get_offset(), sd.get_size(), "target-permuted", pt, "source-permuted", ps), "LocalDenseMatrix");
            }
        }
}
int main(int argc, char **argv) {
    Run R;
    R.init(argc, argv);
    for (int i = 0; i < (R.thorough ? 4000 : 300) && !R.out_of_time(); i++) { one<double>(R); one<cd>(R); }
    return R.done();
}
