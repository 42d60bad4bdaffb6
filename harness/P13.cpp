#include "hm.hpp"
using namespace hv;
using namespace htool;
template <typename T> void one(Run &R, char sym, char uplo) {
    Opt o;
    o.consistent = sym != 'N' || R.irand(0, 3) > 0;
    if (R.irand(0, 2) == 0) { o.parts = R.irand(1, 4); o.part = R.irand(0, o.parts - 1); o.square = true; }
    auto c = rnd_case<T>(R, sym, uplo, o);
    auto &H = *c.h;
    auto M = expand(H);
    int mu = R.irand(1, 3);
    T al = pick_scal<T>(R), be = pick_scal<T>(R);
    for (char t : {'N', 'T', 'C'}) {
        if ((sym == 'S' && t == 'C') || (sym == 'H' && t == 'T')) continue; // not offered by the library
        auto O = M.op(t);
        auto x = D<T>::rnd(R, O.c, 1), y = D<T>::rnd(R, O.r, 1);
        auto X = D<T>::rnd(R, O.c, mu), Y = D<T>::rnd(R, O.r, mu);
        auto ref = O.mul(x).axpby(al, be, y), Ref = O.mul(X).axpby(al, be, Y);
        std::string a = c.what + S("trans", t, "mu", mu, "alpha", al, "beta", be);
        for (int v = 0; v < 3; v++) {
            const char *nm[] = {"sequential_internal_add_hmatrix_vector_product", "openmp_internal_add_hmatrix_vector_product", "internal_add_hmatrix_vector_product"};
            R.at(nm[v], a);
            auto out = y;
            if (v == 0) sequential_internal_add_hmatrix_vector_product(t, al, H, x.d.data(), be, out.d.data());
            if (v == 1) openmp_internal_add_hmatrix_vector_product(t, al, H, x.d.data(), be, out.d.data());
            if (v == 2) internal_add_hmatrix_vector_product(t, al, H, x.d.data(), be, out.d.data());
            R.check(close(out, ref), nm[v], dd(out, ref));
        }
        auto Xr = X.op('T'), Yr = Y.op('T');
        for (int v = 0; v < 3; v++) {
            const char *nm[] = {"sequential_internal_add_hmatrix_matrix_product_row_major", "openmp_internal_add_hmatrix_matrix_product_row_major", "internal_add_hmatrix_matrix_product_row_major"};
            R.at(nm[v], a);
            auto out = Yr;
            if (v == 0) sequential_internal_add_hmatrix_matrix_product_row_major(t, 'N', al, H, Xr.d.data(), be, out.d.data(), mu);
            if (v == 1) openmp_internal_add_hmatrix_matrix_product_row_major(t, 'N', al, H, Xr.d.data(), be, out.d.data(), mu);
            if (v == 2) internal_add_hmatrix_matrix_product_row_major(t, 'N', al, H, Xr.d.data(), be, out.d.data(), mu);
            R.check(close(out.op('T'), Ref), nm[v], dd(out.op('T'), Ref));
        }
        R.check(close(expand(H), M, 0), "hmatrix-modified-by-product", "product changed its hmatrix");
        for (char tb : {'N', 'T', 'C'}) {
            R.at("internal_add_hmatrix_matrix_product", a + tb);
            auto Bm = tb == 'N' ? X : X.op(tb);
            auto B = to_h(Bm), C = to_h(Y);
            internal_add_hmatrix_matrix_product(t, tb, al, H, B, be, C);
            R.check(close(from_h(C), Ref), "internal_add_hmatrix_matrix_product", dd(from_h(C), Ref));
        }
    }
    // every sub-block of the tree is itself an hmatrix
    std::vector<const HMatrix<T, double> *> st{&H};
    for (size_t i = 0; i < st.size() && i < 12; i++) {
        auto *h = st[i];
        for (auto &k : h->get_children()) st.push_back(k.get());
        auto m = expand(*h);
        auto x = D<T>::rnd(R, m.c, 1), y = D<T>::rnd(R, m.r, 1);
        R.at("sub-block product", c.what);
        auto out = y;
        internal_add_hmatrix_vector_product('N', al, *h, x.d.data(), be, out.d.data());
        auto ref = m.mul(x).axpby(al, be, y);
        R.check(close(out, ref), "sub-block internal_add_hmatrix_vector_product", dd(out, ref));
    }
}
template <typename T> void all(Run &R) {
    for (char s : syms<T>())
        for (char u : {'L', 'U'}) one<T>(R, s, s == 'N' ? 'N' : u);
}
int main(int argc, char **argv) {
    Run R;
    R.init(argc, argv);
    for (int i = 0; i < (R.thorough ? 400 : 60) && !R.out_of_time(); i++) { all<double>(R); all<cd>(R); }
    return R.done();
}
