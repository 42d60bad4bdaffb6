// executable contracts of htool::Matrix: random histories of operations against a value model, storage watched by an allocation count
#include <htool/matrix/matrix.hpp>
#define HTOOL_MATRIX_HPP 1
#include "common.hpp"
#include <new>
static long g_live = 0;
void *operator new[](std::size_t n) { g_live++; return std::malloc(n ? n : 1); }
void operator delete[](void *p) noexcept { if (p) g_live--; std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { if (p) g_live--; std::free(p); }
using namespace hv;
using namespace htool;
template <typename T> struct Model { D<T> v; bool valid = true; std::vector<int> piv; };
template <typename T> bool eqm(const Matrix<T> &m, const D<T> &v) {
    if (m.nb_rows() != v.r || m.nb_cols() != v.c) return false;
    for (int j = 0; j < v.c; j++)
        for (int i = 0; i < v.r; i++)
            if (m(i, j) != v(i, j) || m.data()[i + (size_t)j * v.r] != v(i, j)) return false;
    return true;
}
template <typename T> void history(Run &R) {
    const int N = 4;
    long base = g_live;
    std::vector<std::vector<T>> outside; // buffers the matrices may borrow
    outside.reserve(200);
    {
        std::vector<Matrix<T> *> m(N);
        std::vector<Model<T>> s(N);
        auto fresh = [&](int i) { int r = R.irand(1, 5), c = R.irand(1, 5); T v = Rnd<T>::get(R); m[i] = new Matrix<T>(r, c, v); s[i] = Model<T>(); s[i].v = D<T>(r, c, v); };
        for (int i = 0; i < N; i++) fresh(i);
        std::string h;
        int len = R.irand(5, 25);
        for (int step = 0; step < len; step++) {
            int op = R.irand(0, 15), i = R.irand(0, N - 1), j = R.irand(0, N - 1);
            h += S(op, i, j) + ";";
            R.at("history", S(tn<T>(), h));
            switch (op) {
            case 0: *m[i] = *m[j]; s[i] = s[j]; break;
            case 1: if (i != j) { *m[i] = std::move(*m[j]); s[i] = s[j]; s[j].v = D<T>(0, 0); s[j].piv.clear(); m[j]->get_pivots().clear(); } else *m[i] = std::move(*m[i]); break;
            case 2: { auto *n = new Matrix<T>(*m[j]); auto x = s[j]; delete m[i]; m[i] = n; s[i] = x; break; }
            case 3: if (i != j) { auto *n = new Matrix<T>(std::move(*m[j])); delete m[i]; m[i] = n; s[i] = s[j]; s[j].v = D<T>(0, 0); s[j].piv.clear(); m[j]->get_pivots().clear(); } break;
            case 4: { int r = R.irand(1, 5), c = R.irand(1, 5); T v = Rnd<T>::get(R); m[i]->resize(r, c, v); s[i].v = D<T>(r, c, v); break; }
            case 5: { // borrow storage
                int r = R.irand(1, 4), c = R.irand(1, 4);
                if (s[i].v.d.empty()) break;
                outside.push_back(std::vector<T>(r * c));
                for (auto &x : outside.back()) x = Rnd<T>::get(R);
                m[i]->assign(r, c, outside.back().data(), false);
                s[i].v = D<T>(r, c); s[i].v.d = outside.back(); break; }
            case 6: { // give storage
                int r = R.irand(1, 4), c = R.irand(1, 4);
                if (s[i].v.d.empty()) break;
                T *p = new T[r * c]; s[i].v = D<T>(r, c);
                for (int k = 0; k < r * c; k++) p[k] = s[i].v.d[k] = Rnd<T>::get(R);
                m[i]->assign(r, c, p, true); break; }
            case 7: if (s[i].v.d.size()) { T v = Rnd<T>::get(R); *m[i] = v; for (auto &x : s[i].v.d) x = v; } break;
            case 8: if (s[i].v.d.size()) { int a = R.irand(0, s[i].v.r - 1), b = R.irand(0, s[i].v.c - 1); T v = Rnd<T>::get(R); (*m[i])(a, b) = v; s[i].v(a, b) = v; } break;
            case 9: if (s[i].v.d.size()) { int a = R.irand(0, s[i].v.r - 1); std::vector<T> v(s[i].v.c); for (int k = 0; k < s[i].v.c; k++) s[i].v(a, k) = v[k] = Rnd<T>::get(R); m[i]->set_row(a, v); R.check(m[i]->get_row(a) == v, "get_row", "after set_row"); } break;
            case 10: if (s[i].v.d.size()) { int a = R.irand(0, s[i].v.c - 1); std::vector<T> v(s[i].v.r); for (int k = 0; k < s[i].v.r; k++) s[i].v(k, a) = v[k] = Rnd<T>::get(R); m[i]->set_col(a, v); R.check(m[i]->get_col(a) == v, "get_col", "after set_col"); } break;
            case 11: if (s[i].v.d.size() && s[i].v.r == s[j].v.r && s[i].v.c == s[j].v.c) { auto p = *m[i] + *m[j]; auto q = *m[i] - *m[j]; bool ok = true; for (size_t k = 0; k < s[i].v.d.size(); k++) ok = ok && p.data()[k] == s[i].v.d[k] + s[j].v.d[k] && q.data()[k] == s[i].v.d[k] - s[j].v.d[k]; R.check(ok, "operator+/-", "entrywise"); } break;
            case 12: if (s[i].v.d.size() && s[i].v.c == s[j].v.r && s[j].v.d.size()) { auto p = (*m[i]) * (*m[j]); R.check(close(from_h(p), s[i].v.mul(s[j].v)), "operator*", "matrix product"); } break;
            case 13: if (s[i].v.d.size()) { T a = Rnd<T>::get(R); auto p = (*m[i]) * a; auto q = a * (*m[i]); bool ok = true; for (size_t k = 0; k < s[i].v.d.size(); k++) ok = ok && std::abs(p.data()[k] - s[i].v.d[k] * a) < 1e-13 && std::abs(q.data()[k] - s[i].v.d[k] * a) < 1e-13; R.check(ok, "operator*(scalar)", "scaled copy");
                std::vector<T> x(s[i].v.c); D<T> X(s[i].v.c, 1); for (int k = 0; k < s[i].v.c; k++) X.d[k] = x[k] = Rnd<T>::get(R); auto y = (*m[i]) * x; D<T> Y((int)y.size(), 1); Y.d = y; R.check(close(Y, s[i].v.mul(X)), "operator*(vector)", "product"); } break;
            case 14: m[i]->get_pivots().assign(R.irand(0, 3), step); s[i].piv = m[i]->get_pivots(); break;
            case 15: if (s[i].v.d.size()) { auto p = argmax(*m[i]); double mx = 0, f = 0; for (auto &x : s[i].v.d) { mx = std::max(mx, std::abs(x)); f += std::norm(x); } R.check(p.first >= 0 && p.first < s[i].v.r && p.second >= 0 && p.second < s[i].v.c && std::abs(s[i].v(p.first, p.second)) == mx, "argmax", "position of the largest entry"); R.check(std::abs(normFrob(*m[i]) - std::sqrt(f)) < 1e-12 * (1 + f), "normFrob", ""); } break;
            }
            for (int k = 0; k < N; k++) { R.check(eqm(*m[k], s[k].v), "value", S("matrix", k, "differs from the model after", h)); R.check(m[k]->get_pivots() == s[k].piv, "pivots", S("matrix", k)); }
            for (size_t k = 0; k < outside.size(); k++) {} 
        }
        for (int i = 0; i < N; i++) delete m[i];
    }
    R.check(g_live == base, "storage", S("arrays leaked (+) or deleted twice (-):", g_live - base));
}
int main(int argc, char **argv) {
    Run R; R.init(argc, argv); R.quiet = false;
    int reps = R.thorough ? 20000 : 700;
    for (int i = 0; i < reps && !R.out_of_time(); i++) { history<double>(R); history<cd>(R); }
    return R.done();
}
