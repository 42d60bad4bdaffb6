// Executable contracts: shared helpers.  A harness draws inputs from the seed, calls the real htool code and evaluates the
// contract's postcondition against an independent naive reference.
#pragma once
#include <algorithm>
#include <chrono>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
namespace hv {
using cd = std::complex<double>;
struct Run {
    unsigned long seed = 1;
    bool thorough      = false;
    std::string tmp    = "/tmp";
    std::mt19937_64 g;
    long cases = 0, distinct = 0;
    std::map<std::string, int> nfail;
    std::set<size_t> seen;
    int rank = 0;
    bool quiet = false;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    double limit = 100;
    void init(int argc, char **argv) {
        if (argc > 1) seed = strtoul(argv[1], 0, 10);
        if (argc > 2) thorough = !strcmp(argv[2], "thorough");
        if (argc > 3) tmp = argv[3];
        if (thorough) limit = 500;
        g.seed(seed * 7919 + 13);
        setvbuf(stdout, 0, _IOLBF, 0);
    }
    bool out_of_time() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit; }
    double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
    int irand(int a, int b) { return a + int(g() % (unsigned long)(b - a + 1)); }
    double drand(double a = -1, double b = 1) { return a + (b - a) * ((g() >> 11) * (1.0 / 9007199254740992.0)); }
    template <typename V> const typename V::value_type &pick(const V &v) { return v[g() % v.size()]; }
    // a case about to run (printed last if the program dies)
    void at(const std::string &what, const std::string &args) {
        cases++;
        if (seen.insert(std::hash<std::string>()(what + args)).second) distinct++;
        if (!quiet && rank == 0) {
            cur = what + " # " + args;
            if (cases <= 3) printf("SAMPLE %s\n", cur.c_str());
            printf("AT %s\n", cur.c_str());
        }
    }
    std::string cur;
    void fail(const std::string &key, const std::string &desc) {
        if (nfail[key]++ < 3 && rank == 0) printf("FAIL %s | %s\n", key.c_str(), desc.c_str());
    }
    void check(bool ok, const std::string &key, const std::string &desc) {
        if (!ok) fail(key, desc + " [" + cur + "]");
    }
    int done() {
        if (rank == 0) printf("CASES %ld %ld\n", cases, distinct);
        fflush(stdout);
        return 0;
    }
};
template <typename T> struct Rnd;
template <> struct Rnd<double> { static double get(Run &r) { return r.drand(); } };
template <> struct Rnd<cd> { static cd get(Run &r) { double a = r.drand(); return cd(a, r.drand()); } };
inline double cj(double x) { return x; }
inline cd cj(cd x) { return std::conj(x); }
template <typename T> const char *tn();
template <> inline const char *tn<double>() { return "double"; }
template <> inline const char *tn<cd>() { return "complex"; }
// naive reference matrix, column major
template <typename T>
struct D {
    int r = 0, c = 0;
    std::vector<T> d;
    D() {}
    D(int r_, int c_, T v = T(0)) : r(r_), c(c_), d((size_t)r_ * c_, v) {}
    T &operator()(int i, int j) { return d[i + (size_t)j * r]; }
    const T &operator()(int i, int j) const { return d[i + (size_t)j * r]; }
    static D rnd(Run &R, int r, int c) {
        D x(r, c);
        for (auto &v : x.d) v = Rnd<T>::get(R);
        return x;
    }
    D op(char t) const {
        if (t == 'N') return *this;
        D x(c, r);
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++) x(j, i) = t == 'C' ? T(cj((*this)(i, j))) : (*this)(i, j);
        return x;
    }
    D mul(const D &o) const {
        D x(r, o.c);
        for (int j = 0; j < o.c; j++)
            for (int k = 0; k < c; k++)
                for (int i = 0; i < r; i++) x(i, j) += (*this)(i, k) * o(k, j);
        return x;
    }
    D axpby(T a, T b, const D &o) const { // a*this + b*o
        D x(r, c);
        for (size_t i = 0; i < d.size(); i++) x.d[i] = a * d[i] + b * o.d[i];
        return x;
    }
    D sym(char uplo, bool herm) const { // the symmetric matrix of which only the uplo triangle is stored
        D x(r, c);
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++) {
                bool in = uplo == 'L' ? i >= j : i <= j;
                x(i, j) = in ? (*this)(i, j) : (herm ? T(cj((*this)(j, i))) : (*this)(j, i));
                if (herm && i == j) x(i, j) = std::real((*this)(i, j));
            }
        return x;
    }
    D tri(char uplo, char diag) const {
        D x(r, c);
        for (int i = 0; i < r; i++)
            for (int j = 0; j < c; j++) {
                bool in = uplo == 'L' ? i >= j : i <= j;
                if (in) x(i, j) = (*this)(i, j);
                if (i == j && diag == 'U') x(i, j) = 1;
            }
        return x;
    }
    D sub(int i0, int m, int j0, int n) const {
        D x(m, n);
        for (int i = 0; i < m; i++)
            for (int j = 0; j < n; j++) x(i, j) = (*this)(i0 + i, j0 + j);
        return x;
    }
    double norm() const {
        double s = 0;
        for (auto &v : d) s += std::norm(v);
        return std::sqrt(s);
    }
};
template <typename T> double dist(const D<T> &a, const D<T> &b) {
    if (a.r != b.r || a.c != b.c) return 1e300;
    double s = 0;
    for (size_t i = 0; i < a.d.size(); i++) {
        double e = std::norm(a.d[i] - b.d[i]);
        if (!(e == e)) return 1e300;
        s += e;
    }
    return std::sqrt(s);
}
template <typename T> bool close(const D<T> &a, const D<T> &b, double tol = 1e-9) { return dist(a, b) <= tol * (1 + a.norm() + b.norm()); }
template <typename T> std::string dd(const D<T> &a, const D<T> &b) {
    std::ostringstream o;
    o << "relative difference " << dist(a, b) / (1e-300 + b.norm()) << " (" << a.r << "x" << a.c << ")";
    return o.str();
}
template <typename T> T pick_scal(Run &R) {
    switch (R.irand(0, 3)) {
    case 0: return T(0);
    case 1: return T(1);
    default: return Rnd<T>::get(R) * 2.;
    }
}
#ifdef HTOOL_MATRIX_HPP
template <typename T> htool::Matrix<T> to_h(const D<T> &a) {
    htool::Matrix<T> m(a.r, a.c);
    for (int i = 0; i < a.r; i++)
        for (int j = 0; j < a.c; j++) m(i, j) = a(i, j);
    return m;
}
template <typename M> auto from_h(const M &m) -> D<typename std::decay<decltype(m(0, 0))>::type> {
    D<typename std::decay<decltype(m(0, 0))>::type> a(m.nb_rows(), m.nb_cols());
    for (int i = 0; i < a.r; i++)
        for (int j = 0; j < a.c; j++) a(i, j) = m(i, j);
    return a;
}
#endif
template <typename... A> std::string S(A... a) {
    std::ostringstream o;
    int x[] = {0, (o << a << ' ', 0)...};
    (void)x;
    return o.str();
}
} // namespace hv
