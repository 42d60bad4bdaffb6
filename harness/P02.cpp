// P02: splitting strategies tile a cluster, direction strategies find the direction of largest extent.
#include "hm.hpp"
#include <numeric>
using namespace hv;
using namespace htool;
static void splits(Run &R) {
    int dim = R.irand(2, 3), n = R.irand(1, 120), k = R.irand(1, 6), mn = R.pick(std::vector<int>{0, 1, 2, 5, 10, 30});
    int total = n + R.irand(0, 30), off = R.irand(0, total - n);
    Geo g(R, total, dim);
    std::vector<double> cen(dim, 0.), dir(dim, 0.);
    for (auto &v : dir) v = R.drand();
    if (R.irand(0, 2) == 0) { std::fill(dir.begin(), dir.end(), 0.); dir[R.irand(0, dim - 1)] = 1; }
    std::vector<int> perm(total);
    std::iota(perm.begin(), perm.end(), 0);
    std::shuffle(perm.begin(), perm.end(), R.g);
    if (R.irand(0, 3)) std::sort(perm.begin() + off, perm.begin() + off + n, [&](int a, int b) {
        double x = 0, y = 0;
        for (int p = 0; p < dim; p++) { x += dir[p] * g.x[size_t(a) * dim + p]; y += dir[p] * g.x[size_t(b) * dim + p]; }
        return x < y;
    });
    Cluster<double> c(0., cen, 0, off, n);
    for (int kind = 0; kind < 2; kind++) {
        std::string what = S(kind ? "GeometricSplitting" : "RegularSplitting", "offset", off, "size", n, "children", k, "minsize", mn, "dim", dim);
        R.at(kind ? "GeometricSplitting" : "RegularSplitting", what);
        std::vector<std::pair<int, int>> out(R.irand(0, 7), {-5, -5});
        auto p0 = perm;
        if (kind) GeometricSplitting<double>().splitting(&c, perm, dim, g.x.data(), k, mn, dir, out);
        else RegularSplitting<double>().splitting(&c, perm, dim, g.x.data(), k, mn, dir, out);
        bool ok = out.empty() || int(out.size()) == k;
        int o   = off;
        for (auto &q : out) {
            if (q.first != o || q.second <= mn) ok = false;
            o += q.second;
        }
        if (!out.empty() && o != off + n) ok = false;
        R.check(ok, kind ? "GeometricSplitting tiles the cluster" : "RegularSplitting tiles the cluster", what);
        bool must = n / k > mn && (!kind || n > k);
        R.check(must == !out.empty() || (kind && !out.empty()), kind ? "GeometricSplitting divides whatever it can" : "RegularSplitting divides whatever it can", what);
        R.check(perm == p0, "splitting leaves the permutation alone", what);
    }
}
static void dirs(Run &R) {
    int dim = R.irand(2, 3), n = R.irand(2, 40), total = n + R.irand(0, 10), off = R.irand(0, total - n);
    Geo g(R, total, dim);
    double shift = R.pick(std::vector<double>{0., -50., 50.});
    int ax       = R.irand(0, dim - 1);
    for (int i = 0; i < total; i++)
        for (int p = 0; p < dim; p++) g.x[size_t(i) * dim + p] = (p == ax ? 3. : 1.) * g.x[size_t(i) * dim + p] + shift;
    std::vector<int> perm(total);
    std::iota(perm.begin(), perm.end(), 0);
    std::shuffle(perm.begin(), perm.end(), R.g);
    std::vector<double> w(total), rad(total, 0.);
    for (auto &v : w) v = R.drand(0.5, 2.);
    std::vector<double> cen(dim, 0.);
    double tw = 0;
    for (int i = 0; i < n; i++) {
        tw += w[perm[off + i]];
        for (int p = 0; p < dim; p++) cen[p] += w[perm[off + i]] * g.x[size_t(perm[off + i]) * dim + p];
    }
    for (auto &v : cen) v /= tw;
    Cluster<double> c(0., cen, 0, off, n);
    std::string what = S("offset", off, "size", n, "dim", dim, "shift", shift);
    R.at("ComputeBoundingBox", what);
    auto d = ComputeBoundingBox<double>().compute_direction(&c, perm, dim, g.x.data(), rad.data(), w.data());
    std::vector<double> ext(dim);
    for (int p = 0; p < dim; p++) {
        double lo = 1e300, hi = -1e300;
        for (int i = 0; i < n; i++) { double v = g.x[size_t(perm[off + i]) * dim + p]; lo = std::min(lo, v); hi = std::max(hi, v); }
        ext[p] = hi - lo;
    }
    int axis = -1;
    bool unit = int(d.size()) == dim;
    for (int p = 0; unit && p < dim; p++) {
        if (d[p] == 1) { if (axis >= 0) unit = false; axis = p; }
        else if (d[p] != 0) unit = false;
    }
    R.check(unit && axis >= 0 && ext[axis] >= *std::max_element(ext.begin(), ext.end()), "ComputeBoundingBox picks the axis of largest extent", what);
    R.at("ComputeLargestExtent", what);
    auto e = ComputeLargestExtent<double>().compute_direction(&c, perm, dim, g.x.data(), rad.data(), w.data());
    std::vector<double> cov(dim * dim, 0.);
    for (int i = 0; i < n; i++)
        for (int p = 0; p < dim; p++)
            for (int q = 0; q < dim; q++) cov[p + dim * q] += w[perm[off + i]] * (g.x[size_t(perm[off + i]) * dim + p] - cen[p]) * (g.x[size_t(perm[off + i]) * dim + q] - cen[q]);
    std::vector<double> v(dim, 1.), u(dim);
    double lam = 0, nrm = 0;
    for (int s = 0; s < dim; s++) { // power iteration from every axis
        std::fill(v.begin(), v.end(), 0.01);
        v[s] = 1;
        for (int it = 0; it < 500; it++) {
            double m = 0;
            for (int p = 0; p < dim; p++) { u[p] = 0; for (int q = 0; q < dim; q++) u[p] += cov[p + dim * q] * v[q]; m += u[p] * u[p]; }
            m = std::sqrt(m);
            if (m == 0) break;
            for (int p = 0; p < dim; p++) v[p] = u[p] / m;
            lam = std::max(lam, m);
        }
    }
    double ray = 0;
    for (int p = 0; p < dim; p++) {
        nrm += e[p] * e[p];
        for (int q = 0; q < dim; q++) ray += e[p] * cov[p + dim * q] * e[q];
    }
    if (lam > 1e-3) {
        R.check(std::abs(nrm - 1) < 1e-6, "ComputeLargestExtent returns a unit vector", what + S(nrm));
        R.check(ray > lam * (1 - 1e-3) * nrm, "ComputeLargestExtent returns the principal direction", what + S(ray, lam));
    }
}
int main(int argc, char **argv) {
    Run R;
    R.init(argc, argv);
    for (int i = 0; i < (R.thorough ? 100000 : 12000) && !R.out_of_time(); i++) { splits(R); dirs(R); }
    return R.done();
}
