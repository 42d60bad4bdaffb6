// distributed operators: every product, on every rank, against the global matrix the operator stands for
#include "hm.hpp"
#include <htool/distributed_operator/distributed_operator.hpp>
#include <htool/distributed_operator/utility.hpp>
#include <htool/local_operators/local_dense_matrix.hpp>
#include <htool/local_operators/local_hmatrix.hpp>
#include <mpi.h>
#include <unistd.h>
#include <signal.h>
using namespace hv;
using namespace htool;
static int me, np;
static char curtxt[2000];
static void hang(int) {
    printf("FAIL no-progress | a collective operation did not return within 90 s: %s\n", curtxt);
    fflush(stdout);
    _exit(3);
}
// a partition given by sizes (zero included) and permutations, with no cluster behind it
template <typename T> struct Part final : IPartition<T> {
    std::vector<int> off, perm; // user index of each index of the partition
    bool local;
    int get_size_of_partition(int i) const override { return off[i + 1] - off[i]; }
    int get_offset_of_partition(int i) const override { return off[i]; }
    int get_global_size() const override { return off.back(); }
    void global_to_partition_numbering(const T *in, T *out) const override { for (int i = 0; i < off.back(); i++) out[i] = in[perm[i]]; }
    void partition_to_global_numbering(const T *in, T *out) const override { for (int i = 0; i < off.back(); i++) out[perm[i]] = in[i]; }
    void local_to_local_partition_numbering(int k, const T *in, T *out) const override { for (int i = off[k]; i < off[k + 1]; i++) out[i - off[k]] = in[perm[i] - off[k]]; }
    void local_partition_to_local_numbering(int k, const T *in, T *out) const override { for (int i = off[k]; i < off[k + 1]; i++) out[perm[i] - off[k]] = in[i - off[k]]; }
    bool is_renumbering_local() const override { return local; }
    static Part make(Run &R, int maxsize, bool local) {
        Part p;
        p.local = local;
        p.off.assign(1, 0);
        for (int i = 0; i < np; i++) p.off.push_back(p.off.back() + (R.irand(0, 3) ? R.irand(1, maxsize) : R.irand(0, 1)));
        if (p.off.back() == 0) for (int i = np; i >= 1; i--) p.off[i] = 2; 
        p.perm.resize(p.off.back());
        for (size_t i = 0; i < p.perm.size(); i++) p.perm[i] = i;
        if (local) for (int k = 0; k < np; k++) std::shuffle(p.perm.begin() + p.off[k], p.perm.begin() + p.off[k + 1], R.g);
        else std::shuffle(p.perm.begin(), p.perm.end(), R.g);
        return p;
    }
};
// naive local operator: all the rows of this rank, some of the columns
template <typename T> struct Op final : VirtualLocalOperator<T> {
    D<T> G; // nr x (global number of columns)
    int nr, nc;
    void gl(T a, const T *in, T b, T *out, int mu) const {
        for (int i = 0; i < nr; i++)
            for (int m = 0; m < mu; m++) {
                T s = 0;
                for (int j = 0; j < nc; j++) s += G(i, j) * in[size_t(j) * mu + m];
                out[size_t(i) * mu + m] = a * s + b * out[size_t(i) * mu + m];
            }
    }
    void lg(T a, const T *in, T b, T *out, int mu) const {
        for (int j = 0; j < nc; j++)
            for (int m = 0; m < mu; m++) {
                T s = 0;
                for (int i = 0; i < nr; i++) s += G(i, j) * in[size_t(i) * mu + m];
                out[size_t(j) * mu + m] = a * s + b * out[size_t(j) * mu + m];
            }
    }
    void add_vector_product_global_to_local(T a, const T *in, T b, T *out) const override { gl(a, in, b, out, 1); }
    void add_matrix_product_global_to_local(T a, const T *in, T b, T *out, int mu) const override { gl(a, in, b, out, mu); }
    void add_vector_product_transp_local_to_global(T a, const T *in, T b, T *out) const override { lg(a, in, b, out, 1); }
    void add_matrix_product_transp_local_to_global(T a, const T *in, T b, T *out, int mu) const override { lg(a, in, b, out, mu); }
    void sub_matrix_product_to_local(const T *in, T *out, int mu, int offset, int size) const override {
        for (int i = 0; i < nr; i++)
            for (int m = 0; m < mu; m++) {
                T s = 0;
                for (int j = std::max(0, offset); j < std::min(nc, offset + size); j++) s += G(i, j) * in[size_t(j - offset) * mu + m];
                out[size_t(i) * mu + m] += s;
            }
    }
};
template <typename T> D<T> colmajor(const std::vector<T> &v, int n, int mu) {
    D<T> x(n, mu);
    std::copy_n(v.begin(), size_t(n) * mu, x.d.begin());
    return x;
}
template <typename T> std::vector<T> rowv(const D<T> &x) {
    std::vector<T> v(x.d.size());
    for (int i = 0; i < x.r; i++)
        for (int j = 0; j < x.c; j++) v[size_t(i) * x.c + j] = x(i, j);
    return v;
}
template <typename T> D<T> rowm(const std::vector<T> &v, int n, int mu) {
    D<T> x(n, mu);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < mu; j++) x(i, j) = v[size_t(i) * mu + j];
    return x;
}
struct Sync {
    Run &R;
    double tol;
    template <typename T> void cmp(const D<T> &got, const D<T> &ref, const std::string &key) {
        int bad = !close(got, ref, tol), worst = 0;
        MPI_Allreduce(&bad, &worst, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
        if (bad) { printf("FAIL %s | rank %d: %s [%s]\n", key.c_str(), me, dd(got, ref).c_str(), curtxt); fflush(stdout); }
    }
    void at(const std::string &what, const std::string &args) {
        R.at(what, args);
        std::string c = what + " # " + args;
        strncpy(curtxt, c.c_str(), sizeof curtxt - 1);
        alarm(90);
    }
    void same(bool ok, const std::string &key) {
        int bad = !ok, worst = 0;
        MPI_Allreduce(&bad, &worst, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
        if (bad) { printf("FAIL %s | rank %d [%s]\n", key.c_str(), me, curtxt); fflush(stdout); }
    }
};
template <typename T> void fillrnd(Run &R, std::vector<T> &v) { for (auto &x : v) x = Rnd<T>::get(R); }
// Gp: the global matrix in the numbering of the partitions; pT, pS: user index of each index of the partition
template <typename T> void products(Run &R, const DistributedOperator<T> &A0, const D<T> &Gp, const std::vector<int> &pT, const std::vector<int> &oT, const std::vector<int> &pS, const std::vector<int> &oS, bool localperm, const std::string &what, const std::string &kind, double tol) {
    auto &A = const_cast<DistributedOperator<T> &>(A0);
    Sync s{R, tol};
    int nr = Gp.r, nc = Gp.c, lt = oT[me + 1] - oT[me], ls = oS[me + 1] - oS[me], t0 = oT[me], s0 = oS[me];
    D<T> Gu(nr, nc);
    for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) Gu(pT[i], pS[j]) = Gp(i, j);
    for (int up = 0; up < 2; up++) {
        A.use_permutation() = up;
        const D<T> &G = up ? Gu : Gp;
        for (int v = 0; v < 2; v++) {
            int mu = v ? R.irand(1, 4) : 1;
            std::string a = what + S("mu", mu, "use_permutation", up), k = kind + (v ? " matrix" : " vector");
            auto X = D<T>::rnd(R, nc, mu), Y = D<T>::rnd(R, nr, mu);
            std::vector<T> out(size_t(nr) * mu);
            fillrnd(R, out);
            auto in = X.d;
            s.at("global_to_global", a);
            v ? A.matrix_product_global_to_global(in.data(), out.data(), mu) : A.vector_product_global_to_global(in.data(), out.data());
            s.cmp(colmajor(out, nr, mu), G.mul(X), k + " product global_to_global");
            s.same(in == X.d, k + " product global_to_global modified its input");
            out.resize(size_t(nc) * mu);
            fillrnd(R, out);
            in = Y.d;
            s.at("transp_global_to_global", a);
            v ? A.matrix_product_transp_global_to_global(in.data(), out.data(), mu) : A.vector_product_transp_global_to_global(in.data(), out.data());
            s.cmp(colmajor(out, nc, mu), G.op('T').mul(Y), k + " transposed product global_to_global");
            s.same(in == Y.d, k + " transposed product global_to_global modified its input");
            if (!up || localperm) {
                bool w = R.irand(0, 1);
                std::vector<T> work(w ? (size_t(nc) + size_t(np) * ls) * mu : 0);
                out.assign(size_t(lt) * mu, T(7));
                in = X.sub(s0, ls, 0, mu).d;
                auto in0 = in;
                s.at("local_to_local", a + S("work", w));
                v ? A.matrix_product_local_to_local(in.data(), out.data(), mu, w ? work.data() : nullptr) : A.vector_product_local_to_local(in.data(), out.data(), w ? work.data() : nullptr);
                s.cmp(colmajor(out, lt, mu), G.mul(X).sub(t0, lt, 0, mu), k + " product local_to_local");
                s.same(in == in0, k + " product local_to_local modified its input");
                for (auto &x : work) x = T(3);
                out.assign(size_t(ls) * mu, T(7));
                in  = Y.sub(t0, lt, 0, mu).d;
                in0 = in;
                s.at("transp_local_to_local", a + S("work", w));
                v ? A.matrix_product_transp_local_to_local(in.data(), out.data(), mu, w ? work.data() : nullptr) : A.vector_product_transp_local_to_local(in.data(), out.data(), w ? work.data() : nullptr);
                s.cmp(colmajor(out, ls, mu), G.op('T').mul(Y).sub(s0, ls, 0, mu), k + " transposed product local_to_local");
                s.same(in == in0, k + " transposed product local_to_local modified its input");
            }
            // internal numbering, several vectors by rows
            out.assign(size_t(lt) * mu, T(7));
            in = rowv(X);
            s.at("internal global_to_local", a);
            v ? A.internal_matrix_product_global_to_local(in.data(), out.data(), mu) : A.internal_vector_product_global_to_local(in.data(), out.data());
            s.cmp(rowm(out, lt, mu), Gp.mul(X).sub(t0, lt, 0, mu), k + " internal product global_to_local");
            out.assign(size_t(nc) * mu, T(7));
            in = rowv(Y.sub(t0, lt, 0, mu));
            s.at("internal transp_local_to_global", a);
            v ? A.internal_matrix_product_transp_local_to_global(in.data(), out.data(), mu) : A.internal_vector_product_transp_local_to_global(in.data(), out.data());
            s.cmp(rowm(out, nc, mu), Gp.op('T').mul(Y), k + " internal transposed product local_to_global");
            bool w = R.irand(0, 1);
            std::vector<T> work(w ? (size_t(nc) + size_t(np) * ls) * mu : 0, T(5));
            out.assign(size_t(lt) * mu, T(7));
            in = rowv(X.sub(s0, ls, 0, mu));
            s.at("internal local_to_local", a + S("work", w));
            v ? A.internal_matrix_product_local_to_local(in.data(), out.data(), mu, w ? work.data() : nullptr) : A.internal_vector_product_local_to_local(in.data(), out.data(), w ? work.data() : nullptr);
            s.cmp(rowm(out, lt, mu), Gp.mul(X).sub(t0, lt, 0, mu), k + " internal product local_to_local");
            out.assign(size_t(ls) * mu, T(7));
            in = rowv(Y.sub(t0, lt, 0, mu));
            s.at("internal transp_local_to_local", a + S("work", w));
            v ? A.internal_matrix_product_transp_local_to_local(in.data(), out.data(), mu, w ? work.data() : nullptr) : A.internal_vector_product_transp_local_to_local(in.data(), out.data(), w ? work.data() : nullptr);
            s.cmp(rowm(out, ls, mu), Gp.op('T').mul(Y).sub(s0, ls, 0, mu), k + " internal transposed product local_to_local");
            int o = R.irand(0, nc - 1), n = R.irand(1, nc - o);
            out.assign(size_t(lt) * mu, T(7));
            in = rowv(X.sub(o, n, 0, mu));
            s.at("internal sub product", a + S("offset", o, "size", n));
            A.internal_sub_matrix_product_to_local(in.data(), out.data(), mu, o, n);
            s.cmp(rowm(out, lt, mu), Gp.sub(t0, lt, o, n).mul(X.sub(o, n, 0, mu)), kind + " internal product of a part of the source");
            out.assign(size_t(nc) * mu, T(7));
            in = rowv(X.sub(s0, ls, 0, mu));
            s.at("local_to_global_source", a);
            A.local_to_global_source(in.data(), out.data(), mu);
            s.cmp(rowm(out, nc, mu), X, kind + " local_to_global_source");
            out.assign(size_t(nr) * mu, T(7));
            in = rowv(Y.sub(t0, lt, 0, mu));
            s.at("local_to_global_target", a);
            A.local_to_global_target(in.data(), out.data(), mu);
            s.cmp(rowm(out, nr, mu), Y, kind + " local_to_global_target");
        }
    }
    alarm(0);
}
// naive pieces: the logic of the distributed operator alone
template <typename T> void naive(Run &R) {
    char sy    = R.pick(syms<T>());
    bool local = R.irand(0, 1);
    auto pt = Part<T>::make(R, 9, local), ps = sy == 'N' && R.irand(0, 2) ? Part<T>::make(R, 9, local) : pt;
    if (sy == 'N') { ps.local = R.irand(0, 1) ? ps.local : ps.local; }
    int nr = pt.off.back(), nc = ps.off.back();
    auto G = D<T>::rnd(R, nr, nc);
    if (sy != 'N') G = G.sym('L', sy == 'H');
    const IPartition<T> &PT = pt, &PS = sy == 'N' ? (const IPartition<T> &)ps : pt;
    DistributedOperator<T> A(PT, PS, sy, sy == 'N' ? 'N' : 'L', MPI_COMM_WORLD);
    int k = R.irand(1, 3); // several local operators, which overlap
    std::vector<Op<T>> ops(k);
    D<T> rest = G.sub(pt.off[me], pt.off[me + 1] - pt.off[me], 0, nc);
    for (int q = 0; q < k; q++) {
        ops[q].nr = rest.r;
        ops[q].nc = nc;
        ops[q].G  = rest;
        if (q + 1 < k) {
            Run L;
            L.g.seed(R.seed * 31 + R.cases * 7 + q + 1000 * me);
            ops[q].G = D<T>::rnd(L, rest.r, nc);
            rest     = rest.axpby(T(1), T(-1), ops[q].G);
        }
    }
    for (auto &o : ops) A.add_local_operator(&o);
    products(R, A, G, pt.perm, pt.off, ps.perm, ps.off, local, S(tn<T>(), "naive pieces, symmetry", sy, "rows", nr, "cols", nc, "operators", k, "local permutation", local), std::string("DistributedOperator symmetry ") + sy, 1e-9);
}
template <typename T> std::vector<int> offsets(const Cl &c) {
    std::vector<int> o;
    for (auto *p : c.get_clusters_on_partition()) o.push_back(p->get_offset());
    o.push_back(c.get_size());
    return o;
}
template <typename T> struct Kern : VirtualGenerator<T> {
    const Geo &t, &s;
    char sy;
    Kern(const Geo &t_, const Geo &s_, char y) : t(t_), s(s_), sy(y) {}
    T val(int i, int j) const {
        double d = 1, u = 0; // of rank 6 in two dimensions, so that compression is exact
        for (int p = 0; p < t.dim; p++) { double x = t.x[size_t(i) * t.dim + p], y = s.x[size_t(j) * s.dim + p]; d += x * y * (p + 1); u += (p + 1) * (x - y); }
        return make((T *)0, d * d, u);
    }
    double make(double *, double a, double) const { return a; }
    cd make(cd *, double a, double u) const { return a * (sy == 'H' ? std::exp(cd(0, 0.5 * u)) : cd(1, 0.5)); }
    void copy_submatrix(int M, int N, const int *r, const int *c, T *p) const override {
        for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) p[i + size_t(M) * j] = val(r[i], c[j]);
    }
};
template <typename T> std::shared_ptr<Cl> dcluster(Run &R, const Geo &g, bool given, int minsize) {
    ClusterTreeBuilder<double> b;
    b.set_minclustersize(minsize);
    if (!given) return std::make_shared<Cl>(b.create_cluster_tree(g.n, g.dim, g.x.data(), 2, np));
    std::vector<int> part(2 * np);
    int o = 0;
    for (int k = 0; k < np; k++) {
        int n = k + 1 < np ? g.n / np + R.irand(-2, 2) : g.n - o;
        part[2 * k] = o;
        part[2 * k + 1] = n;
        o += n;
    }
    return std::make_shared<Cl>(b.create_cluster_tree(g.n, g.dim, g.x.data(), 2, np, part.data()));
}
template <typename T> void assembled(Run &R) {
    char sy  = R.pick(syms<T>());
    bool same = sy != 'N' || R.irand(0, 1), given = R.irand(0, 1);
    int m = R.irand(20 * np, 40 * np), n = same ? m : R.irand(20 * np, 40 * np);
    Geo gt(R, m, 2), gs2(R, n, 2);
    for (auto *g : {&gt, &gs2}) for (auto &x : g->x) x = R.drand();
    const Geo &gs = same ? gt : gs2;
    auto t = dcluster<T>(R, gt, given, R.irand(2, 6)), s = same ? t : dcluster<T>(R, gs2, given, R.irand(2, 6));
    Kern<T> gen(gt, gs, sy);
    D<T> Gp(m, n);
    auto pT = t->get_permutation(), pS = s->get_permutation();
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) Gp(i, j) = gen.val(pT[i], pS[j]);
    char uplo = sy == 'N' ? 'N' : R.pick(std::vector<char>{'L', 'U'});
    auto oT = offsets<T>(*t), oS = offsets<T>(*s);
    std::string what = S(tn<T>(), "symmetry", sy, uplo, "rows", m, "cols", n, "given partition", given);
    int kind = R.irand(0, sy == 'N' ? 2 : 1);
    snprintf(curtxt, sizeof curtxt, "building %s", what.c_str());
    alarm(90);
    if (kind == 0) {
        R.at("default builder", what);
        DefaultApproximationBuilder<T, double> b(gen, *t, *s, 1e-10, 2., sy, uplo, MPI_COMM_WORLD);
        products(R, b.distributed_operator, Gp, pT, oT, pS, oS, given, what, std::string("default approximation symmetry ") + sy, 1e-6);
    } else if (kind == 1) {
        R.at("custom builder, dense rows", what);
        auto M = to_h(Gp.sub(oT[me], oT[me + 1] - oT[me], 0, n));
        LocalDenseMatrix<T, double> L(M, t->get_cluster_on_partition(me), *s, 'N', 'N');
        CustomApproximationBuilder<T, double> b(*t, *s, sy, uplo, MPI_COMM_WORLD, L);
        products(R, b.distributed_operator, Gp, pT, oT, pS, oS, given, what, std::string("custom approximation symmetry ") + sy, 1e-9);
    } else {
        R.at("local block and dense off-diagonal blocks", what);
        DefaultLocalApproximationBuilder<T, double> b(gen, *t, *s, 1e-10, 2., sy, uplo, MPI_COMM_WORLD);
        std::vector<Matrix<T>> M;
        std::vector<std::unique_ptr<LocalDenseMatrix<T, double>>> ops;
        for (int k = 0; k < np; k++) M.push_back(to_h(Gp.sub(oT[me], oT[me + 1] - oT[me], oS[k], oS[k + 1] - oS[k])));
        for (int k = 0; k < np; k++)
            if (k != me) {
                ops.push_back(std::make_unique<LocalDenseMatrix<T, double>>(M[k], t->get_cluster_on_partition(me), s->get_cluster_on_partition(k), 'N', 'N'));
                b.distributed_operator.add_local_operator(ops.back().get());
            }
        products(R, b.distributed_operator, Gp, pT, oT, pS, oS, given, what, "default local approximation", 1e-6);
    }
}
int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &me);
    MPI_Comm_size(MPI_COMM_WORLD, &np);
    signal(SIGALRM, hang);
    Run R;
    R.init(argc, argv);
    R.rank  = me;
    R.limit = R.thorough ? 150 : 25;
    for (int i = 0; i < (R.thorough ? 3000 : 60); i++) {
        int stop = R.out_of_time();
        MPI_Bcast(&stop, 1, MPI_INT, 0, MPI_COMM_WORLD);
        if (stop) break;
        naive<double>(R);
        naive<cd>(R);
        assembled<double>(R);
        assembled<cd>(R);
    }
    R.done();
    MPI_Finalize();
    return 0;
}
