// P05: the leaves of the block tree cover every pair of points exactly once.
#include "hm.hpp"
using namespace hv;
using namespace htool;
template <typename T> struct Counting : VirtualGenerator<T> {
    int m, n;
    mutable std::vector<int> cnt;
    mutable bool bad = false;
    Counting(int m_, int n_) : m(m_), n(n_), cnt(size_t(m_) * n_, 0) {}
    void copy_submatrix(int M, int N, const int *rows, const int *cols, T *ptr) const override {
        for (int i = 0; i < M; i++)
            for (int j = 0; j < N; j++) {
                if (rows[i] < 0 || rows[i] >= m || cols[j] < 0 || cols[j] >= n) { bad = true; continue; }
#pragma omp atomic
                cnt[rows[i] + size_t(m) * cols[j]]++;
                ptr[i + size_t(M) * j] = T(1 + rows[i] + 100. * cols[j]);
            }
    }
};
struct NearAdm : VirtualAdmissibilityCondition<double> {
    bool ComputeAdmissibility(const Cl &t, const Cl &s, double eta) const override {
        double d = 0;
        for (size_t p = 0; p < t.get_center().size(); p++) d += std::pow(t.get_center()[p] - s.get_center()[p], 2);
        return 2 * std::min(t.get_radius(), s.get_radius()) < eta * std::max(0., std::sqrt(d) - t.get_radius() - s.get_radius());
    }
};
template <typename T> void one(Run &R, char sym, char uplo) {
    Opt o;
    o.nmax = 50;
    o.parts = R.irand(1, 4);
    o.indep = R.irand(0, 1);
    if (R.irand(0, 3) == 0) {
        o.children = R.irand(2, 3);
        o.parts    = o.children == 2 ? R.pick(std::vector<int>{4, 8}) : 9; // several levels above the parts
    }
    o.consistent = sym != 'N' || R.irand(0, 2) > 0;
    if (R.irand(0, 1)) o.part = R.irand(0, o.parts - 1);
    bool localroot = o.part < 0 && R.irand(0, 2) == 0; // a builder on a partition's clusters
    Case<T> c;
    make_trees<T>(R, c, sym != 'N' || R.irand(0, 1), o);
    int loc = R.irand(0, o.parts - 1);
    const Cl &t = localroot ? c.t->get_cluster_on_partition(loc) : *c.t, &s = localroot ? c.s->get_cluster_on_partition(std::min<int>(loc, c.s->get_clusters_on_partition().size() - 1)) : *c.s;
    double eta = R.pick(std::vector<double>{0.5, 3., 10., 100.});
    // partition_number_for_symmetry only makes sense with a target partition
    HMatrixTreeBuilder<T, double> b(t, s, 1e-8, eta, sym, uplo, -1, o.part, o.part);
    int admk = R.irand(0, 3), den = R.pick(std::vector<int>{0, 20, 50, 90});
    unsigned long aseed = R.g();
    if (admk == 1) b.set_admissibility_condition(std::make_shared<RandAdm>(aseed, den, sym != 'N'));
    if (admk == 2) b.set_admissibility_condition(std::make_shared<NearAdm>());
    int md = R.irand(0, 2) ? 0 : R.irand(1, 3), ms = R.irand(0, 2) ? 0 : R.irand(1, 3);
    b.set_minimal_target_depth(md);
    b.set_minimal_source_depth(ms);
    if (!o.consistent) b.set_block_tree_consistency(false);
    b.set_low_rank_generator(std::make_shared<RandLR<T>>(R.g(), 2));
    c.what += S(tn<T>(), "sym", sym, uplo, "part", o.part, "localroot", localroot, "eta", eta, "adm", admk, den, "mindepth", md, ms, "consistent", o.consistent);
    for (int rep = 0; rep < 2; rep++) {
        R.at("HMatrixTreeBuilder::build", c.what + S("build", rep));
        Counting<T> gen(c.t->get_size(), c.s->get_size());
        auto H = b.build(gen);
        const Cl &rt = o.part >= 0 ? t.get_cluster_on_partition(o.part) : t;
        R.check(H.get_target_cluster() == rt && H.get_source_cluster() == s, "root block", "wrong clusters");
        int m = rt.get_size(), n = s.get_size(), r0 = rt.get_offset(), c0 = s.get_offset();
        R.check(H.get_target_cluster().get_offset() == r0, "root offset", "wrong");
        std::vector<int> cover(size_t(m) * n, 0), stored(size_t(m) * n, 0);
        bool inside = true, onedata = true, nested = true, admok = true, dim = true, leafsym = true, gens = true;
        std::vector<std::pair<const HMatrix<T, double> *, char>> st{{&H, 'N'}};
        auto adm = [&](const Cl &a, const Cl &q) {
            if (admk == 1) return RandAdm(aseed, den, sym != 'N').ComputeAdmissibility(a, q, eta);
            if (admk == 2) return NearAdm().ComputeAdmissibility(a, q, eta);
            return RjasanowSteinbach<double>().ComputeAdmissibility(a, q, eta);
        };
        int nd = 0, nl = 0;
        while (!st.empty()) {
            auto *h = st.back().first;
            char up = st.back().second;
            st.pop_back();
            auto &a = h->get_target_cluster();
            auto &q = h->get_source_cluster();
            if (h->get_symmetry() != 'N') up = h->get_symmetry();
            if (h->get_symmetry() != 'N' && (a.get_offset() != q.get_offset() || a.get_size() != q.get_size() || h->get_symmetry() != sym || h->get_UPLO() != uplo)) leafsym = false;
            if (h->is_leaf()) {
                h->is_dense() ? nd++ : nl++;
                if (h->is_dense() + h->is_low_rank() != 1 || (h->get_dense_data() != nullptr) != h->is_dense() || (h->get_low_rank_data() != nullptr) != h->is_low_rank()) onedata = false;
                if (h->is_low_rank() && (!adm(a, q) || int(a.get_depth()) < md || int(q.get_depth()) < ms)) admok = false;
                if (h->is_low_rank() && h->get_low_rank_data()->rank_of() > 0 && (h->get_low_rank_data()->nb_rows() != a.get_size() || h->get_low_rank_data()->nb_cols() != q.get_size())) dim = false;
                if (h->is_dense() && (h->get_dense_data()->nb_rows() != a.get_size() || h->get_dense_data()->nb_cols() != q.get_size())) dim = false;
                for (int i = 0; i < a.get_size(); i++)
                    for (int j = 0; j < q.get_size(); j++) {
                        int x = a.get_offset() - r0 + i, y = q.get_offset() - c0 + j;
                        if (x < 0 || x >= m || y < 0 || y >= n) { inside = false; continue; }
                        cover[x + size_t(m) * y]++;
                        if (h->is_dense()) {
                            stored[x + size_t(m) * y] = 1;
                            if (dim && (*h->get_dense_data())(i, j) != T(1 + c.t->get_permutation()[a.get_offset() + i] + 100. * c.s->get_permutation()[q.get_offset() + j])) gens = false;
                        }
                        if (up != 'N' && a.get_offset() != q.get_offset()) {
                            int X = q.get_offset() + j - r0, Y = a.get_offset() + i - c0;
                            if (X < 0 || X >= m || Y < 0 || Y >= n) inside = false;
                            else cover[X + size_t(m) * Y]++;
                        }
                    }
            }
            for (auto &k : h->get_children()) {
                auto &ka = k->get_target_cluster();
                auto &kq = k->get_source_cluster();
                if (ka.get_offset() < a.get_offset() || ka.get_offset() + ka.get_size() > a.get_offset() + a.get_size() || kq.get_offset() < q.get_offset() || kq.get_offset() + kq.get_size() > q.get_offset() + q.get_size() || k->get_depth() != h->get_depth() + 1) nested = (o.part >= 0 && h == &H) ? nested : false;
                st.push_back({k.get(), up});
            }
        }
        bool exact = true;
        for (int v : cover) if (v != 1) exact = false;
        R.check(inside, "leaves inside the root", "outside");
        R.check(exact, "leaves cover every pair exactly once", S("dense", nd, "low-rank", nl));
        R.check(onedata, "a leaf is dense or low-rank, not both", "leaf data");
        R.check(admok, "only admissible blocks below the minimal depths are low-rank", "inadmissible low-rank leaf");
        R.check(nested, "children lie inside their parent", "not nested");
        R.check(dim, "leaf dimensions", "wrong");
        R.check(leafsym, "symmetric blocks lie on the diagonal", "wrong symmetry flag");
        R.check(gens, "dense leaves hold the generator's coefficients in cluster numbering", "wrong coefficient");
        bool asked = !gen.bad;
        auto &pt = c.t->get_permutation(), &ps = c.s->get_permutation();
        for (int i = 0; i < m; i++)
            for (int j = 0; j < n; j++)
                if (stored[i + size_t(m) * j] != gen.cnt[pt[r0 + i] + size_t(c.t->get_size()) * ps[c0 + j]]) asked = false;
        R.check(asked, "the generator is asked once for each coefficient of the dense leaves", "wrong request");
        // the same builder without symmetry removes nothing
        if (rep == 0 && sym != 'N' && o.part < 0 && !localroot) R.check(H.get_symmetry() == sym && H.get_UPLO() == uplo, "root symmetry", "wrong");
    }
}
template <typename T> void all(Run &R) {
    for (char s : syms<T>())
        for (char u : {'L', 'U'}) one<T>(R, s, s == 'N' ? 'N' : u);
}
int main(int argc, char **argv) {
    Run R;
    R.init(argc, argv);
    for (int i = 0; i < (R.thorough ? 4000 : 400) && !R.out_of_time(); i++) { all<double>(R); all<cd>(R); }
    return R.done();
}
