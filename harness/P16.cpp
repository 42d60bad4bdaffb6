// HMatrix as a container: copies, dense conversion, diagonal, leaves, sub-blocks.
#include "hm.hpp"
using namespace hv;
using namespace htool;
template <typename T> D<T> uperm(const D<T> &M, const std::vector<int> &pt, const std::vector<int> &ps) {
    D<T> x(M.r, M.c);
    for (int i = 0; i < M.r; i++)
        for (int j = 0; j < M.c; j++) x(pt[i], ps[j]) = M(i, j);
    return x;
}
template <typename T> void same(Run &R, HMatrix<T> &h, const D<T> &M, const std::vector<int> &pt, const std::vector<int> &ps, const std::string &what, bool local_ok) {
    std::vector<T> buf(size_t(M.r) * M.c + 1, T(77));
    copy_to_dense(h, buf.data());
    D<T> got(M.r, M.c);
    std::copy(buf.begin(), buf.end() - 1, got.d.begin());
    R.check(close(got, M, 1e-11) && buf.back() == T(77), what + ": copy_to_dense", dd(got, M));
    if (local_ok) {
        buf.assign(size_t(M.r) * M.c, T(77));
        copy_to_dense_in_user_numbering(h, buf.data());
        got.d    = buf;
        auto ref = uperm(M, pt, ps);
        R.check(close(got, ref, 1e-11), what + ": copy_to_dense_in_user_numbering", dd(got, ref));
    }
    // product with random vectors sees the same matrix
    for (char t : {'N', 'T', 'C'}) {
        if (h.get_symmetry() == 'S' && t == 'C' && sizeof(T) != sizeof(double)) continue;
        if (h.get_symmetry() == 'H' && t == 'T') continue;
        auto x = D<T>::rnd(R, t == 'N' ? M.c : M.r, 1);
        D<T> y(t == 'N' ? M.r : M.c, 1);
        internal_add_hmatrix_vector_product(t, T(1), h, x.d.data(), T(0), y.d.data());
        auto ref = M.op(t).mul(x);
        R.check(close(y, ref, 1e-10), what + ": product", dd(y, ref));
    }
}
template <typename T> void leaves(Run &R, const HMatrix<T> &h, const std::string &w) {
    auto lv = get_leaves_from(h);
    // every entry of the block belongs to exactly one leaf or mirrored leaf
    int m = h.get_target_cluster().get_size(), n = h.get_source_cluster().get_size(), r0 = h.get_target_cluster().get_offset(), c0 = h.get_source_cluster().get_offset();
    std::vector<int> cnt(size_t(m) * n, 0);
    bool ok = true;
    auto add = [&](int i0, int mm, int j0, int nn) {
        for (int i = 0; i < mm; i++)
            for (int j = 0; j < nn; j++) {
                int a = i0 + i - r0, b = j0 + j - c0;
                if (a < 0 || a >= m || b < 0 || b >= n) ok = false;
                else cnt[a + size_t(b) * m]++;
            }
    };
    for (auto *l : lv.first) {
        if (!l->is_leaf() || l->is_hierarchical()) ok = false;
        add(l->get_target_cluster().get_offset(), l->get_target_cluster().get_size(), l->get_source_cluster().get_offset(), l->get_source_cluster().get_size());
    }
    for (auto *l : lv.second) add(l->get_source_cluster().get_offset(), l->get_source_cluster().get_size(), l->get_target_cluster().get_offset(), l->get_target_cluster().get_size());
    for (int c : cnt) if (c != 1) ok = false;
    R.check(ok, "leaves tile the block exactly once", w);
}
template <typename T> bool alike(const HMatrix<T> &a, const HMatrix<T> &b) {
    return a.get_symmetry() == b.get_symmetry() && a.get_UPLO() == b.get_UPLO() && a.get_symmetry_for_leaves() == b.get_symmetry_for_leaves() && a.get_UPLO_for_leaves() == b.get_UPLO_for_leaves() && a.get_storage_type() == b.get_storage_type() && a.get_epsilon() == b.get_epsilon() && a.is_block_tree_consistent() == b.is_block_tree_consistent() && &a.get_target_cluster() == &b.get_target_cluster() && &a.get_source_cluster() == &b.get_source_cluster() && a.get_children().size() == b.get_children().size();
}
template <typename T> void one(Run &R) {
    for (char sy : syms<T>())
        for (char u : {'L', 'U'}) {
            if (sy == 'N' && u == 'U') continue;
            Opt o;
            o.nmax   = 40;
            o.square = R.irand(0, 1);
            o.consistent = sy == 'N' ? R.irand(0, 1) : true;
            auto c   = rnd_case<T>(R, sy, sy == 'N' ? 'N' : u, o);
            auto M   = expand(*c.h);
            auto &pt = c.t->get_permutation(), &ps = c.s->get_permutation();
            R.at("hmatrix", c.what);
            same<T>(R, *c.h, M, pt, ps, "built hmatrix", true);
            leaves<T>(R, *c.h, c.what);
            R.at("copy constructor", c.what);
            HMatrix<T> h2(*c.h);
            same<T>(R, h2, M, pt, ps, "copy-constructed hmatrix", true);
            R.check(alike(h2, *c.h), "copy-constructed hmatrix: attributes", "symmetry, storage type or parameters differ");
            R.at("copy is independent", c.what);
            T al = sy == 'H' ? T(2 + R.drand()) : T(2) + Rnd<T>::get(R); // a hermitian matrix stays one
            sequential_scale(al, h2);
            R.check(close(expand(*c.h), M, 0), "modifying a copy changes the original", "original changed");
            R.at("copy assignment", c.what);
            char s3 = R.pick(syms<T>());
            Opt o3  = o;
            if (s3 != 'N') o3.consistent = true;
            auto c3 = rnd_case<T>(R, s3, s3 == 'N' ? 'N' : R.pick(std::vector<char>{'L', 'U'}), o3);
            *c3.h   = *c.h;
            R.check(alike(*c3.h, *c.h), "copy-assigned hmatrix: attributes", "symmetry, storage type or parameters differ");
            same<T>(R, *c3.h, M, pt, ps, "copy-assigned hmatrix", true);
            bool stale = false;
            preorder_tree_traversal(*c3.h, [&](const HMatrix<T> &x) { if ((x.get_dense_data() != nullptr) != x.is_dense() || (x.get_low_rank_data() != nullptr) != x.is_low_rank()) stale = true; });
            R.check(!stale, "copy-assigned hmatrix: stale leaf data", c.what);
            sequential_scale(al, *c3.h);
            R.check(close(expand(*c.h), M, 0), "modifying an assigned copy changes the original", "original changed");
            { // a block assigned over another matrix
                auto *blk = c.h.get();
                while (!blk->is_leaf() && R.irand(0, 3)) blk = blk->get_children()[R.irand(0, int(blk->get_children().size()) - 1)].get();
                auto c6 = rnd_case<T>(R, s3, s3 == 'N' ? 'N' : R.pick(std::vector<char>{'L', 'U'}), o3);
                R.at("block assigned", c.what + c6.what);
                *c6.h = *blk;
                R.check(alike(*c6.h, *blk), "block assigned over another matrix: attributes", "symmetry, storage type or parameters differ");
                HMatrix<T> h6(*blk);
                R.check(alike(h6, *blk), "copy-constructed block: attributes", "symmetry, storage type or parameters differ");
                R.check(close(expand(*c6.h), expand(*blk), 0), "block assigned over another matrix", "another matrix");
                HMatrix<T> h7(*c6.h);
                *c6.h = std::move(h7);
                R.check(alike(*c6.h, *blk), "block move-assigned: attributes", "symmetry, storage type or parameters differ");
            }
            R.at("self assignment", c.what);
            auto &self = *c.h;
            *c.h       = self;
            R.check(close(expand(*c.h), M, 0), "self assignment changes the matrix", "changed");
            R.at("move", c.what);
            HMatrix<T> h4(std::move(h2));
            auto M4 = M.axpby(al, T(0), M);
            same<T>(R, h4, M4, pt, ps, "moved hmatrix", true);
            auto c5 = rnd_case<T>(R, s3, s3 == 'N' ? 'N' : R.pick(std::vector<char>{'L', 'U'}), o3);
            *c5.h   = std::move(h4);
            same<T>(R, *c5.h, M4, pt, ps, "move-assigned hmatrix", true);
            // sub-blocks: each node is the matching block of the whole
            preorder_tree_traversal(*c.h, [&](const HMatrix<T> &x) {
                if (R.irand(0, 3)) return;
                auto &t = x.get_target_cluster();
                auto &s = x.get_source_cluster();
                R.at("sub-block", c.what + S(t.get_offset(), t.get_size(), s.get_offset(), s.get_size()));
                auto *f = c.h->get_sub_hmatrix(t, s);
                R.check(f != nullptr && f->get_target_cluster() == t && f->get_source_cluster() == s, "get_sub_hmatrix", "wrong block");
                leaves<T>(R, x, c.what);
                // a stored off-diagonal block below a symmetric ancestor is plain; a diagonal one is symmetric
                D<T> ref = M.sub(t.get_offset() - c.t->get_offset(), t.get_size(), s.get_offset() - c.s->get_offset(), s.get_size());
                std::vector<T> buf(size_t(ref.r) * ref.c);
                copy_to_dense(x, buf.data());
                D<T> got(ref.r, ref.c);
                got.d = buf;
                R.check(close(got, ref, 1e-11), "copy_to_dense of a sub-block", dd(got, ref));
            });
            if (M.r == M.c && c.t == c.s) {
                R.at("diagonal", c.what);
                std::vector<T> d(M.r, T(77)), du(M.r, T(77));
                copy_diagonal(*c.h, d.data());
                copy_diagonal_in_user_numbering(*c.h, du.data());
                bool a = true, b = true;
                for (int i = 0; i < M.r; i++) {
                    if (std::abs(d[i] - M(i, i)) > 1e-11 * (1 + std::abs(M(i, i)))) a = false;
                    if (std::abs(du[pt[i]] - M(i, i)) > 1e-11 * (1 + std::abs(M(i, i)))) b = false;
                }
                R.check(a, "copy_diagonal", c.what);
                R.check(b, "copy_diagonal_in_user_numbering", c.what);
            }
        }
    // local blocks (a row of the partition)
    for (char sy : syms<T>())
        for (char u : {'L', 'U'}) {
            if (sy == 'N' && u == 'U') continue;
            Opt o;
            o.nmax = 40;
            Case<T> c;
            o.parts = R.irand(2, 3);
            make_trees<T>(R, c, sy != 'N' || R.irand(0, 1), o);
            o.part = R.irand(0, o.parts - 1);
            R.at("partition row", c.what + S("part", o.part, sy, u));
            make_h<T>(R, c, sy, sy == 'N' ? 'N' : u, o);
            auto M = expand(*c.h);
            std::vector<T> buf(size_t(M.r) * M.c);
            copy_to_dense(*c.h, buf.data());
            D<T> got(M.r, M.c);
            got.d = buf;
            R.check(close(got, M, 1e-11), "partition row: copy_to_dense", dd(got, M));
            if (sy == 'N') leaves<T>(R, *c.h, c.what);
            HMatrix<T> h2(*c.h);
            R.check(close(expand(h2), M, 0), "partition row: copy", c.what);
        }
}
int main(int argc, char **argv) {
    Run R;
    R.init(argc, argv);
    for (int i = 0; i < (R.thorough ? 3000 : 200) && !R.out_of_time(); i++) { one<double>(R); one<cd>(R); }
    return R.done();
}
