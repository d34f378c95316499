// C23: long random sequences of supported calls over a pool of live objects. The oracles are the sanitizers (or memcheck), the
// BLAS/LAPACK argument monitor, the allocation balance of the whole sequence, and the rule that finite input gives finite output
// (fresh memory is filled with NaN patterns).
#include "hmx.hpp"
#include <htool/basic_types/vector.hpp>
#include <htool/clustering/cluster_output.hpp>
#include <htool/hmatrix/lrmat/utils/recompression.hpp>
#include <sys/stat.h>
using namespace vf;
namespace vf {
struct Refuse : htool::VirtualLowRankGenerator<T, C> { // declines, sometimes after having allocated factors
    int mode;
    explicit Refuse(int m) : mode(m) {}
    void copy_low_rank_approximation(const htool::VirtualInternalGenerator<T> &, const Clu &t, const Clu &s, htool::underlying_type<T>, int &rank, Mat &U, Mat &V) const override {
        if (mode) {
            U.resize(t.get_size(), mode);
            V.resize(mode, s.get_size());
        }
        rank = -1;
    }
};
struct Zero : htool::VirtualGenerator<T> {
    void copy_submatrix(int M, int N, const int *, const int *, T *p) const override { std::fill_n(p, (size_t)M * N, T(0)); }
};
struct Dbg : htool::VirtualDenseBlocksGenerator<T> {
    const Kernel &k;
    const std::vector<int> &pt, &ps;
    Dbg(const Kernel &k_, const std::vector<int> &a, const std::vector<int> &b) : k(k_), pt(a), ps(b) {}
    void copy_dense_blocks(const std::vector<int> &M, const std::vector<int> &N, const std::vector<int> &ro, const std::vector<int> &co, std::vector<T *> &ptr) const override {
        for (size_t b = 0; b < ptr.size(); b++)
            for (int j = 0; j < N[b]; j++)
                for (int i = 0; i < M[b]; i++) ptr[b][i + (size_t)M[b] * j] = k(pt[ro[b] + i], ps[co[b] + j]);
    }
};
static LR mklr(int m, int n, int k) {
    LR l(R(1e-3));
    l.get_U().resize(m, k);
    l.get_V().resize(k, n);
    return l;
}
struct Obj {
    std::shared_ptr<Prob> p;
    std::unique_ptr<HM> h;
    int state = 0; // 0 assembled, 1 LU factors, 2 Cholesky factors
    int lo = 0;
};
struct Session {
    Ctx &cx;
    Rng &r;
    std::vector<std::shared_ptr<Prob>> ps;
    std::vector<Obj> hs;
    std::vector<std::unique_ptr<LR>> ls;
    std::vector<std::unique_ptr<Mat>> ms;
    std::vector<std::string> files;
    std::string trail;
    Session(Ctx &c) : cx(c), r(c.rng) {}
    void note(const char *s) {
        trail += s;
        trail += ' ';
        cx.count(std::string("step_") + s);
        cx.descr = "type=" + std::string(tname()) + " " + trail;
        cx.progress();
    }
    template <class Q>
    void finite(const Q *p, size_t n, const char *what) {
        for (size_t i = 0; i < n; i++)
            if (!std::isfinite(std::abs(p[i]))) {
                cx.fail(std::string("not-finite:") + what, S() << "entry " << i << " of " << n << " after: " << trail);
                return;
            }
        cx.count("finite_results");
    }
    void finite(const Mat &m, const char *w) { finite(m.data(), (size_t)m.nb_rows() * m.nb_cols(), w); }
    void finite(const LR &l, const char *w) {
        finite(l.get_U(), w);
        finite(l.get_V(), w);
    }
    void finite(const HM &h, const char *w) {
        walk_leaves(h, [&](const HM &l) {
            if (l.get_dense_data()) finite(*l.get_dense_data(), w);
            if (l.get_low_rank_data()) finite(*l.get_low_rank_data(), w);
        });
    }
    T sc() { return rscal(r); }
    void new_prob() {
        Opts o;
        o.nmin  = 1;
        o.nmax  = r.pick({3, 12, 30, 60, 60, 90});
        o.solve = r.p(0.5);
        if (o.solve) o.allow_dups = true;
        ps.push_back(std::shared_ptr<Prob>(random_prob(r, o)));
        note("problem");
    }
    const char *build_h() {
        if (ps.empty()) return nullptr;
        auto p = ps[r.i(0, (int)ps.size() - 1)];
        auto b = p->builder();
        KGen g(p->ker);
        Zero z;
        omp_set_num_threads(p->threads);
        int v = r.i(0, 9);
        if (v == 0) b->set_low_rank_generator(std::make_shared<htool::partialACA<T, C>>());
        if (v == 1) b->set_low_rank_generator(std::make_shared<Refuse>(r.i(0, 3)));
        if (v == 2) b->set_dense_blocks_generator(std::make_shared<Dbg>(p->ker, p->tc->get_permutation(), p->sc->get_permutation()));
        int times = r.p(0.2) ? 2 : 1;
        for (int t = 0; t < times; t++) {
            Obj o;
            o.p = p;
            if (v == 3) o.h.reset(new HM(b->build(z)));
            else o.h.reset(new HM(b->build(g)));
            finite(*o.h, "assembly");
            hs.push_back(std::move(o));
        }
        return v == 1 ? "build-refused" : v == 2 ? "build-dense-generator" : v == 3 ? "build-zero" : "build";
    }
    Obj *pick_h() { return hs.empty() ? nullptr : &hs[r.i(0, (int)hs.size() - 1)]; }
    const HM &node(const HM &h) {
        std::vector<const HM *> v;
        walk_nodes(h, [&](const HM &n) { v.push_back(&n); });
        return r.p(0.5) ? h : *v[r.i(0, (int)v.size() - 1)];
    }
    char trans(const HM &h) {
        switch (h.get_symmetry_for_leaves()) {
        case 'S': return r.pick({'N', 'T'});
        case 'H': return r.pick({'N', 'C'});
        }
        return r.pick({'N', 'T', 'C'});
    }
    static bool contains_sym(const HM &h) {
        bool s = false;
        walk_leaves(h, [&](const HM &l) { s = s || l.get_symmetry() != 'N'; });
        return s || h.get_symmetry_for_leaves() != 'N' || h.get_symmetry() != 'N';
    }
    const char *vec_prod() {
        Obj *o = pick_h();
        if (!o || o->state) return nullptr;
        const HM &h = node(*o->h);
        char t      = trans(h);
        int m = t == 'N' ? h.nb_rows() : h.nb_cols(), n = t == 'N' ? h.nb_cols() : h.nb_rows();
        std::vector<T> x = rvec(r, n), y = rvec(r, m);
        T al = sc(), be = sc();
        omp_set_num_threads(r.i(1, 3));
        switch (r.i(0, 2)) {
        case 0: htool::sequential_internal_add_hmatrix_vector_product(t, al, h, x.data(), be, y.data()); break;
        case 1: htool::openmp_internal_add_hmatrix_vector_product(t, al, h, x.data(), be, y.data()); break;
        default: htool::internal_add_hmatrix_vector_product(t, al, h, x.data(), be, y.data());
        }
        finite(y.data(), y.size(), "vector-product");
        return "vec";
    }
    const char *mat_prod() {
        Obj *o = pick_h();
        if (!o || o->state) return nullptr;
        const HM &h = node(*o->h);
        char t      = h.get_symmetry_for_leaves() != 'N' ? 'N' : trans(h);
        int m = t == 'N' ? h.nb_rows() : h.nb_cols(), n = t == 'N' ? h.nb_cols() : h.nb_rows(), mu = r.i(1, 9);
        T al = sc(), be = sc();
        omp_set_num_threads(r.i(1, 3));
        switch (r.i(0, 3)) {
        case 0: {
            std::vector<T> x = rvec(r, n * mu), y = rvec(r, m * mu);
            htool::sequential_internal_add_hmatrix_matrix_product_row_major(t, 'N', al, h, x.data(), be, y.data(), mu);
            finite(y.data(), y.size(), "rowmajor");
            return "rowmajor";
        }
        case 1: {
            std::vector<T> x = rvec(r, n * mu), y = rvec(r, m * mu);
            htool::openmp_internal_add_hmatrix_matrix_product_row_major(t, 'N', al, h, x.data(), be, y.data(), mu);
            finite(y.data(), y.size(), "rowmajor-parallel");
            return "rowmajor-parallel";
        }
        case 2: {
            if (contains_sym(*o->h)) return nullptr;
            char tb = r.pick({'N', 'T', 'C'});
            Mat B(tb == 'N' ? n : mu, tb == 'N' ? mu : n), Cm(m, mu);
            fill(B), fill(Cm);
            htool::internal_add_hmatrix_matrix_product(t, tb, al, h, B, be, Cm);
            finite(Cm, "hmatrix-matrix");
            return "hmat-mat";
        }
        default: {
            if (contains_sym(*o->h)) return nullptr;
            char ta = r.pick({'N', 'T', 'C'});
            Mat B(ta == 'N' ? mu : m, ta == 'N' ? m : mu), Cm(mu, n);
            fill(B), fill(Cm);
            htool::internal_add_matrix_hmatrix_product(ta, t, al, B, h, be, Cm);
            finite(Cm, "matrix-hmatrix");
            return "mat-hmat";
        }
        }
    }
    void fill(Mat &m) {
        for (int i = 0; i < m.nb_rows() * m.nb_cols(); i++) m.data()[i] = rnd(r);
    }
    LR *rand_lr(const Clu &t, const Clu &s) {
        int k  = r.pick({0, 1, 1, 2, 4});
        k      = std::min(k, std::min(t.get_size(), s.get_size()));
        LR *l  = new LR(mklr(t.get_size(), s.get_size(), k));
        fill(l->get_U()), fill(l->get_V());
        return l;
    }
    // products with a hierarchical operand and any result
    const char *hier_prod() {
        Obj *o = pick_h();
        if (!o || o->state || contains_sym(*o->h) || !o->h->is_block_tree_consistent()) return nullptr;
        const HM &A = *o->h;
        const Clu &t = A.get_target_cluster(), &s = A.get_source_cluster();
        if (A.nb_rows() > 64 || A.nb_cols() > 64) return nullptr;
        T al = sc(), be = sc();
        // A (t x s) times B (s x t): transposed copy of A's structure gives A^T as second operand
        int k = r.i(0, 6);
        switch (k) {
        case 0: {
            Mat Cm(t.get_size(), t.get_size());
            fill(Cm);
            htool::internal_add_hmatrix_hmatrix_product('N', 'T', al, A, A, be, Cm);
            finite(Cm, "hmatrix-hmatrix-dense");
            return "hh-dense";
        }
        case 1: {
            std::unique_ptr<LR> l(rand_lr(t, t));
            htool::internal_add_hmatrix_hmatrix_product('N', 'T', al, A, A, be, *l);
            finite(*l, "hmatrix-hmatrix-lowrank");
            ls.push_back(std::move(l));
            return "hh-lowrank";
        }
        case 2: {
            if (&t != &s) return nullptr;
            HM Cm(A);
            const HM B(A);
            htool::internal_add_hmatrix_hmatrix_product('N', 'N', al, A, B, be, Cm);
            finite(Cm, "hmatrix-hmatrix-hmatrix");
            if (r.p(0.5)) {
                std::vector<T> x = rvec(r, Cm.nb_cols()), y = rvec(r, Cm.nb_rows());
                htool::internal_add_hmatrix_vector_product('N', T(1), Cm, x.data(), T(0), y.data());
                finite(y.data(), y.size(), "product-of-product");
            }
            return "hh-hier";
        }
        case 3: {
            std::unique_ptr<LR> l(rand_lr(t, s));
            HM Cm(A);
            htool::internal_add_lrmat_hmatrix(*l, Cm);
            finite(Cm, "lowrank-update");
            return "lowrank-update";
        }
        case 4: {
            std::unique_ptr<LR> l(rand_lr(s, t)), c(rand_lr(t, t));
            htool::internal_add_hmatrix_lrmat_product('N', 'N', al, A, *l, be, *c);
            finite(*c, "hmatrix-lowrank");
            return "h-lr";
        }
        case 5: {
            std::unique_ptr<LR> l(rand_lr(s, t)), c(rand_lr(s, s));
            htool::internal_add_lrmat_hmatrix_product('N', 'N', al, *l, A, be, *c);
            finite(*c, "lowrank-hmatrix");
            return "lr-h";
        }
        default: {
            if (&t != &s) return nullptr;
            Mat B(s.get_size(), t.get_size());
            fill(B);
            LR c(mklr(t.get_size(), t.get_size(), 0));
            htool::internal_add_hmatrix_matrix_product('N', 'N', al, A, B, be, c);
            finite(c, "hmatrix-matrix-lowrank");
            return "h-mat-lowrank";
        }
        }
    }
    const char *lr_ops() {
        if (ls.size() < 1) {
            Obj *o = pick_h();
            if (!o) return nullptr;
            ls.emplace_back(rand_lr(o->h->get_target_cluster(), o->h->get_source_cluster()));
        }
        LR &A = *ls[r.i(0, (int)ls.size() - 1)];
        int m = A.nb_rows(), n = A.nb_cols(), q = r.i(1, 5);
        T al = sc(), be = sc();
        switch (r.i(0, 6)) {
        case 0: {
            std::vector<T> x = rvec(r, n), y = rvec(r, m);
            htool::add_lrmat_vector_product('N', al, A, x.data(), be, y.data());
            finite(y.data(), y.size(), "lowrank-vector");
            return "lr-vec";
        }
        case 1: {
            Mat B(n, q), Cm(m, q);
            fill(B), fill(Cm);
            htool::add_lrmat_matrix_product('N', 'N', al, A, B, be, Cm);
            finite(Cm, "lowrank-matrix");
            return "lr-mat";
        }
        case 2: {
            std::unique_ptr<LR> c = htool::recompression((const LR &)A);
            if (c) finite(*c, "recompression");
            return "recompress";
        }
        case 3: {
            LR c(A), d(mklr(n, m, 0)), e(mklr(m, m, 1));
            fill(e.get_U()), fill(e.get_V());
            c = A;
            htool::add_lrmat_lrmat_product('N', 'T', al, A, c, be, e);
            finite(e, "lowrank-lowrank");
            d = std::move(c);
            return "lr-lr";
        }
        case 4: {
            Mat D1(m, n);
            A.copy_to_dense(D1.data());
            finite(D1, "lowrank-dense");
            ms.emplace_back(new Mat(std::move(D1)));
            return "lr-dense";
        }
        case 5: htool::scale(al, A); return "lr-scale";
        default: {
            LR c(mklr(m, n, 0));
            Mat X(m, q), Y(q, n);
            fill(X), fill(Y);
            htool::add_matrix_matrix_product('N', 'N', al, X, Y, be, c);
            finite(c, "matrix-matrix-lowrank");
            return "mat-mat-lowrank";
        }
        }
    }
    const char *special() {
        Obj *o = pick_h();
        if (!o) return nullptr;
        switch (r.i(0, 6)) {
        case 0: {
            Obj c;
            c.p = o->p, c.state = o->state;
            c.h.reset(new HM(*o->h));
            hs.push_back(std::move(c));
            return "copy";
        }
        case 1: {
            Obj c;
            c.p = o->p, c.state = o->state;
            c.h.reset(new HM(std::move(*o->h)));
            o->h = std::move(c.h);
            return "move";
        }
        case 2: {
            int j  = r.i(0, (int)hs.size() - 1);
            Obj &q = hs[j];
            *q.h   = *o->h;
            q.p    = o->p;
            q.state = o->state;
            return "assign";
        }
        case 3: {
            HM x(*o->h);
            Obj &q = hs[r.i(0, (int)hs.size() - 1)];
            auto p = o->p;
            int st = o->state;
            *q.h   = std::move(x);
            q.p = p, q.state = st;
            return "move-assign";
        }
        case 4: hs.erase(hs.begin() + (o - hs.data())); return "destroy";
        case 5: {
            HM c(*o->h);
            c = c;
            const HM &n = node(c);
            HM sub(n); // a copy of a sub-block outlives the matrix
            HM w(c.get_target_cluster(), c.get_source_cluster());
            w = std::move(c);
            std::swap(sub, w);
            finite(sub, "swapped");
            return "swap";
        }
        default:
            if (ps.size() > 1) {
                int i = r.i(0, (int)ps.size() - 1);
                if (ps[i].use_count() == 1) ps.erase(ps.begin() + i);
                return "forget-problem";
            }
            return nullptr;
        }
    }
    const char *factor() {
        Obj *o = pick_h();
        if (!o || o->state) return nullptr;
        HM &h   = *o->h;
        Prob &p = *o->p;
        if (p.ker.diag < 2 || p.mode == 1 || h.nb_rows() != h.nb_cols() || !h.is_block_tree_consistent() || p.tc != p.sc) return nullptr;
        if (!(p.ker.diag > 0.5 * p.nt) || p.reqrank >= 0 || p.epsilon > 0.02) return nullptr;
        bool zero = true; // a zero kernel cannot be factorised
        walk_leaves(h, [&](const HM &l) {
            if (l.get_dense_data())
                for (int i = 0; i < l.nb_rows() * l.nb_cols(); i++) zero = zero && l.get_dense_data()->data()[i] == T(0);
        });
        if (zero) return nullptr;
        if (h.get_target_cluster().is_root() == false && !(htool::is_cluster_on_partition(h.get_target_cluster()) && h.get_target_cluster().is_permutation_local())) return nullptr;
        if (p.sym == 'N') {
            htool::lu_factorization(h);
            o->state = 1;
        } else if (p.sym == (CPLX ? 'H' : 'S')) {
            htool::cholesky_factorization(p.uplo, h);
            o->state = 2;
        } else return nullptr;
        finite(h, "factors");
        return o->state == 1 ? "lu" : "cholesky";
    }
    const char *solve() {
        for (auto &o : hs)
            if (o.state && r.p(0.6)) {
                Mat B(o.h->nb_rows(), r.i(1, 5));
                fill(B);
                if (o.state == 1) r.p(0.5) ? htool::lu_solve(r.pick({'N', 'T', 'C'}), *o.h, B) : htool::internal_lu_solve(r.pick({'N', 'T', 'C'}), *o.h, B);
                else r.p(0.5) ? htool::cholesky_solve(o.p->uplo, *o.h, B) : htool::internal_cholesky_solve(o.p->uplo, *o.h, B);
                finite(B, "solution");
                if (o.state == 1 && r.p(0.4)) {
                    bool lower = r.p(0.5);
                    Mat X(o.h->nb_rows(), 2);
                    fill(X);
                    htool::internal_triangular_hmatrix_matrix_solve('L', lower ? 'L' : 'U', r.pick({'N', 'T'}), lower ? 'U' : 'N', T(1), *o.h, X);
                    finite(X, "triangular");
                    LR l(mklr(o.h->nb_rows(), o.h->nb_rows(), r.i(0, 2)));
                    fill(l.get_U()), fill(l.get_V());
                    htool::internal_triangular_hmatrix_lrmat_solve('L', lower ? 'L' : 'U', 'N', lower ? 'U' : 'N', T(1), *o.h, l);
                    finite(l, "triangular-lowrank");
                }
                return o.state == 1 ? "lu-solve" : "cholesky-solve";
            }
        return nullptr;
    }
    const char *output() {
        Obj *o = pick_h();
        if (!o) return nullptr;
        const HM &h = node(*o->h);
        std::string f = cx.scratch + "/s23";
        switch (r.i(0, 5)) {
        case 0: {
            auto i = htool::get_hmatrix_information(h);
            auto t = htool::get_tree_parameters(*o->h);
            cx.check(!i.empty() && !t.empty(), "information", "empty");
            return "information";
        }
        case 1: {
            std::ostringstream os;
            htool::print_hmatrix_information(h, os);
            htool::print_tree_parameters(*o->h, os);
            return "print";
        }
        case 2: htool::save_leaves_with_rank(h, f); return "save-leaves";
        case 3: {
            std::vector<int> d(1, 0);
            for (int k = r.i(0, 3), z = 0; k > 0; k--) d.push_back(z += r.i(0, 3));
            htool::save_levels(h, f, d);
            return "save-levels";
        }
        case 4: {
            std::vector<T> d((size_t)h.nb_rows() * h.nb_cols());
            htool::copy_to_dense(h, d.data());
            if (!o->state) finite(d.data(), d.size(), "densified");
            auto lv = htool::get_leaves_from(h);
            cx.check(lv.first.size() + lv.second.size() > 0, "leaves", "none");
            return "densify";
        }
        default: {
            const HM &q = *o->h;
            if (q.get_target_cluster().get_offset() != q.get_source_cluster().get_offset() || q.nb_rows() != q.nb_cols() || !q.get_target_cluster().is_root() || !q.get_source_cluster().is_root()) return nullptr;
            if (&q.get_target_cluster() != &q.get_source_cluster()) return nullptr;
            std::vector<T> d(q.nb_rows());
            htool::copy_diagonal(q, d.data());
            finite(d.data(), d.size(), "diagonal");
            htool::copy_diagonal_in_user_numbering(q, d.data());
            finite(d.data(), d.size(), "user-diagonal");
            std::vector<T> e((size_t)q.nb_rows() * q.nb_cols());
            htool::copy_to_dense_in_user_numbering(q, e.data());
            finite(e.data(), e.size(), "user-densified");
            return "user-numbering";
        }
        }
    }
    const char *cluster_ops() {
        if (ps.empty()) return nullptr;
        Prob &p    = *ps[r.i(0, (int)ps.size() - 1)];
        const Clu &c = *p.ct;
        std::string f = cx.scratch + "/c23";
        switch (r.i(0, 3)) {
        case 0: {
            htool::save_cluster_tree(c, f);
            Clu d = htool::read_cluster_tree<C>(f + "_cluster_tree_properties.csv", f + "_cluster_tree.csv");
            cx.check(d.get_size() == c.get_size(), "reloaded", "size");
            Clu e(std::move(d));
            std::vector<T> x = rvec(r, e.get_size()), y(e.get_size());
            htool::cluster_to_user(e, x.data(), y.data());
            finite(y.data(), y.size(), "permuted");
            return "cluster-file";
        }
        case 1: {
            std::vector<int> lv;
            for (int k = 0; k <= 3; k++) lv.push_back(k);
            htool::save_clustered_geometry(c, p.dim, p.xt.data(), f, lv);
            return "cluster-geometry";
        }
        case 2: {
            std::vector<T> x = rvec(r, c.get_size()), y(c.get_size()), z(c.get_size());
            htool::user_to_cluster(c, x.data(), y.data());
            htool::cluster_to_user(c, y.data(), z.data());
            cx.check(x == z, "numbering", "not inverse");
            int np = (int)c.get_clusters_on_partition().size();
            if (c.is_permutation_local()) {
                int k        = r.i(0, np - 1);
                const Clu &l = *c.get_clusters_on_partition()[k];
                std::vector<T> a = rvec(r, l.get_size()), b(l.get_size());
                htool::local_to_local_cluster(c, k, a.data(), b.data());
                htool::local_cluster_to_local(c, k, b.data(), a.data());
                finite(a.data(), a.size(), "local-numbering");
            }
            return "numbering";
        }
        default: {
            CluCfg cfg = random_clucfg(r, p.nt, p.dim, 4);
            std::unique_ptr<Clu> d(make_cluster(cfg, p.nt, p.dim, p.xt));
            Clu e(std::move(*d));
            d.reset();
            cx.check(e.get_size() == p.nt, "cluster-moved", "size");
            return "cluster";
        }
        }
    }
    const char *dense_ops() {
        if (ms.size() < 2) {
            ms.emplace_back(new Mat(r.i(0, 6), r.i(0, 6)));
            fill(*ms.back());
            return "dense";
        }
        Mat &A = *ms[r.i(0, (int)ms.size() - 1)];
        int m = A.nb_rows(), n = A.nb_cols();
        switch (r.i(0, 5)) {
        case 0: {
            std::string f = cx.scratch + "/m23";
            A.matrix_to_bytes(f);
            Mat B(r.i(0, 3), r.i(0, 3));
            B.bytes_to_matrix(f);
            cx.check(B.nb_rows() == m && B.nb_cols() == n, "bytes", "shape");
            A = std::move(B);
            return "dense-file";
        }
        case 1: {
            Mat B(A), D1;
            D1 = B;
            B.resize(r.i(0, 5), r.i(0, 5));
            B  = A;
            Mat E(std::move(D1));
            finite(E, "dense-copies");
            return "dense-copies";
        }
        case 2: {
            if (!m || !n) return nullptr;
            int q = r.i(1, 4);
            Mat B(n, q), Cm(m, q);
            fill(B), fill(Cm);
            htool::add_matrix_matrix_product('N', 'N', sc(), A, B, sc(), Cm);
            finite(Cm, "gemm");
            return "dense-product";
        }
        case 3: {
            int k = r.i(1, 9);
            Mat X(k, k), B(k, r.i(1, 3));
            fill(X), fill(B);
            for (int i = 0; i < k; i++) X(i, i) += T(R(2 * k));
            htool::lu_factorization(X);
            htool::lu_solve(r.pick({'N', 'T', 'C'}), X, B);
            finite(B, "dense-solve");
            Mat Y(X), Z;
            Z = Y;
            htool::lu_solve('N', Z, B);
            finite(B, "dense-solve-copy");
            return "dense-lu";
        }
        case 4: {
            std::vector<T> buf((size_t)m * n + 1, T(1));
            A.assign(m, n, buf.data(), false);
            Mat B(A);
            A = Mat(2, 3);
            fill(A);
            finite(B, "view-copy");
            return "dense-view";
        }
        default: ms.erase(ms.begin() + r.i(0, (int)ms.size() - 1)); return "dense-destroy";
        }
    }
    void run() {
        new_prob();
        int steps = r.i(8, cx.thorough ? 60 : 30);
        for (int s = 0; s < steps; s++) {
            const char *n = nullptr;
            int a         = r.i(0, 99);
            size_t before = trail.size();
            trail += "?"; // shown when the step crashes
            trail += std::to_string(a);
            trail += ' ';
            cx.descr = "type=" + std::string(tname()) + " " + ps.back()->d + " | " + trail;
            cx.progress();
            trail.resize(before);
            if (a < 4 && ps.size() < 3) new_prob();
            else if (a < 20 && hs.size() < 6) n = build_h();
            else if (a < 30) n = vec_prod();
            else if (a < 38) n = mat_prod();
            else if (a < 50) n = hier_prod();
            else if (a < 60) n = lr_ops();
            else if (a < 72) n = special();
            else if (a < 78) n = factor();
            else if (a < 84) n = solve();
            else if (a < 90) n = output();
            else if (a < 95) n = cluster_ops();
            else n = dense_ops();
            if (n) note(n);
        }
        cx.maxi("steps", steps);
        cx.count("sequences");
        cx.sig(trail);
    }
};
void vf_case(Ctx &cx) {
    logrec()->clear();
    Session s(cx);
    s.run();
    cx.check(logrec()->errors == 0, "log-error", logrec()->last_error());
}
} // namespace vf
