// C28: builders and operations are reusable: same inputs give the same results, with no carry-over from earlier or interleaved work.
#include "hmx.hpp"
using namespace vf;
namespace vf {
// ---- cluster trees ------------------------------------------------------------------
static uint64_t tree_digest(const Clu &root) {
    uint64_t d = fnvb(root.get_permutation().data(), sizeof(int) * root.get_permutation().size());
    int meta[4] = {(int)root.get_minimal_depth(), (int)root.get_maximal_depth(), (int)root.get_minclustersize(), root.is_permutation_local()};
    d = fnvb(meta, sizeof meta, d);
    for (auto *c : root.get_clusters_on_partition()) {
        int v[4] = {c->get_offset(), c->get_size(), c->get_depth(), c->get_rank()};
        d        = fnvb(v, sizeof v, d);
    }
    std::function<void(const Clu &)> walk = [&](const Clu &c) {
        int v[6] = {c.get_offset(), c.get_size(), c.get_depth(), c.get_rank(), c.get_counter(), (int)c.get_children().size()};
        d        = fnvb(v, sizeof v, d);
        C rad    = c.get_radius();
        d        = fnvb(&rad, sizeof rad, d);
        d        = fnvb(c.get_center().data(), sizeof(C) * c.get_center().size(), d);
        for (auto &q : c.get_children()) walk(*q);
    };
    walk(root);
    return d;
}
struct TreeInput {
    CluCfg cfg; // strategies of cfg are the builder's; partition and numbers are the call's
    int n, dim;
    std::vector<C> x;
    uint64_t ref = 0;
    Clu *create(htool::ClusterTreeBuilder<C> &b) const { return new Clu(b.create_cluster_tree(n, dim, x.data(), cfg.radii ? cfg.rad.data() : nullptr, cfg.weights ? cfg.wei.data() : nullptr, cfg.nchild, cfg.size_part, cfg.given ? cfg.part.data() : nullptr)); }
};
static void trees(Ctx &cx) {
    Rng &r = cx.rng;
    // builder settings shared by all its calls
    CluCfg set;
    set.dir     = r.i(0, 1);
    set.split   = r.p(0.3);
    set.minsize = r.pick({1, 2, 5, 10});
    std::unique_ptr<htool::ClusterTreeBuilder<C>> b(new htool::ClusterTreeBuilder<C>);
    configure(*b, set);
    int m = r.i(2, 4);
    std::vector<TreeInput> in(m);
    for (auto &t : in) {
        t.dim = r.i(2, 3);
        t.n   = r.i(2, 150);
        t.x   = geometry<C>(r, r.i(0, NGEOM), t.n, t.dim);
        for (int q = 0; q < 30; q++) {
            t.cfg = random_clucfg(r, t.n, t.dim, 6);
            if (t.cfg.given || (t.cfg.minsize >= set.minsize && !(set.split && partition_depth(t.cfg.nchild, t.cfg.size_part) > 1))) break;
        }
        if (!t.cfg.given && (t.cfg.minsize < set.minsize || (set.split && partition_depth(t.cfg.nchild, t.cfg.size_part) > 1))) {
            t.cfg.given = true;
            t.cfg.part  = make_partition(r, t.n, t.cfg.size_part, 0);
        }
        t.cfg.radii = r.p(0.3);
        t.cfg.weights = r.p(0.3);
        for (int i = 0; i < t.n; i++) {
            t.cfg.rad.push_back(C(r.u(0, 0.2)));
            t.cfg.wei.push_back(C(r.u(0.5, 2)));
        }
        cx.desc(S() << "tree[n=" << t.n << " dim=" << t.dim << " " << cdesc(t.cfg) << "]");
        // reference: a builder used once
        htool::ClusterTreeBuilder<C> fresh;
        configure(fresh, set);
        std::unique_ptr<Clu> c(t.create(fresh));
        t.ref = tree_digest(*c);
    }
    struct Alive {
        std::unique_ptr<Clu> c;
        int which;
    };
    std::vector<Alive> alive;
    int nops = cx.thorough ? 20 : 8;
    std::string hist;
    for (int q = 0; q < nops; q++) {
        int k = r.i(0, m - 1), what = r.i(0, 5);
        cx.op(S() << "t" << what << k);
        hist += char('a' + what);
        if (what <= 2 || !b) {
            if (!b) {
                b.reset(new htool::ClusterTreeBuilder<C>);
                configure(*b, set);
            }
            std::unique_ptr<Clu> c(in[k].create(*b));
            cx.check(tree_digest(*c) == in[k].ref, "reused-tree-builder", "tree differs from the one of a fresh builder");
            cx.count("trees_rebuilt");
            if (r.p(0.6)) alive.push_back({std::move(c), k});
        } else if (what == 3) {
            htool::ClusterTreeBuilder<C> fresh;
            configure(fresh, set);
            std::unique_ptr<Clu> c(in[k].create(fresh));
            cx.check(tree_digest(*c) == in[k].ref, "fresh-tree-builder", "tree differs from the first one built");
            alive.push_back({std::move(c), k});
        } else if (what == 4) b.reset();
        else if (!alive.empty()) alive.erase(alive.begin() + r.i(0, (int)alive.size() - 1));
        for (auto &a : alive) cx.check(tree_digest(*a.c) == in[a.which].ref, "earlier-tree-changed");
    }
    cx.sig("T" + hist.substr(0, 6));
}

// ---- hierarchical matrices -------------------------------------------------------------
static const int NK = 8;
struct World {
    std::unique_ptr<Prob> p;
    std::unique_ptr<htool::HMatrixTreeBuilder<T, C>> b;
    std::unique_ptr<HM> h;
    uint64_t seed, ref = 0, out[NK];
    bool factorable = false;
};
static std::map<std::string, std::string> info(const HM &h) {
    auto m = htool::get_hmatrix_information(h);
    for (auto it = m.begin(); it != m.end();)
        if (it->first.find("time") != std::string::npos || it->first.find("threads") != std::string::npos) it = m.erase(it);
        else ++it;
    for (auto &e : htool::get_tree_parameters(h)) m.insert(e);
    return m;
}
static HM *build_with(htool::HMatrixTreeBuilder<T, C> &b, const World &w) {
    KGen g(w.p->ker);
#ifdef _OPENMP
    omp_set_num_threads(w.p->threads);
#endif
    return new HM(b.build(g));
}
// one operation with fixed arguments; returns a digest of its result
static uint64_t act(const World &w, const HM &h, int kind) {
#ifdef _OPENMP
    omp_set_num_threads(1);
#endif
    Rng r(w.seed * 1000 + kind);
    bool sym = w.p->sym != 'N';
    char tr  = sym ? 'N' : r.pick({'N', 'T'});
    int m = tr == 'N' ? h.nb_rows() : h.nb_cols(), n = tr == 'N' ? h.nb_cols() : h.nb_rows();
    auto dig = [](const std::vector<T> &v) { return fnvb(v.data(), sizeof(T) * v.size()); };
    T al = rscal(r), be = rscal(r);
    switch (kind) {
    case 0:
    case 1: {
        auto x = rvec(r, n), y = rvec(r, m);
        if (kind == 0) htool::sequential_internal_add_hmatrix_vector_product(tr, al, h, x.data(), be, y.data());
        else htool::openmp_internal_add_hmatrix_vector_product(tr, al, h, x.data(), be, y.data());
        return dig(y);
    }
    case 2: {
        int mu = r.i(1, 6);
        auto x = rvec(r, (size_t)n * mu), y = rvec(r, (size_t)m * mu);
        htool::internal_add_hmatrix_matrix_product_row_major(tr, 'N', al, h, x.data(), be, y.data(), mu);
        return dig(y);
    }
    case 3: {
        int mu = r.i(1, 4);
        Mat B(n, mu), Y(m, mu);
        for (int i = 0; i < n * mu; i++) B.data()[i] = rnd(r);
        for (int i = 0; i < m * mu; i++) Y.data()[i] = rnd(r);
        htool::internal_add_hmatrix_matrix_product(tr, 'N', al, h, (const Mat &)B, be, Y);
        return digest(Y);
    }
    case 4: {
        if (!w.factorable) return 0;
        HM c(h);
        int mu = r.i(1, 3);
        Mat B(m, mu);
        for (int i = 0; i < m * mu; i++) B.data()[i] = rnd(r);
        if (sym) {
            htool::cholesky_factorization(w.p->uplo, c);
            htool::internal_cholesky_solve(w.p->uplo, c, B);
        } else {
            htool::lu_factorization(c);
            htool::internal_lu_solve(tr, c, B);
        }
        return digest(B);
    }
    case 5: {
        uint64_t d = 1;
        for (auto &e : info(h)) d = fnvb(e.second.data(), e.second.size(), d * 31 + fnv(e.first));
        return d;
    }
    case 6: {
        std::vector<T> v((size_t)h.nb_rows() * h.nb_cols(), T(0));
        htool::copy_to_dense(h, v.data());
        return dig(v);
    }
    default: { // low-rank result
        int mu = r.i(1, 5);
        Mat B(n, mu);
        for (int i = 0; i < n * mu; i++) B.data()[i] = rnd(r);
        LR res(R(1e-4));
        htool::internal_add_hmatrix_matrix_product(tr, 'N', al, h, (const Mat &)B, be, res);
        return digest(res.get_U()) * 31 + digest(res.get_V());
    }
    }
}
static const char *ACT[] = {"sequential-vector-product", "parallel-vector-product", "row-major-product", "column-major-product", "factor-and-solve", "information", "densify", "lowrank-result"};

// a second scalar type, interleaved with the first
typedef std::conditional<CPLX, R, std::complex<R>>::type U;
struct OtherGen : htool::VirtualGenerator<U> {
    const std::vector<C> &x;
    int dim;
    OtherGen(const std::vector<C> &x_, int d) : x(x_), dim(d) {}
    void copy_submatrix(int M, int N, const int *rows, const int *cols, U *ptr) const override {
        for (int j = 0; j < N; j++)
            for (int i = 0; i < M; i++) {
                double s = 0;
                for (int d = 0; d < dim; d++) s += std::pow((double)x[rows[i] * dim + d] - (double)x[cols[j] * dim + d], 2);
                ptr[i + (size_t)M * j] = U(R(1 / (0.1 + std::sqrt(s))));
            }
    }
};
static uint64_t other(const World &w) {
#ifdef _OPENMP
    omp_set_num_threads(1);
#endif
    const Clu &c = *w.p->ct;
    htool::HMatrixTreeBuilder<U, C> b(c, c, R(1e-3), C(5), 'N', 'N', -1, -1, -1);
    OtherGen g(w.p->xt, w.p->dim);
    auto h = b.build(g);
    int n  = h.nb_rows();
    std::vector<U> x(n), y(n, U(0));
    for (int i = 0; i < n; i++) x[i] = U(R(1 + i % 7));
    htool::internal_add_hmatrix_vector_product('N', U(1), h, x.data(), U(0), y.data());
    return fnvb(y.data(), sizeof(U) * n);
}
static void matrices(Ctx &cx) {
    Rng &r = cx.rng;
    Opts o;
    o.nmax = cx.thorough ? 150 : 90;
    if (cx.tail(97, 13)) o.nmin = 250, o.nmax = 450; // a few larger problems among the cases
    int m  = r.i(1, 3);
    std::vector<World> W(m);
    std::vector<uint64_t> oth;
    for (auto &w : W) {
        o.solve      = r.p(0.5);
        o.square     = o.solve;
        o.allow_part = o.allow_incons = !o.solve;
        o.allow_dups = !o.solve;
        w.p          = random_prob(r, o);
        Prob &P      = *w.p;
        if (o.solve && P.sym != 'N') {
            P.sym = P.ker.sym = CPLX ? 'H' : 'S';
            P.ker.kind        = 1;
            P.ker.amp         = 1;
        }
        if (o.solve) P.ker.diag = 1.7 * P.nt + 2;
        w.factorable = o.solve && P.reqrank < 0 && P.tc == P.sc;
        w.seed       = (uint64_t)r.i(1, 1000000000);
        cx.desc("[" + P.d + "]");
        auto fresh = P.builder();
        std::unique_ptr<HM> h(build_with(*fresh, w));
        w.ref = digest(*h);
        for (int k = 0; k < NK; k++) w.out[k] = act(w, *h, k);
        cx.check(digest(*h) == w.ref, "operations-changed-their-input");
        oth.push_back(other(w));
        if (h->get_children().size()) cx.sig(repclass(represented(*h, P), P));
    }
    std::vector<std::pair<int, std::unique_ptr<HM>>> alive;
    int nops = cx.thorough ? 40 : 18;
    for (int q = 0; q < nops; q++) {
        int k    = r.i(0, m - 1);
        World &w = W[k];
        int what = r.pick({0, 0, 1, 2, 2, 2, 2, 2, 3, 4, 5, 6});
        cx.op(S() << "m" << what << k);
        switch (what) {
        case 0: { // persistent builder
            if (!w.b) w.b = w.p->builder();
            std::unique_ptr<HM> h(build_with(*w.b, w));
            cx.check(digest(*h) == w.ref, "reused-builder", "H-matrix differs from the one of a fresh builder");
            cx.check(act(w, *h, 5) == w.out[5], "reused-builder-information", [&] {
                std::string s;
                for (auto &e : info(*h)) s += e.first + "=" + e.second + " ";
                return s;
            }());
            cx.count("rebuilds");
            if (r.p(0.5)) w.h = std::move(h); // the previous one may be destroyed before the next build
            else if (r.p(0.5)) alive.emplace_back(k, std::move(h));
            break;
        }
        case 1: { // fresh builder, destroyed at once
            auto b = w.p->builder();
            std::unique_ptr<HM> h(build_with(*b, w));
            b.reset();
            cx.check(digest(*h) == w.ref, "fresh-builder", "H-matrix differs from the first one built");
            alive.emplace_back(k, std::move(h));
            break;
        }
        case 2: { // repeated operation
            if (!w.h) {
                if (!w.b) w.b = w.p->builder();
                w.h.reset(build_with(*w.b, w));
            }
            int a = r.i(0, NK - 1);
            if (a == 4 && !w.factorable) a = 0;
            cx.op(ACT[a]);
            cx.check(act(w, *w.h, a) == w.out[a], S() << "repeated-operation:" << ACT[a]);
            cx.count(S() << "op_" << ACT[a]);
            cx.count("operations");
            break;
        }
        case 3: w.b.reset(); break; // objects outlive their builder
        case 4: w.h.reset(); break;
        case 5: { // a builder whose settings are changed behaves like a fresh one with these settings
            if (!w.b) w.b = w.p->builder();
            int md = r.i(0, 3);
            if (!(w.p->mint || w.p->mins)) {
                auto f = w.p->builder();
                for (auto *b : {w.b.get(), f.get()}) {
                    b->set_minimal_target_depth(md);
                    b->set_minimal_source_depth(md);
                    b->set_low_rank_generator(lrgen(3));
                }
                std::unique_ptr<HM> h1(build_with(*w.b, w)), h2(build_with(*f, w));
                cx.check(digest(*h1) == digest(*h2), "changed-settings");
                cx.check(info(*h1) == info(*h2), "changed-settings-information");
                w.b->set_minimal_target_depth(0);
                w.b->set_minimal_source_depth(0);
                w.b->set_low_rank_generator(lrgen(w.p->lrk));
                cx.count("changed_settings");
            }
            break;
        }
        default:
            cx.check(other(w) == oth[k], "other-scalar-type");
            cx.count("other_scalar_type");
        }
        for (auto &a : alive) cx.check(digest(*a.second) == W[a.first].ref, "earlier-object-changed");
        for (auto &x : W)
            if (x.h) cx.check(digest(*x.h) == x.ref, "earlier-object-changed");
        if (alive.size() > 3) alive.erase(alive.begin());
    }
    for (auto &w : W) w.b.reset();
    for (auto &a : alive) {
        int k = r.i(0, NK - 1);
        cx.check(act(W[a.first], *a.second, k) == W[a.first].out[k], S() << "object-after-its-builder:" << ACT[k]);
        cx.count("used_after_builder");
    }
}
void vf_case(Ctx &cx) {
    logrec();
    if (cx.rng.p(0.35)) trees(cx);
    else matrices(cx);
}
} // namespace vf
