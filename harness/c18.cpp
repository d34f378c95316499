// C18: copies are independent equal values, moves transfer, over random histories of dense, low-rank and hierarchical matrices.
#include "hmx.hpp"
#include <htool/hmatrix/linalg/factorization.hpp>
#include <htool/matrix/linalg/factorization.hpp>
using namespace vf;
namespace vf {
// ---- dense matrices: a pool of objects against a model ---------------------------
struct Obj {
    std::unique_ptr<Mat> m;
    bool valid = false; // value known (false: moved-from or released)
    Dense v;
    int view = -1;      // external buffer it refers to
};
struct MatWorld {
    Ctx &cx;
    Rng &r;
    std::vector<Obj> o;
    std::vector<std::unique_ptr<Guard>> bufs;
    std::string hist;
    explicit MatWorld(Ctx &c) : cx(c), r(c.rng), o(5) {}
    void note(const std::string &s) {
        if (hist.size() < 900) hist += s + ";";
    }
    int dim() { return r.p(0.15) ? 0 : r.p(0.2) ? 1 : r.i(2, 6); }
    void fill(Obj &x) {
        for (int j = 0; j < x.v.n; j++)
            for (int i = 0; i < x.v.m; i++) {
                T z          = rnd(r);
                (*x.m)(i, j) = z;
                x.v(i, j)    = up(z);
            }
    }
    void verify(const char *after) {
        for (size_t q = 0; q < o.size(); q++) {
            Obj &x = o[q];
            if (!x.m || !x.valid) continue;
            bool ok = x.m->nb_rows() == x.v.m && x.m->nb_cols() == x.v.n;
            if (!cx.check(ok, S() << "matrix:" << after << ":dimensions", S() << "object " << q << " has " << x.m->nb_rows() << "x" << x.m->nb_cols() << ", expected " << x.v.m << "x" << x.v.n << " after " << hist)) {
                x.valid = false;
                continue;
            }
            for (int j = 0; ok && j < x.v.n; j++)
                for (int i = 0; ok && i < x.v.m; i++) ok = up((*x.m)(i, j)) == x.v(i, j);
            if (!cx.check(ok, S() << "matrix:" << after << ":entries", S() << "object " << q << " after " << hist)) x.valid = false;
            cx.count("objects_compared");
        }
        for (auto &b : bufs) cx.check(b->intact(), S() << "matrix:" << after << ":wrote-outside-buffer", hist);
    }
    void solve_check(Obj &x, const char *what) {
        // LU of a copy; the original must not notice
        Dense A = x.v;
        int n   = A.m;
        Mat F   = *x.m;
        for (int i = 0; i < n; i++) {
            D d     = D(2 * n + 1);
            A(i, i) += d;
            F(i, i) += T(R(2 * n + 1));
        }
        if (r.p(0.5) && n > 1) { // force row interchanges
            for (int j = 0; j < n; j++) {
                std::swap(A(0, j), A(n - 1, j));
                std::swap(F(0, j), F(n - 1, j));
            }
        }
        htool::lu_factorization(F);
        Mat G(F);            // copies carry what is needed to solve
        Mat H;
        H = F;
        Mat tmp(F);
        Mat K(std::move(tmp));
        Mat *all[4] = {&F, &G, &H, &K};
        int mu      = r.i(1, 3);
        Mat B(n, mu);
        Dense b(n, mu);
        for (int j = 0; j < mu; j++)
            for (int i = 0; i < n; i++) b(i, j) = up(B(i, j) = rnd(r));
        Dense ref = gsolve(A, b);
        for (int q = 0; q < 4; q++) {
            Mat X = B;
            if (r.p(0.5)) htool::lu_solve('N', *all[q], X);
            else {
                htool::triangular_matrix_matrix_solve('L', 'L', 'N', 'U', T(1), *all[q], X);
                htool::triangular_matrix_matrix_solve('L', 'U', 'N', 'N', T(1), *all[q], X);
            }
            cx.le(frodiff(frommat(X), ref), 200 * n * eps() * (fro(ref) + 1e-30) * 4, S() << "matrix:factored-copy-solves-differently:" << q, what);
        }
        cx.count("factored_copies");
        // an object that was factored and then given a new value behaves like a fresh one
        int how = r.i(0, 3);
        Mat Y;
        Y = F;
        Dense L(n, n);
        for (int j = 0; j < n; j++)
            for (int i = 0; i < n; i++) L(i, j) = i == j ? up(T(R(2))) : i > j ? up(T(R(r.u(-1, 1)) / T(R(n)))) : D(0);
        auto put = [&](Mat &M) {
            for (int j = 0; j < n; j++)
                for (int i = 0; i < n; i++) M(i, j) = toT(L(i, j));
        };
        std::vector<T> ext;
        if (how == 0) {
            Mat N(n, n);
            put(N);
            Y = N;
        } else if (how == 1) {
            Mat N(n, n);
            put(N);
            Y = std::move(N);
        } else if (how == 2) {
            Y.resize(n, n);
            put(Y);
        } else {
            ext.resize((size_t)n * n);
            Y.assign(n, n, ext.data(), false);
            put(Y);
        }
        Mat X = B;
        htool::triangular_matrix_matrix_solve('L', 'L', 'N', 'N', T(1), Y, X);
        const char *hn[] = {"copy-assign", "move-assign", "resize", "assign-buffer"};
        cx.le(frodiff(frommat(X), gsolve(L, b)), 200 * n * eps() * (fro(b) + 1e-30) * 4, S() << "matrix:stale-pivots-after-" << hn[how]);
    }
    static T toT(const D &d) { return conv(d, std::integral_constant<bool, CPLX>()); }
    template <class X>
    static T conv(const X &d, std::false_type) { return T(R(std::real(d))); }
    template <class X>
    static T conv(const X &d, std::true_type) { return T(R(std::real(d)), R(std::imag(d))); }

    void step() {
        int a = r.i(0, (int)o.size() - 1), b = r.i(0, (int)o.size() - 1);
        Obj &x = o[a], &y = o[b];
        int op = r.i(0, 15);
        std::string tag;
        auto hdr = [&](const char *n) { note(S() << n << a << (op >= 2 && op <= 5 ? std::string(S() << "<-" << b) : std::string())); };
        switch (op) {
        case 0: { // construct
            x = Obj();
            if (r.p(0.25)) {
                hdr("new()");
                x.m.reset(new Mat());
                x.v = Dense();
            } else {
                int p = dim(), q = dim();
                hdr("new(p,q)");
                T z = rnd(r);
                x.m.reset(new Mat(p, q, z));
                x.v = Dense(p, q);
                for (auto &e : x.v.a) e = up(z);
                if (r.p(0.7)) fill(x);
            }
            x.valid = true;
            return verify("construct");
        }
        case 1: // destroy
            hdr("del");
            x = Obj();
            return verify("destroy");
        case 2: { // copy construct
            if (!y.m || !y.valid || a == b) return;
            hdr("copy");
            Obj n;
            n.m.reset(new Mat(*y.m));
            n.v     = y.v;
            n.valid = true;
            x       = std::move(n);
            verify("copy-construct");
            if (r.p(0.5)) fill(x), verify("mutate-after-copy");
            return;
        }
        case 3: { // copy assign (also onto itself, onto moved-from objects and views)
            if (!x.m || !y.m || !y.valid) return;
            hdr("assign");
            Mat &ret = *x.m = *y.m;
            cx.check(&ret == x.m.get(), "matrix:copy-assign:returns-other-object");
            x.v     = y.v;
            x.valid = true;
            verify(a == b ? "self-assign" : "copy-assign");
            if (a != b && r.p(0.5)) fill(x), verify("mutate-after-copy-assign");
            return;
        }
        case 4: { // move construct
            if (!y.m || !y.valid || a == b) return;
            hdr("move");
            Obj n;
            n.m.reset(new Mat(std::move(*y.m)));
            n.v     = y.v;
            n.valid = true;
            n.view  = y.view;
            y.valid = false;
            y.view  = -1;
            x       = std::move(n);
            cx.count("moves");
            return verify("move-construct");
        }
        case 5: { // move assign
            if (!x.m || !y.m || !y.valid) return;
            hdr("moveassign");
            if (a == b) {
                Mat &alias = *y.m;
                *x.m       = std::move(alias);
                return verify("self-move-assign");
            }
            *x.m    = std::move(*y.m);
            x.v     = y.v;
            x.valid = true;
            x.view  = y.view;
            y.valid = false;
            y.view  = -1;
            cx.count("moves");
            return verify("move-assign");
        }
        case 6: case 7: { // resize (any object, also moved-from and released ones)
            if (!x.m) return;
            int p = dim(), q = dim();
            if (r.p(0.35)) p = x.v.n, q = x.v.m; // same number of entries
            hdr("resize");
            T z = r.p(0.5) ? T(0) : rnd(r);
            x.m->resize(p, q, z);
            x.v = Dense(p, q);
            for (auto &e : x.v.a) e = up(z);
            x.valid = true;
            verify("resize");
            if (r.p(0.5)) fill(x), verify("mutate-after-resize");
            return;
        }
        case 8: { // give it a buffer
            if (!x.m) return;
            int p = dim(), q = dim();
            bool own = r.p(0.4);
            hdr(own ? "assign-own" : "assign-view");
            T *ptr;
            x.v = Dense(p, q);
            if (own) {
                ptr = new T[(size_t)p * q];
                for (int i = 0; i < p * q; i++) x.v.a[i] = up(ptr[i] = rnd(r));
                x.view = -1;
            } else {
                bufs.emplace_back(new Guard((size_t)p * q));
                ptr = bufs.back()->data();
                for (int i = 0; i < p * q; i++) x.v.a[i] = up(ptr[i] = rnd(r));
                x.view = (int)bufs.size() - 1;
                cx.count("views");
            }
            x.m->assign(p, q, ptr, own);
            x.valid = true;
            return verify("assign-buffer");
        }
        case 9: { // release
            if (!x.m || !x.valid || x.view >= 0) return;
            hdr("release");
            T *ptr  = x.m->release();
            bool ok = true;
            for (size_t i = 0; i < x.v.a.size(); i++) ok = ok && up(ptr[i]) == x.v.a[i];
            cx.check(ok, "matrix:release:entries", hist);
            delete[] ptr;
            x.valid = false;
            return verify("release");
        }
        case 10: { // scalar
            if (!x.m || !x.valid) return;
            hdr("scalar");
            T z  = rnd(r);
            *x.m = z;
            for (auto &e : x.v.a) e = up(z);
            return verify("scalar-assign");
        }
        case 11: { // entries
            if (!x.m || !x.valid || x.v.a.empty()) return;
            hdr("entry");
            int i = r.i(0, x.v.m - 1), j = r.i(0, x.v.n - 1);
            T z          = rnd(r);
            (*x.m)(i, j) = z;
            x.v(i, j)    = up(z);
            if (r.p(0.3)) {
                std::vector<T> w = rvec(r, x.v.n);
                x.m->set_row(i, w);
                for (int q = 0; q < x.v.n; q++) x.v(i, q) = up(w[q]);
            }
            if (r.p(0.3)) {
                std::vector<T> w = rvec(r, x.v.m);
                x.m->set_col(j, w);
                for (int q = 0; q < x.v.m; q++) x.v(q, j) = up(w[q]);
            }
            return verify("entry");
        }
        case 12: { // arithmetic produces new values and leaves the operands alone
            if (!x.m || !x.valid || x.v.a.empty()) return;
            hdr("arith");
            Mat N = *x.m + *x.m;
            N     = N - *x.m;
            (void)htool::normFrob(N);
            return verify("arithmetic");
        }
        case 13: { // factorisation of copies
            if (!x.m || !x.valid || x.v.m < 1) return;
            hdr("factor");
            if (x.v.m != x.v.n) {
                x.m->resize(x.v.m, x.v.m);
                x.v = Dense(x.v.m, x.v.m);
                fill(x);
            }
            solve_check(x, hist.c_str());
            return verify("factor-copy");
        }
        case 14: { // swap through moves
            if (!x.m || !y.m || a == b || !x.valid || !y.valid) return;
            hdr("swap");
            std::swap(*x.m, *y.m);
            std::swap(x.v, y.v);
            std::swap(x.view, y.view);
            return verify("swap");
        }
        default: { // container growth
            hdr("vector");
            std::vector<Mat> v;
            std::vector<Dense> d;
            for (int i = 0; i < 5; i++) {
                Obj n;
                n.m.reset(new Mat(dim(), dim()));
                n.v = Dense(n.m->nb_rows(), n.m->nb_cols());
                fill(n);
                d.push_back(n.v);
                if (r.p(0.5)) v.push_back(*n.m);
                else v.push_back(std::move(*n.m));
            }
            v.erase(v.begin() + 1);
            d.erase(d.begin() + 1);
            for (size_t i = 0; i < v.size(); i++) cx.check(v[i].nb_rows() == d[i].m && v[i].nb_cols() == d[i].n && frodiff(frommat(v[i]), d[i]) == 0, "matrix:container", hist);
            return verify("container");
        }
        }
    }
};
static void dense_history(Ctx &cx) {
    MatWorld w(cx);
    int steps = cx.thorough ? 60 : 40;
    for (int s = 0; s < steps; s++) {
        w.step();
        cx.count("steps");
    }
    while (!w.o.empty()) { // destruction in random order
        w.o.erase(w.o.begin() + cx.rng.i(0, (int)w.o.size() - 1));
        w.verify("destroy");
    }
    cx.sig(S() << "m" << w.hist.substr(0, 80));
}
// ---- low-rank matrices ----------------------------------------------------------
static Dense lrd(const LR &l) { return mul(frommat(l.get_U()), frommat(l.get_V())); }
static LR random_lr(Rng &r) {
    LR l(R(std::pow(10, r.u(-8, -1))));
    int m = r.i(1, 9), n = r.i(1, 9), k = r.i(0, 3);
    l.get_U().resize(m, k);
    l.get_V().resize(k, n);
    for (int i = 0; i < m * k; i++) l.get_U().data()[i] = rnd(r);
    for (int i = 0; i < n * k; i++) l.get_V().data()[i] = rnd(r);
    return l;
}
static bool lreq(const LR &a, const LR &b) { return a.get_epsilon() == b.get_epsilon() && a.nb_rows() == b.nb_rows() && a.nb_cols() == b.nb_cols() && a.rank_of() == b.rank_of() && digest(a.get_U()) == digest(b.get_U()) && digest(a.get_V()) == digest(b.get_V()); }
static void lowrank_history(Ctx &cx) {
    Rng &r = cx.rng;
    std::unique_ptr<LR> a(new LR(random_lr(r))), keep(new LR(*a));
    cx.check(lreq(*a, *keep), "lowrank:copy");
    LR c = random_lr(r), c0 = c;
    c    = *a;
    cx.check(lreq(c, *keep), "lowrank:copy-assign");
    LR &self = c;
    c        = self;
    cx.check(lreq(c, *keep), "lowrank:self-assign");
    // mutate the copy by an operation that reallocates the factors
    LR other(R(1e-10));
    other.get_U().resize(c.nb_rows(), 2);
    other.get_V().resize(2, c.nb_cols());
    for (int i = 0; i < c.nb_rows() * 2; i++) other.get_U().data()[i] = rnd(r);
    for (int i = 0; i < c.nb_cols() * 2; i++) other.get_V().data()[i] = rnd(r);
    if (r.p(0.5)) htool::scale(T(R(3)), c);
    else {
        Mat A(c.nb_rows(), 2), B(2, c.nb_cols());
        for (int i = 0; i < c.nb_rows() * 2; i++) A.data()[i] = rnd(r);
        for (int i = 0; i < c.nb_cols() * 2; i++) B.data()[i] = rnd(r);
        htool::add_matrix_matrix_product('N', 'N', T(1), A, B, T(1), c);
    }
    cx.check(lreq(*a, *keep), "lowrank:mutating-the-copy-changed-the-source");
    LR mv(std::move(*a));
    cx.check(lreq(mv, *keep), "lowrank:move");
    a.reset();
    cx.check(lreq(mv, *keep), "lowrank:destroying-the-source-changed-the-copy");
    LR ma = random_lr(r);
    ma    = std::move(mv);
    cx.check(lreq(ma, *keep), "lowrank:move-assign");
    mv = c0; // a moved-from object can be reassigned
    cx.check(lreq(mv, c0), "lowrank:reassign-moved-from");
    std::swap(ma, mv);
    cx.check(lreq(mv, *keep) && lreq(ma, c0), "lowrank:swap");
    cx.count("lowrank_histories");
}
// ---- hierarchical matrices ------------------------------------------------------
static uint64_t meta(const HM &h) {
    uint64_t d = 7;
    walk_nodes(h, [&](const HM &q) {
        int v[6] = {(int)q.get_depth(), q.get_symmetry_for_leaves(), q.get_UPLO_for_leaves(), q.is_root(), q.is_leaf(), q.is_block_tree_consistent()};
        d        = fnvb(v, sizeof v, d);
        double e[3] = {(double)q.get_epsilon(), (double)q.get_hmatrix_tree_data()->m_eta, 0};
        d           = fnvb(e, sizeof e, d);
        const void *p[4] = {&q.get_target_cluster(), &q.get_source_cluster(), q.get_hmatrix_tree_data()->m_low_rank_generator.get(), q.get_hmatrix_tree_data()->m_admissibility_condition.get()};
        d                = fnvb(p, sizeof p, d);
    });
    return d;
}
static bool aliases(const HM &a, const HM &b) {
    std::set<const void *> s;
    walk_nodes(a, [&](const HM &q) {
        s.insert(&q);
        if (q.get_dense_data()) s.insert(q.get_dense_data());
        if (q.get_dense_data() && q.get_dense_data()->nb_rows() * q.get_dense_data()->nb_cols()) s.insert(q.get_dense_data()->data());
        if (q.get_low_rank_data()) s.insert(q.get_low_rank_data());
        if (q.get_low_rank_data() && q.get_rank() > 0) s.insert(q.get_low_rank_data()->get_U().data()), s.insert(q.get_low_rank_data()->get_V().data());
    });
    bool f = false;
    walk_nodes(b, [&](const HM &q) {
        f = f || s.count(&q) || (q.get_dense_data() && (s.count(q.get_dense_data()) || s.count(q.get_dense_data()->data())));
        if (q.get_low_rank_data()) f = f || s.count(q.get_low_rank_data()) || (q.get_rank() > 0 && (s.count(q.get_low_rank_data()->get_U().data()) || s.count(q.get_low_rank_data()->get_V().data())));
    });
    return f;
}
struct Behaviour { // everything an operation lets a user observe
    std::vector<std::vector<T>> out;
    std::vector<long> errs;
    std::map<std::string, std::string> info;
    std::string bad;
};
static Behaviour behave(const HM &h, uint64_t seed, LogRec &log) {
    Rng r(seed);
    Behaviour b;
    omp_set_num_threads(1);
    for (char tr : {'N', 'T', 'C'}) {
        int ni = tr == 'N' ? h.nb_cols() : h.nb_rows(), no = tr == 'N' ? h.nb_rows() : h.nb_cols();
        for (int k = 0; k < 3; k++) {
            int mu = k == 0 ? 1 : 3;
            std::vector<T> x = rvec(r, (size_t)ni * mu), y = rvec(r, (size_t)no * mu);
            log.clear();
            if (k == 0) htool::sequential_internal_add_hmatrix_vector_product(tr, T(R(0.5)), h, (const T *)x.data(), T(R(2)), y.data());
            else if (k == 1) htool::internal_add_hmatrix_vector_product(tr, T(1), h, (const T *)x.data(), T(0), y.data());
            else htool::sequential_internal_add_hmatrix_matrix_product_row_major(tr, 'N', T(1), h, (const T *)x.data(), T(1), y.data(), mu);
            b.out.push_back(y);
            b.errs.push_back(log.errors);
        }
    }
    std::vector<T> d((size_t)h.nb_rows() * h.nb_cols());
    log.clear();
    htool::copy_to_dense(h, d.data());
    b.out.push_back(d);
    b.info = htool::get_hmatrix_information(h);
    auto tp = htool::get_tree_parameters(h);
    b.info.insert(tp.begin(), tp.end());
    auto lv = htool::get_leaves_from(h);
    b.errs.push_back(lv.first.size());
    b.errs.push_back(lv.second.size());
    return b;
}
static std::string differ(const Behaviour &a, const Behaviour &b) {
    for (size_t i = 0; i < a.out.size(); i++)
        if (a.out[i] != b.out[i]) return S() << (i < 9 ? "product" : "dense");
    for (size_t i = 0; i < a.errs.size(); i++)
        if (a.errs[i] != b.errs[i]) return i < 9 ? "reported-errors" : "leaf-lists";
    if (a.info != b.info) {
        for (auto &x : a.info)
            if (!b.info.count(x.first) || b.info.at(x.first) != x.second) return "information";
        return "information";
    }
    return "";
}
static void hierarchical_history(Ctx &cx) {
    Rng &r   = cx.rng;
    auto log = logrec();
    Opts o;
    o.nmax       = 80;
    if (cx.tail(97, 13)) o.nmin = 150, o.nmax = 300; // a few larger problems among the cases
    o.allow_sym  = true;
    o.allow_dups = false;
    auto p       = random_prob(r, o);
    p->threads   = 1;
    cx.desc(p->d);
    std::unique_ptr<HM> h(new HM(p->build()));
    HM *node = h.get();
    // sub-blocks are matrices too
    std::vector<HM *> nodes;
    preorder_tree_traversal(*h, [&](HM &q) { nodes.push_back(&q); });
    bool sub = r.p(0.35);
    if (sub) node = nodes[r.i(0, (int)nodes.size() - 1)];
    uint64_t bs = r.next();
    Behaviour b0 = behave(*node, bs, *log);
    uint64_t dg = digest(*node), mt = meta(*node);
    // something of another kind to be assigned over
    auto other = [&]() {
        int k = r.i(0, 3);
        HM q(node->get_target_cluster(), node->get_source_cluster());
        if (k == 0) return q;
        if (k == 1) {
            KGen g(p->ker);
            htool::InternalGeneratorWithPermutation<T> ig(g, p->tc->get_permutation().data(), p->sc->get_permutation().data());
            q.compute_dense_data(ig);
            return q;
        }
        if (k == 2) {
            KGen g(p->ker);
            htool::InternalGeneratorWithPermutation<T> ig(g, p->tc->get_permutation().data(), p->sc->get_permutation().data());
            q.compute_low_rank_data(ig, *lrgen(3), 1, R(1e-2));
            return q;
        }
        return HM(*nodes[r.i(0, (int)nodes.size() - 1)]);
    };
    std::vector<std::unique_ptr<HM>> copies;
    std::vector<std::string> how;
    copies.emplace_back(new HM(*node));
    how.push_back("copy-construct");
    copies.emplace_back(new HM(other()));
    *copies.back() = *node;
    how.push_back("copy-assign");
    {
        HM t(*node);
        copies.emplace_back(new HM(std::move(t)));
        how.push_back("move-of-copy");
        t = *node; // moved-from object reassigned
        copies.emplace_back(new HM(other()));
        *copies.back() = std::move(t);
        how.push_back("move-assign-of-reassigned");
    }
    copies.emplace_back(new HM(*copies[1]));
    how.push_back("copy-of-copy");
    {
        copies.emplace_back(new HM(*node));
        HM &self = *copies.back();
        self     = *copies.back();
        how.push_back("self-assign");
        std::vector<HM> v;
        v.push_back(*node);
        v.push_back(other());
        v.push_back(*node);
        copies.emplace_back(new HM(v[2]));
        how.push_back("in-container");
    }
    for (size_t i = 0; i < copies.size(); i++) {
        HM &c = *copies[i];
        cx.op("[" + how[i] + (sub ? " sub]" : "]"));
        cx.check(digest(c) == dg, "hmatrix:" + how[i] + ":contents");
        cx.check(meta(c) == mt, "hmatrix:" + how[i] + ":structure");
        cx.check(!aliases(*node, c), "hmatrix:" + how[i] + ":shares-storage");
        Behaviour b = behave(c, bs, *log);
        std::string w = differ(b0, b);
        cx.check(w.empty(), "hmatrix:" + how[i] + ":behaves-differently:" + w);
        // leaves must not carry data of what they were before
        bool stale = false;
        walk_nodes(c, [&](const HM &q) {
            if (q.is_dense() && q.get_low_rank_data()) stale = true;
            if (q.is_low_rank() && q.get_dense_data()) stale = true;
            if (q.is_hierarchical() && (q.get_dense_data() || q.get_low_rank_data())) stale = true;
        });
        bool srcstale = false;
        walk_nodes(*node, [&](const HM &q) { srcstale = srcstale || (q.is_dense() && q.get_low_rank_data()) || (q.is_low_rank() && q.get_dense_data()); });
        cx.check(!stale || srcstale, "hmatrix:" + how[i] + ":keeps-old-data");
        cx.count("hmatrix_copies");
    }
    // parameters set on a copy reach its blocks as they do on the original, and only there
    {
        HM x(*node), y(*node);
        double e0 = node->get_epsilon();
        x.set_epsilon(R(0.25));
        x.set_eta(C(77));
        bool all = true, none = true;
        walk_nodes(x, [&](const HM &q) { all = all && q.get_epsilon() == R(0.25) && q.get_hmatrix_tree_data()->m_eta == C(77); });
        walk_nodes(y, [&](const HM &q) { none = none && q.get_epsilon() == R(e0); });
        walk_nodes(*node, [&](const HM &q) { none = none && q.get_epsilon() == R(e0); });
        cx.check(all, "hmatrix:parameter-set-on-a-copy-does-not-reach-its-blocks");
        cx.check(none, "hmatrix:parameter-set-on-a-copy-reaches-others");
    }
    // mutate copies in different ways; nobody else may notice
    HM probe(*node);
    for (size_t i = 0; i < copies.size(); i++) {
        if (r.p(0.4)) continue;
        HM &c = *copies[i];
        int k = r.i(0, 3);
        cx.op(S() << "[mutate " << i << " " << k << "]");
        if (k == 0) htool::scale(T(R(2)), c);
        else if (k == 1)
            preorder_tree_traversal(c, [&](HM &q) {
                if (q.is_dense())
                    for (int e = 0; e < q.nb_rows() * q.nb_cols(); e++) q.get_dense_data()->data()[e] = T(R(9));
                if (q.is_low_rank() && q.get_rank() > 0)
                    for (int e = 0; e < q.nb_rows() * q.get_rank(); e++) q.get_low_rank_data()->get_U().data()[e] = T(R(9));
            });
        else if (k == 2) copies[i].reset(new HM(node->get_target_cluster(), node->get_source_cluster()));
        else if (node->get_target_cluster() == node->get_source_cluster() && p->sym == 'N' && p->consistent && (!sub || node->get_target_cluster().get_rank() >= 0)) { // factorisations are offered for root and local clusters
            htool::lu_factorization(c);
            cx.count("copies_factored");
        }
        cx.check(digest(*node) == dg && meta(*node) == mt, "hmatrix:mutating-a-copy-changed-the-source");
        cx.check(digest(probe) == dg, "hmatrix:mutating-a-copy-changed-another-copy");
        cx.count("mutations");
    }
    cx.check(differ(b0, behave(*node, bs, *log)).empty(), "hmatrix:source-behaves-differently-after-copies-were-mutated");
    // destroying the source does not affect the copies
    node = nullptr;
    h.reset();
    std::string w = differ(b0, behave(probe, bs, *log));
    cx.check(w.empty(), "hmatrix:destroying-the-source-changed-a-copy:" + w);
    cx.check(digest(probe) == dg, "hmatrix:destroying-the-source-changed-a-copy");
    cx.sig(S() << "h" << p->mode << p->sym << p->uplo << sub << b0.errs.back() << (nodes.size() > 1) << p->consistent);
    log->clear();
}
// ---- cluster trees are movable ---------------------------------------------------
static void cluster_history(Ctx &cx) {
    Rng &r = cx.rng;
    int n = r.i(1, 60), dim = r.i(2, 3);
    auto x     = geometry<C>(r, pick_geom(r, true), n, dim);
    CluCfg cfg = random_clucfg(r, n, dim, 4);
    htool::ClusterTreeBuilder<C> b;
    configure(b, cfg);
    auto mk    = [&]() { return b.create_cluster_tree(n, dim, x.data(), cfg.nchild, cfg.size_part, cfg.given ? cfg.part.data() : nullptr); };
    Clu a      = mk();
    auto perm  = a.get_permutation();
    auto sub   = a.get_children().empty() ? nullptr : a.get_children()[0].get();
    size_t np  = a.get_clusters_on_partition().size();
    std::unique_ptr<Clu> m(new Clu(std::move(a)));
    auto good = [&](const Clu &c) {
        bool ok = c.is_root() && &c.get_root_cluster() == &c && c.get_permutation() == perm && c.get_clusters_on_partition().size() == np && c.get_size() == n;
        preorder_tree_traversal(c, [&](const Clu &q) { ok = ok && &q.get_root_cluster() == &c; });
        return ok && (!sub || c.get_children()[0].get() == sub);
    };
    cx.check(good(*m), "cluster:move-construct");
    Clu z = mk();
    z     = std::move(*m);
    m.reset();
    cx.check(good(z), "cluster:move-assign");
    cx.count("cluster_moves", 2);
}
void vf_case(Ctx &cx) {
    Rng &r = cx.rng;
    omp_set_num_threads(1);
    logrec();
    switch (cx.k % 4) {
    case 0:
    case 1:
        cx.desc("dense history");
        if (cx.k % 8 == 0) leak_check(cx, "matrix:leak", [&] { dense_history(cx); });
        else dense_history(cx);
        break;
    case 2:
        if (cx.k % 8 == 2) leak_check(cx, "hmatrix:leak", [&] { hierarchical_history(cx); });
        else hierarchical_history(cx);
        break;
    default:
        cx.desc("low-rank and cluster histories");
        leak_check(cx, "lowrank:leak", [&] {
            lowrank_history(cx);
            cluster_history(cx);
            logrec()->clear();
        });
    }
    (void)r;
}
} // namespace vf
