// C13: mixed products with hierarchical operands or results against dense reference arithmetic.
#include "hmx.hpp"
using namespace vf;
namespace vf {
struct Side {
    int n = 0, dim = 2, g = 0;
    std::vector<C> x;
    CluCfg cfg;
    std::unique_ptr<Clu> c;
    const Clu *use = nullptr;
};
static void mk(Rng &r, Side &s, int n, int dim, int sp, double shift) {
    s.n   = n;
    s.dim = dim;
    s.g   = pick_geom(r, false);
    s.x   = geometry<C>(r, s.g, n, dim, shift);
    s.cfg = random_clucfg(r, n, dim, 4, sp);
    s.c.reset(make_cluster(s.cfg, n, dim, s.x));
}
struct Opd { // an assembled H-matrix with its dense image
    Kernel ker;
    std::unique_ptr<HM> h;
    Rep rep;
    double eps = 0;
    std::string d;
};
static void build(Rng &r, Opd &o, const Side &t, const Side &s, double ep, bool same, bool small_eta) {
    o.ker.dim  = t.dim;
    o.ker.kind = r.i(0, 3);
    o.ker.same = same;
    double dia = diameter(t.x, t.dim, s.x);
    o.ker.d0   = dia * r.pick({0.3, 0.05});
    o.ker.L    = dia;
    o.ker.k    = r.u(0, 3);
    o.ker.amp  = o.ker.kind == 0 ? o.ker.d0 : o.ker.kind == 3 ? o.ker.d0 * o.ker.d0 : 1;
    o.ker.xt   = &t.x;
    o.ker.xs   = &s.x;
    o.ker.diag = same && r.p(0.5) ? 2 : 0;
    double eta = small_eta ? r.pick({0.01, 1.}) : r.pick({10., 10., 3., 1., 100., 0.5, 0.01});
    int lk     = r.i(0, 3), mint = r.p(0.25) ? r.i(1, 3) : 0, mins = r.p(0.25) ? r.i(1, 3) : 0;
    htool::HMatrixTreeBuilder<T, C> b(*t.use, *s.use, R(ep), C(eta), 'N', 'N', -1, -1, -1);
    b.set_low_rank_generator(lrgen(lk));
    if (mint) b.set_minimal_target_depth(mint);
    if (mins) b.set_minimal_source_depth(mins);
    KGen g(o.ker);
    o.h.reset(new HM(b.build(g)));
    if (r.p(0.35)) // blocks left with rank zero, as truncation and earlier products leave them
        preorder_tree_traversal(*o.h, [&](HM &l) {
            if (l.is_low_rank() && r.p(0.5)) {
                l.get_low_rank_data()->get_U().resize(l.nb_rows(), 0);
                l.get_low_rank_data()->get_V().resize(0, l.nb_cols());
            }
        });
    o.rep = represented(*o.h, 'N', 0, 0);
    o.eps = ep;
    o.d   = S() << "eta=" << eta << " lr=" << LRN[lk] << " min=" << mint << "/" << mins << " kernel=" << o.ker.kind << " " << repdesc(o.rep);
}
static LR rlr(Rng &r, int m, int n, int rank, double ep) {
    LR l((R)ep);
    l.get_U().resize(m, rank);
    l.get_V().resize(rank, n);
    for (int i = 0; i < m * rank; i++) l.get_U().data()[i] = rnd(r);
    for (int i = 0; i < n * rank; i++) l.get_V().data()[i] = rnd(r);
    return l;
}
static Mat rmat(Rng &r, int m, int n) {
    Mat a(m, n);
    for (int i = 0; i < m * n; i++) a.data()[i] = rnd(r);
    return a;
}
static void lrd(const LR &l, int m, int n, Dense &M, Dense &A) {
    M = Dense(m, n);
    A = Dense(m, n);
    for (int q = 0; q < l.get_U().nb_cols(); q++)
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++) {
                D t = up(l.get_U()(i, q)) * up(l.get_V()(q, j));
                M(i, j) += t;
                A(i, j) += std::abs(t);
            }
}
void vf_case(Ctx &cx) {
    Rng &r   = cx.rng;
    auto log = logrec();
    omp_set_num_threads(r.i(1, 3));
    char ta = r.pick({'N', 'N', 'T', 'C'}), tb = r.pick({'N', 'N', 'T', 'C'});
    int mx  = cx.thorough ? 110 : 80;
    if (cx.tail(97, 13)) mx = 260; // a few larger problems among the cases
    auto sz = [&]() { return cx.tail(97, 13) ? r.i(mx / 2, mx) : r.p(0.12) ? r.i(2, 8) : r.i(10, mx); };
    int dim = r.i(2, 3);
    int mode = r.i(0, 4); // 0 local x local, 1 partition x root, 2 roots, 3 one partition only, 4 any mixture of roots and parts
    int loc  = r.i(0, 7);
    int np   = mode == 3 ? 1 : r.i(1, 4);
    Side s1, s2, s3;
    bool alls = r.p(0.35);
    mk(r, s1, sz(), dim, mode == 3 ? 1 : std::min(np, 2), 0);
    bool same12 = alls, same23 = alls;
    Side *K = &s1, *Q = &s1;
    if (!alls) {
        if (r.p(0.8)) {
            mk(r, s2, sz(), dim, mode == 3 ? 1 : r.i(1, 4), r.pick({0., 0.5, 2.}));
            K = &s2;
        } else same12 = true;
        if (r.p(0.8)) {
            mk(r, s3, sz(), dim, mode == 3 ? 1 : r.i(1, 4), r.pick({0., 0.5, 2.}));
            Q = &s3;
        } else {
            Q      = K;
            same23 = true;
        }
    }
    Side *P = &s1;
    auto part = [&](Side *s) { return s->c->get_clusters_on_partition()[r.i(0, (int)s->c->get_clusters_on_partition().size() - 1)]; };
    Side p1, p2, p3; // views
    auto view = [&](Side *s, bool local) {
        s->use = local ? part(s) : s->c.get();
    };
    // a cloud shared by several roles uses one cluster for all of them unless the mode says otherwise
    Side vp, vk, vq;
    auto cp = [&](Side *s, bool local) {
        Side v;
        v.n   = s->n;
        v.dim = s->dim;
        v.x   = s->x;
        v.use = local ? part(s) : s->c.get();
        return v;
    };
    (void)view;
    vp = cp(P, mode == 0 || mode == 1 || (mode == 4 && (loc & 1)));
    vk = cp(K, mode == 0 || (mode == 4 && (loc & 2)));
    vq = cp(Q, mode == 0 || (mode == 4 && (loc & 4)));
    if (mode == 4) {
        cx.count("mixtures_of_roots_and_parts");
        cx.op(S() << "[local" << loc << "]");
    }
    if (mode == 0 && same12 && r.p(0.7)) vk.use = vp.use;
    if (mode == 0 && same23 && r.p(0.7)) vq.use = vk.use;
    double ep = std::pow(10, r.u(sizeof(R) == 4 ? -5 : -9, -1));
    Opd A, B, Cc;
    auto samecl = [&](Side *a, Side *b) { return a == b; };
    // A is op: stored transposed when ta != N
    if (ta == 'N') build(r, A, vp, vk, ep, samecl(P, K), false);
    else build(r, A, vk, vp, ep, samecl(P, K), false);
    if (tb == 'N') build(r, B, vk, vq, ep, samecl(K, Q), false);
    else build(r, B, vq, vk, ep, samecl(K, Q), false);
    build(r, Cc, vp, vq, ep, samecl(P, Q), r.p(0.4));
    int m = vp.use->get_size(), k = vk.use->get_size(), n = vq.use->get_size();
    cx.desc(S() << "mode=" << mode << " dim=" << dim << " m=" << m << " k=" << k << " n=" << n << " ops=" << ta << tb << " eps=" << ep << " same=" << same12 << same23 << " cl[" << cdesc(P->cfg) << "][" << cdesc(K->cfg) << "][" << cdesc(Q->cfg) << "] A[" << A.d << "] B[" << B.d << "] C[" << Cc.d << "]");
    Dense a = op(ta, A.rep.M), aa = absd(op(ta, A.rep.A)), b = op(tb, B.rep.M), ba = absd(op(tb, B.rep.A));
    uint64_t da = digest(*A.h), db = digest(*B.h);
    for (int trial = 0; trial < (cx.thorough ? 10 : 6); trial++) {
        int opn = r.i(0, 12);
        static const char *nm[] = {"HH>M", "HH>LR", "HH>H", "HH>H", "HL>M", "HL>LR", "HL>H", "LH>M", "LH>LR", "LH>H", "HM>LR", "MH>LR", "L+H"};
        T al = rscal(r), be = rscal(r);
        log->clear();
        cx.op(S() << "[" << nm[opn] << " al=" << al << " be=" << be << "]");
        std::string key = S() << nm[opn] << ":" << ta << tb;
        double lep      = r.p(0.5) ? ep : std::pow(10, r.u(sizeof(R) == 4 ? -5 : -9, -1));
        double em       = std::max(ep, lep);
        // operands
        Dense x = a, xa = aa, y = b, ya = ba;
        LR L((R)lep);
        Mat Md;
        int lr_ = r.pick({0, 1, 2, 4, 7});
        bool lA = opn >= 7 && opn <= 9, lB = opn >= 4 && opn <= 6;
        if (lA) {
            L = ta == 'N' ? rlr(r, m, k, lr_, lep) : rlr(r, k, m, lr_, lep);
            lrd(L, ta == 'N' ? m : k, ta == 'N' ? k : m, x, xa);
            x  = op(ta, x);
            xa = absd(op(ta, xa));
        }
        if (lB) {
            L = tb == 'N' ? rlr(r, k, n, lr_, lep) : rlr(r, n, k, lr_, lep);
            lrd(L, tb == 'N' ? k : n, tb == 'N' ? n : k, y, ya);
            y  = op(tb, y);
            ya = absd(op(tb, ya));
        }
        if (opn == 10) {
            Md = tb == 'N' ? rmat(r, k, n) : rmat(r, n, k);
            y  = op(tb, frommat(Md));
            ya = absd(y);
        }
        if (opn == 11) {
            Md = ta == 'N' ? rmat(r, m, k) : rmat(r, k, m);
            x  = op(ta, frommat(Md));
            xa = absd(x);
        }
        Dense xy, xym, absxy;
        if (opn == 12) {
            L = rlr(r, m, n, lr_, lep);
            lrd(L, m, n, xy, xym);
            absxy = absd(xy);
            al    = 1;
            be    = 1;
        } else {
            xy    = mul(x, y);
            xym   = mul(xa, ya);
            absxy = mul(absd(x), absd(y));
        }
        uint64_t dl = digest(L.get_U()) * 31 + digest(L.get_V());
        int depth   = m + n + k + A.rep.maxrank + B.rep.maxrank + Cc.rep.maxrank + 20;
        bool rM = opn == 0 || opn == 4 || opn == 7, rL = opn == 1 || opn == 5 || opn == 8 || opn == 10 || opn == 11;
        if (rM) {
            Mat Cm   = rmat(r, m, n);
            Dense C0 = frommat(Cm);
            if (opn == 0) htool::internal_add_hmatrix_hmatrix_product(ta, tb, al, (const HM &)*A.h, (const HM &)*B.h, be, Cm);
            else if (opn == 4) htool::internal_add_hmatrix_lrmat_product(ta, tb, al, (const HM &)*A.h, (const LR &)L, be, Cm);
            else htool::internal_add_lrmat_hmatrix_product(ta, tb, al, (const LR &)L, (const HM &)*B.h, be, Cm);
            cx.check(Cm.nb_rows() == m && Cm.nb_cols() == n, key + ":result-dimensions");
            cx.le(worst(frommat(Cm), axpby(up(al), xy, up(be), C0), axpby(std::abs(up(al)), xym, std::abs(up(be)), absd(C0)), 1e-290) / (8 * eps() * depth), 1, key + ":value");
            cx.count("dense_results");
        } else if (rL) {
            LR Cm((R)lep);
            int rc = r.pick({-1, 0, 1, 3});
            Dense C0(m, n), Ca(m, n);
            if (rc >= 0) {
                Cm = rlr(r, m, n, rc, lep);
                lrd(Cm, m, n, C0, Ca);
            } else {
                // results are handed in with their dimensions known, as the library does itself
                Cm.get_U().resize(m, 0);
                Cm.get_V().resize(0, n);
            }
            if (opn == 1) htool::internal_add_hmatrix_hmatrix_product(ta, tb, al, (const HM &)*A.h, (const HM &)*B.h, be, Cm);
            else if (opn == 5) htool::internal_add_hmatrix_lrmat_product(ta, tb, al, (const HM &)*A.h, (const LR &)L, be, Cm);
            else if (opn == 8) htool::internal_add_lrmat_hmatrix_product(ta, tb, al, (const LR &)L, (const HM &)*B.h, be, Cm);
            else if (opn == 10) htool::internal_add_hmatrix_matrix_product(ta, tb, al, (const HM &)*A.h, (const Mat &)Md, be, Cm);
            else htool::internal_add_matrix_hmatrix_product(ta, tb, al, (const Mat &)Md, (const HM &)*B.h, be, Cm);
            if (cx.check(Cm.get_U().nb_rows() == m && Cm.get_V().nb_cols() == n && Cm.get_U().nb_cols() == Cm.get_V().nb_rows(), key + ":result-dimensions", S() << Cm.get_U().nb_rows() << "x" << Cm.get_U().nb_cols() << " " << Cm.get_V().nb_rows() << "x" << Cm.get_V().nb_cols())) {
                Dense g, ga, ref = axpby(up(al), xy, up(be), C0);
                lrd(Cm, m, n, g, ga);
                double scale = std::abs(al) * fro(absxy) + std::abs(be) * fro(C0) + fro(ref);
                cx.le(frodiff(g, ref), 10 * em * scale + 40 * eps() * depth * (std::abs(al) * fro(xym) + std::abs(be) * fro(Ca)) + 1e-300, key + ":value", S() << "rank " << Cm.rank_of());
            }
            cx.count("lowrank_results");
        } else {
            HM Cm(*Cc.h);
            Cm.set_symmetry_for_leaves('N');
            const Rep &c0 = Cc.rep;
            if (opn == 2 || opn == 3) htool::internal_add_hmatrix_hmatrix_product(ta, tb, al, (const HM &)*A.h, (const HM &)*B.h, be, Cm);
            else if (opn == 6) htool::internal_add_hmatrix_lrmat_product(ta, tb, al, (const HM &)*A.h, (const LR &)L, be, Cm);
            else if (opn == 9) htool::internal_add_lrmat_hmatrix_product(ta, tb, al, (const LR &)L, (const HM &)*B.h, be, Cm);
            else htool::internal_add_lrmat_hmatrix((const LR &)L, Cm);
            Rep g = represented(Cm, 'N', 0, 0);
            cx.check(g.holes == 0 && g.multi == 0 && g.M.m == m && g.M.n == n, key + ":result-coverage", S() << g.holes << "/" << g.multi);
            bool okdim = true;
            walk_leaves(Cm, [&](const HM &l) {
                if (l.is_dense()) okdim = okdim && l.get_dense_data()->nb_rows() == l.nb_rows() && l.get_dense_data()->nb_cols() == l.nb_cols();
                else if (l.is_low_rank()) okdim = okdim && l.get_low_rank_data()->get_U().nb_rows() == l.nb_rows() && l.get_low_rank_data()->get_V().nb_cols() == l.nb_cols() && l.get_low_rank_data()->get_U().nb_cols() == l.get_low_rank_data()->get_V().nb_rows();
            });
            cx.check(okdim, key + ":leaf-dimensions");
            Dense ref    = axpby(up(al), xy, up(be), c0.M);
            double scale = std::abs(al) * fro(absxy) + std::abs(be) * fro(c0.M) + fro(ref);
            cx.le(frodiff(g.M, ref), 10 * em * scale + 40 * eps() * depth * (std::abs(al) * fro(xym) + std::abs(be) * fro(c0.A)) + 1e-300, key + ":value");
            cx.count("hierarchical_results");
            if (opn <= 3 && !A.h->is_hierarchical()) cx.count("leaf_times_into_hierarchical");
        }
        cx.check(digest(L.get_U()) * 31 + digest(L.get_V()) == dl, key + ":input-modified");
        cx.check(log->errors == 0, key + ":reported-as-error", log->last_error());
        cx.sig(S() << key << mode << (al == T(0)) << (be == T(0)) << (be == T(1)) << A.h->is_hierarchical() << B.h->is_hierarchical() << Cc.h->is_hierarchical() << (A.rep.nlr > 0) << (B.rep.nlr > 0) << (Cc.rep.nlr > 0) << (lr_ == 0));
    }
    cx.check(digest(*A.h) == da && digest(*B.h) == db, "operand-modified");
}
} // namespace vf
