// C08: an assembled H-matrix approximates the kernel matrix to the requested epsilon.
#include "hmx.hpp"
using namespace vf;
namespace vf {
struct Err {
    double tot = 0, worst = 0;
    int lr = 0, maxrank = 0;
    long mem = 0;
    Rep rep;
};
static Err measure(Ctx &cx, const Prob &p, const HM &h, const Dense &ex, double mult, bool block_check) {
    Err e;
    walk_leaves(h, [&](const HM &l) {
        const Clu &t = l.get_target_cluster(), &s = l.get_source_cluster();
        Dense M, A;
        leaf_dense(l, M, A);
        Dense X(M.m, M.n);
        for (int j = 0; j < M.n; j++)
            for (int i = 0; i < M.m; i++) X(i, j) = ex(t.get_offset() + i - p.rows_lo(), s.get_offset() + j - p.cols_lo());
        double d = frodiff(M, X), n = fro(X);
        if (l.is_dense()) {
            cx.check(d == 0, "dense-leaf-not-exact", S() << d);
        } else {
            e.lr++;
            e.maxrank = std::max(e.maxrank, l.get_rank());
            double fl = 50 * eps() * std::sqrt((double)(M.m + M.n)) * std::max(n, fro(A));
            double q  = d / (p.epsilon * n + fl);
            e.worst   = std::max(e.worst, q);
            cx.maxi(S() << "block-error/eps:" << LRN[p.lrk], q);
            if (block_check) cx.le(q, mult, S() << "lowrank-block-error:" << LRN[p.lrk], S() << M.m << "x" << M.n << " rank " << l.get_rank());
        }
    });
    e.rep = represented(h, p);
    e.tot = frodiff(e.rep.M, ex);
    return e;
}
// large problems (blocks with more entries than an int can count), judged on samples
static void large_case(Ctx &cx) {
    Rng &r  = cx.rng;
    int dim = r.i(2, 3);
    int nt  = r.i(47000, 62000), ns = r.i(47000, 62000), gt = r.pick({0, 1, 6}), gs = r.pick({0, 1, 6});
    auto x = geometry<C>(r, gt, nt, dim), y = geometry<C>(r, gs, ns, dim);
    double dx = diameter(x, dim, x), dy = diameter(y, dim, y);
    double sep = r.pick({0.2, 1.5, 3.});
    for (auto &v : x) v = C(v / dx);
    for (auto &v : y) v = C(v / dy);
    for (size_t i = 0; i < y.size(); i += dim) y[i] = C(y[i] + 1 + sep);
    Kernel ker;
    ker.dim = dim; ker.kind = r.i(0, 3); ker.d0 = 0.1; ker.L = 2; ker.k = r.u(0, 2); ker.same = false; ker.xt = &x; ker.xs = &y; ker.sym = r.pick({'N', 'S'});
    double epsilon = std::pow(10, r.u(sizeof(R) == 4 ? -3.5 : -6, -2));
    int lrk        = r.i(0, 1);
    int minlowrank = r.i(20, 200);
    cx.desc(S() << "large " << nt << "x" << ns << " dim=" << dim << " geometries=" << gt << "," << gs << " sep=" << sep << " kernel=" << ker.kind << ker.sym << " lr=" << LRN[lrk] << " eps=" << epsilon);
    htool::ClusterTreeBuilder<C> cb;
    cb.set_minclustersize(minlowrank);
    int pt[2] = {0, nt}, ps[2] = {0, ns}; // one piece, else the first blocks are halved by the partition
    Clu ct = cb.create_cluster_tree(nt, dim, x.data(), 2, 1, pt), cs = cb.create_cluster_tree(ns, dim, y.data(), 2, 1, ps);
    htool::HMatrixTreeBuilder<T, C> hb(ct, cs, R(epsilon), C(2), 'N', 'N', -1, -1, -1);
    hb.set_low_rank_generator(lrgen(lrk));
    KGen g(ker);
    HM h = hb.build(g);
    double covered = 0, biggest = 0;
    int lr = 0, dense_far = 0;
    walk_leaves(h, [&](const HM &l) {
        const Clu &t = l.get_target_cluster(), &s = l.get_source_cluster();
        double a = double(t.get_size()) * s.get_size();
        covered += a;
        if (!l.is_low_rank()) {
            // clouds are separated: large blocks compress
            if (a > 1e7) dense_far++;
            return;
        }
        lr++;
        biggest = std::max(biggest, a);
        const Mat &U = l.get_low_rank_data()->get_U(), &V = l.get_low_rank_data()->get_V();
        double e = 0, n = 0, mag = 0;
        int ns_ = std::max(50, (int)(3000 * a / (double(nt) * ns)));
        for (int q = 0; q < ns_; q++) {
            int i = r.i(0, t.get_size() - 1), j = r.i(0, s.get_size() - 1);
            D z = 0, ex = up(ker(ct.get_permutation()[t.get_offset() + i], cs.get_permutation()[s.get_offset() + j]));
            double w = 0;
            for (int k = 0; k < U.nb_cols(); k++) z += up(U(i, k)) * up(V(k, j)), w += std::abs(up(U(i, k)) * up(V(k, j)));
            e += std::norm(z - ex);
            n += std::norm(ex);
            mag += w * w;
        }
        cx.le(std::sqrt(e), 300 * epsilon * std::sqrt(n) + 200 * eps() * std::sqrt(std::max(n, mag)), S() << "large-block-error:" << LRN[lrk], S() << t.get_size() << "x" << s.get_size() << " rank " << U.nb_cols());
    });
    cx.check(dense_far == 0, "large-separated-block-kept-dense", strc(dense_far));
    cx.check(covered == double(nt) * ns, "large-matrix-coverage", S() << covered << " of " << double(nt) * ns);
    cx.count("large_matrices");
    if (biggest > 2147483647.) cx.count("large_blocks");
    cx.sig(S() << "large" << lrk << ker.kind << gt << gs << sep << dim << lr);
}
void vf_case(Ctx &cx) {
    Rng &r = cx.rng;
    if (r.p(0.02)) return large_case(cx);
    Opts o;
    o.nmax          = cx.thorough ? 320 : 200;
    o.nmin          = 30;
    o.allow_reqrank = false;
    o.epslo         = sizeof(R) == 4 ? 1e-4 : 1e-9;
    auto p          = random_prob(r, o);
    if (p->eta > 3) p->eta = r.pick({0.5, 1., 2.});
    p->lrk   = r.i(0, 3);
    p->ker.d0 = std::max(p->ker.d0, 0.02 * diameter(p->xt, p->dim, p->xs));
    if (p->ker.k > 2) p->ker.k = 2;
    p->ker.diag = 0;
    bool degenerate = false;
    for (int g : {p->gt, p->gs}) degenerate = degenerate || g == 5; // repeated points: repeated rows defeat the partial-pivoting stopping test
    cx.desc(p->d);
    Dense ex = p->exact();
    double n = fro(ex);
    // SVD and full ACA are bounded for every block; the two heuristics for separated smooth blocks of generic clouds
    bool sure   = p->lrk >= 2;
    double mult = sure ? 1.001 : 100;
    bool judge  = sure || !degenerate;
    HM h        = p->build();
    Err e       = measure(cx, *p, h, ex, mult, judge);
    double fl   = 200 * eps() * std::sqrt((double)(ex.m + ex.n)) * std::max(n, fro(e.rep.A));
    if (judge) cx.le(e.tot, mult * p->epsilon * n + fl, "global-error", S() << "lowrank blocks " << e.lr);
    if (e.lr) {
        cx.count("with_lowrank");
        cx.count("lowrank_blocks", e.lr);
    }
    // decreasing epsilon does not lose accuracy
    double e0  = p->epsilon;
    p->epsilon = e0 / r.pick({10., 100., 1000.});
    if (p->epsilon > 20 * eps()) {
        HM h2  = p->build();
        Err e2 = measure(cx, *p, h2, ex, mult, judge);
        if (judge) {
            cx.le(e2.tot, mult * p->epsilon * n + fl, "global-error-smaller-epsilon");
            cx.le(e2.tot, std::max(e.tot, mult * p->epsilon * n) + fl, "accuracy-lost-with-smaller-epsilon");
        }
        cx.count("epsilon_pairs");
    }
    p->epsilon = e0;
    // scaling by a power of two commutes with the whole construction
    double sc = r.pick({0.0009765625, 1024., 1.0 / (1 << 30), (double)(1 << 20)});
    double s0 = p->ker.scale;
    if (std::abs(s0) < 1e-2 && sc < 1e-6) sc = 1024;
    p->ker.scale = s0 * sc;
    HM h3        = p->build();
    Rep r3       = represented(h3, *p);
    Dense ref    = e.rep.M, bnd = e.rep.A;
    for (auto &v : ref.a) v *= sc;
    Dense exs = ex;
    for (auto &v : exs.a) v *= sc;
    double e3 = frodiff(r3.M, exs) / sc;
    if (judge) cx.le(e3, mult * p->epsilon * n + fl, "global-error-after-scaling", S() << "scale " << sc);
    if (judge) cx.le(std::abs(e3 - e.tot), 0.5 * std::max(e.tot, e3) * (sc < 1e-6 ? 2.1 : 1) + fl, "relative-accuracy-changed-by-scaling", S() << "scale " << sc << " error " << e.tot << " -> " << e3);
    cx.count("scalings");
    if (e.lr) cx.sig(S() << p->lrk << p->mode << p->sym << p->uplo << p->ker.kind << p->ker.sym << (int)std::log10(e0) << p->gt << p->gs << (e.maxrank > 5));
}
} // namespace vf
