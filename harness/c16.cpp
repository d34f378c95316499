// C16: triangular solves with an H-matrix on the left or right, for dense, low-rank and hierarchical right-hand sides.
#include "hmx.hpp"
#include <htool/hmatrix/linalg/factorization.hpp>
using namespace vf;
namespace vf {
struct Side {
    int n = 0, dim = 2;
    std::vector<C> x;
    CluCfg cfg;
    std::unique_ptr<Clu> c;
};
static void mk(Rng &r, Side &s, int n, int dim, int sp, double shift) {
    s.n   = n;
    s.dim = dim;
    s.x   = geometry<C>(r, pick_geom(r, false), n, dim, shift);
    s.cfg = random_clucfg(r, n, dim, 4, sp);
    s.c.reset(make_cluster(s.cfg, n, dim, s.x));
}
static const Clu *part(Rng &r, Side &s) { return s.c->get_clusters_on_partition()[r.i(0, (int)s.c->get_clusters_on_partition().size() - 1)]; }
static double colnorm(const Dense &A, int j) {
    double s = 0;
    for (int i = 0; i < A.m; i++) s += std::norm(A(i, j));
    return std::sqrt(s);
}
static void kern(Rng &r, Kernel &k, const Side &t, const Side &s, bool same) {
    k.dim      = t.dim;
    k.kind     = r.i(0, 3);
    k.same     = same;
    double dia = diameter(t.x, t.dim, s.x);
    k.d0       = dia * r.pick({0.3, 0.05});
    k.L        = dia;
    k.k        = r.u(0, 3);
    k.amp      = k.kind == 0 ? k.d0 : k.kind == 3 ? k.d0 * k.d0 : 1;
    k.xt       = &t.x;
    k.xs       = &s.x;
}
static HM assemble(Rng &r, const Kernel &k, const Clu &t, const Clu &s, double ep, char sym, char uplo, bool fine, std::string &d) {
    double eta = fine ? r.pick({0.01, 1.}) : r.pick({10., 10., 30., 3., 1., 100., 0.01});
    int lk = r.i(0, 3), mint = r.p(0.25) ? r.i(1, 3) : 0, mins = r.p(0.25) ? r.i(1, 3) : 0;
    htool::HMatrixTreeBuilder<T, C> b(t, s, R(ep), C(eta), sym, uplo, -1, -1, -1);
    b.set_low_rank_generator(lrgen(lk));
    if (mint) b.set_minimal_target_depth(mint);
    if (mins) b.set_minimal_source_depth(mins);
    KGen g(k);
    d = S() << "eta=" << eta << " lr=" << LRN[lk] << " min=" << mint << "/" << mins << " kernel=" << k.kind << k.sym;
    return b.build(g);
}
static Dense triangle(const Dense &M, char uplo, char diag) {
    Dense Tr(M.m, M.n);
    for (int j = 0; j < M.n; j++)
        for (int i = 0; i < M.m; i++)
            if (i == j) Tr(i, j) = diag == 'U' ? D(1) : M(i, j);
            else if ((uplo == 'L') == (i > j)) Tr(i, j) = M(i, j);
    return Tr;
}
void vf_case(Ctx &cx) {
    Rng &r   = cx.rng;
    auto log = logrec();
    omp_set_num_threads(r.i(1, 3));
    int mx = cx.thorough ? 150 : 110, dim = r.i(2, 3);
    if (cx.tail(97, 13)) mx = 350; // a few larger problems among the cases
    auto sz  = [&]() { return cx.tail(97, 13) ? r.i(mx / 2, mx) : r.p(0.1) ? r.i(1, 8) : r.i(10, mx); };
    int mode = r.i(0, 3); // 0 local x local, 1 A local and B local x root, 2 roots, 3 single-partition roots
    Side sa, sb;
    mk(r, sa, sz(), dim, mode == 3 ? 1 : r.i(1, 4), 0);
    bool sameb = r.p(0.35);
    if (!sameb) mk(r, sb, sz(), dim, mode == 3 ? 1 : r.i(1, 4), r.pick({0., 0.5, 2.}));
    Side &sB     = sameb ? sa : sb;
    const Clu *X = mode <= 1 ? part(r, sa) : sa.c.get();
    const Clu *Y = mode == 0 ? part(r, sB) : sB.c.get();
    int n = X->get_size(), m = Y->get_size();
    // A: a well conditioned triangle (entries of size 1/n below a diagonal of size one)
    double ep = std::pow(10, r.u(sizeof(R) == 4 ? -5 : -9, -2));
    Kernel ka;
    kern(r, ka, sa, sa, true);
    char sym = r.p(0.3) ? (CPLX ? r.pick({'S', 'H'}) : 'S') : 'N', su = sym == 'N' ? 'N' : r.pick({'L', 'U'});
    ka.sym   = sym;
    ka.scale = 1.0 / n;
    ka.diag  = r.u(0.7, 2) * n;
    std::string da;
    HM A    = assemble(r, ka, *X, *X, ep, sym, su, r.p(0.2), da);
    if (r.p(0.3))
        preorder_tree_traversal(A, [&](HM &l) {
            if (l.is_low_rank() && r.p(0.5)) {
                l.get_low_rank_data()->get_U().resize(l.nb_rows(), 0);
                l.get_low_rank_data()->get_V().resize(0, l.nb_cols());
            }
        });
    Rep ra  = represented(A, sym, X->get_offset(), X->get_offset() + n);
    Kernel kb;
    double epb = r.p(0.5) ? ep : std::pow(10, r.u(sizeof(R) == 4 ? -5 : -9, -2));
    cx.desc(S() << "mode=" << mode << " dim=" << dim << " n=" << n << " m=" << m << " eps=" << ep << "/" << epb << " sameb=" << sameb << " X[" << cdesc(sa.cfg) << "] Y[" << (sameb ? std::string("same") : cdesc(sb.cfg)) << "] sym=" << sym << su << " A[" << da << " " << repdesc(ra) << "]");
    if (!cx.check(ra.holes == 0 && ra.multi == 0, "structure")) return;
    uint64_t dg = digest(A);
    int trials  = cx.thorough ? 8 : 5;
    for (int t = 0; t < trials; t++) {
        char side = r.pick({'L', 'R'}), ta = r.pick({'N', 'N', 'T', 'C'}), diag = r.pick({'N', 'U'});
        char uplo = sym != 'N' ? su : r.pick({'L', 'U'});
        int kind  = r.i(0, 2); // dense, low-rank, hierarchical
        T al      = r.p(0.4) ? T(1) : rscal(r);
        Dense Tr  = op(ta, triangle(ra.M, uplo, diag));
        Dense Ti  = gsolve(Tr, eye(n));
        double cond = fro(Tr) * fro(Ti);
        if (!(cond < 1e6)) {
            cx.count("skipped_condition");
            continue;
        }
        cx.maxi("condition", cond);
        auto solveref = [&](const Dense &b) {
            Dense s = side == 'L' ? mul(Ti, b) : mul(b, Ti);
            return axpby(up(al), s, 0, s);
        };
        static const char *kn[] = {"M", "L", "H"};
        cx.op(S() << "[" << side << uplo << ta << diag << " B=" << kn[kind] << " al=" << al << "]");
        std::string key = S() << kn[kind] << ":" << side << uplo << ta << diag;
        double ru       = (20 + n) * eps();
        log->clear();
        if (kind == 0) {
            int w = r.pick({1, 2, 3, 5, 17, 30});
            if (cx.tail(53, 7)) w = 31 + (int)(cx.k / 53 % 50); // many columns in a few cases
            int br = side == 'L' ? n : w, bc = side == 'L' ? w : n;
            std::vector<T> b = rvec(r, (size_t)br * bc);
            Guard g(b);
            Mat B;
            B.assign(br, bc, g.data(), false);
            htool::internal_triangular_hmatrix_matrix_solve(side, uplo, ta, diag, al, (const HM &)A, B);
            Dense b0 = fromcm(br, bc, b.data()), x = fromcm(br, bc, g.vec().data()), ref = solveref(b0);
            cx.check(g.intact(), key + ":guard", "wrote outside the right-hand side");
            cx.check(B.nb_rows() == br && B.nb_cols() == bc && B.data() == g.data(), key + ":shape");
            // column- (row-) wise comparison: right-hand sides are independent systems
            Dense e = axpby(1, x, -1, ref);
            if (side == 'R') e = op('T', e), ref = op('T', ref);
            for (int j = 0; j < e.n; j++) cx.le(colnorm(e, j), ru * cond * colnorm(ref, j) + 1e-300, key + ":value", S() << "rhs " << j << " cond " << cond);
            cx.count("dense_rhs");
        } else if (kind == 1) {
            int w = r.pick({0, 1, 2, 4, 7});
            int br = side == 'L' ? n : r.i(1, 40), bc = side == 'L' ? r.i(1, 40) : n;
            LR L((R)epb);
            L.get_U().resize(br, w);
            L.get_V().resize(w, bc);
            for (int i = 0; i < br * w; i++) L.get_U().data()[i] = rnd(r);
            for (int i = 0; i < bc * w; i++) L.get_V().data()[i] = rnd(r);
            Dense u = frommat(L.get_U()), v = frommat(L.get_V());
            Dense b0 = mul(u, v), ref = solveref(b0);
            htool::internal_triangular_hmatrix_lrmat_solve(side, uplo, ta, diag, al, (const HM &)A, L);
            if (cx.check(L.get_U().nb_rows() == br && L.get_V().nb_cols() == bc && L.get_U().nb_cols() == L.get_V().nb_rows(), key + ":shape")) {
                Dense x = mul(frommat(L.get_U()), frommat(L.get_V()));
                if (x.m != br) x = Dense(br, bc); // rank zero
                cx.le(frodiff(x, ref), ru * cond * 4 * std::abs(al) * fro(u) * fro(v) * std::max(1., fro(Ti)) + 1e-300, key + ":value", S() << "cond " << cond);
            }
            cx.count("lowrank_rhs");
        } else {
            kern(r, kb, side == 'L' ? sa : sB, side == 'L' ? sB : sa, sameb);
            kb.diag = sameb && r.p(0.5) ? 2 : 0;
            std::string db;
            HM B = side == 'L' ? assemble(r, kb, *X, *Y, epb, 'N', 'N', r.p(0.3), db) : assemble(r, kb, *Y, *X, epb, 'N', 'N', r.p(0.3), db);
            if (r.p(0.3))
                preorder_tree_traversal(B, [&](HM &l) {
                    if (l.is_low_rank() && r.p(0.5)) {
                        l.get_low_rank_data()->get_U().resize(l.nb_rows(), 0);
                        l.get_low_rank_data()->get_V().resize(0, l.nb_cols());
                    }
                });
            Rep rb = represented(B, 'N', 0, 0);
            cx.desc(S() << "B[" << db << " " << repdesc(rb) << "]");
            Dense ref = solveref(rb.M);
            htool::internal_triangular_hmatrix_hmatrix_solve(side, uplo, ta, diag, al, (const HM &)A, B);
            Rep rx = represented(B, 'N', 0, 0);
            cx.check(rx.holes == 0 && rx.multi == 0, key + ":structure", S() << rx.holes << " " << rx.multi);
            double em = std::max(ep, epb);
            cx.le(frodiff(rx.M, ref), (em * 0.6 + ru) * cond * std::abs(al) * fro(rb.A) + 1e-300, key + ":value", S() << "cond " << cond);
            cx.count("hmatrix_rhs");
            if (rb.nlr) cx.count("hmatrix_rhs_with_lowrank");
            cx.sig(S() << mode << sym << su << side << uplo << ta << diag << (ra.nlr > 0) << (rb.nlr > 0) << (ra.rank0 > 0) << (rb.rank0 > 0) << (ra.nleaf > 1) << (rb.nleaf > 1) << sameb << (n > m));
        }
        cx.check(log->errors == 0, key + ":error-logged", log->last_error());
        cx.check(digest(A) == dg, key + ":A-changed");
        cx.count("solves");
        if (sym != 'N') cx.count("symmetric_storage");
        if (ra.nlr) cx.count("with_lowrank");
        if (kind < 2) cx.sig(S() << mode << sym << su << side << uplo << ta << diag << kind << (ra.nlr > 0) << (ra.rank0 > 0) << (ra.nleaf > 1) << (ra.nleaf > 30));
    }
    // solves with an LU-factorised matrix: U then L from the right, L then U from the left, give A^{-1} although the leaves pivot
    if (sym == 'N' && A.is_block_tree_consistent() && r.p(0.6)) {
        Dense Ai    = gsolve(ra.M, eye(n));
        double cond = fro(ra.M) * fro(Ai);
        if (cond < 1e4) {
            char side = r.pick({'L', 'R'}), ta = r.pick({'N', 'T', 'C'});
            cx.op(S() << "[lu " << side << ta << "]");
            log->clear();
            htool::lu_factorization(A);
            int w = r.i(1, 9);
            int br = side == 'L' ? n : w, bc = side == 'L' ? w : n;
            Mat B(br, bc);
            for (int i = 0; i < br * bc; i++) B.data()[i] = rnd(r);
            Dense b0   = frommat(B);
            bool lower = (side == 'L') == (ta == 'N');
            for (int q = 0; q < 2; q++, lower = !lower) {
                if (lower) htool::internal_triangular_hmatrix_matrix_solve(side, 'L', ta, 'U', T(1), (const HM &)A, B);
                else htool::internal_triangular_hmatrix_matrix_solve(side, 'U', ta, 'N', T(1), (const HM &)A, B);
            }
            Dense ref = side == 'L' ? mul(op(ta, Ai), b0) : mul(b0, op(ta, Ai));
            cx.le(frodiff(frommat(B), ref), (ep * 2 + (20 + n) * eps()) * cond * fro(ref), S() << "lu:" << side << ta << ":value", S() << "cond " << cond);
            cx.check(log->errors == 0, "lu:error-logged", log->last_error());
            cx.count("factored_solves");
        }
    }
}
} // namespace vf
