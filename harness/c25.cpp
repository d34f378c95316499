// C25: GenEO coarse spaces with a known spectrum; coarse operators against the Galerkin projection of the gathered operator.
#include "mpix.hpp"
#include <htool/solvers/geneo/coarse_operator_builder.hpp>
#include <htool/solvers/geneo/coarse_space_builder.hpp>
using namespace vf;
namespace vf {
static D rd(Rng &r) { return up(rnd(r)); }
static double mkd(double a, double, double *) { return a; }
static std::complex<double> mkd(double a, double b, std::complex<double> *) { return {a, b}; }
static D mk(double a, double b) { return mkd(a, b, (D *)nullptr); }
template <class X>
static X dn(double x, X *) { return X(x); }
template <class X>
static std::complex<X> dn(std::complex<double> x, std::complex<X> *) { return {X(x.real()), X(x.imag())}; }
static T down(D x) { return dn(x, (T *)nullptr); }
static Mat tomat(const Dense &A) {
    Mat M(A.m, A.n);
    for (int j = 0; j < A.n; j++)
        for (int i = 0; i < A.m; i++) M(i, j) = down(A(i, j));
    return M;
}
// orthonormal columns (Gram-Schmidt, twice)
static Dense orth(Dense A) {
    for (int j = 0; j < A.n; j++) {
        for (int t = 0; t < 2; t++)
            for (int k = 0; k < j; k++) {
                D g(0);
                for (int i = 0; i < A.m; i++) g += cj(A(i, k)) * A(i, j);
                for (int i = 0; i < A.m; i++) A(i, j) -= g * A(i, k);
            }
        double s = 0;
        for (int i = 0; i < A.m; i++) s += std::norm(A(i, j));
        for (int i = 0; i < A.m; i++) A(i, j) /= std::sqrt(s);
    }
    return A;
}
static Dense randm(Rng &r, int m, int n) {
    Dense A(m, n);
    for (auto &v : A.a) v = rd(r);
    return A;
}
static Dense chol_l(const Dense &A) {
    int n = A.m;
    Dense L(n, n);
    for (int j = 0; j < n; j++) {
        D s = A(j, j);
        for (int k = 0; k < j; k++) s -= L(j, k) * cj(L(j, k));
        L(j, j) = std::sqrt(std::real(s));
        for (int i = j + 1; i < n; i++) {
            D t = A(i, j);
            for (int k = 0; k < j; k++) t -= L(i, k) * cj(L(j, k));
            L(i, j) = t / L(j, j);
        }
    }
    return L;
}
static double nrm(const Dense &A, int j) {
    double s = 0;
    for (int i = 0; i < A.m; i++) s += std::norm(A(i, j));
    return std::sqrt(s);
}
static Dense column(const Dense &A, int j) {
    Dense c(A.m, 1);
    for (int i = 0; i < A.m; i++) c(i, 0) = A(i, j);
    return c;
}
struct LamGroup {
    double re, im; // im != 0: conjugate pair (real arithmetic) occupying two columns; inf: infinite eigenvalue
    bool inf;
};
static void coarse_space(Ctx &cx, Rng &r) {
    bool herm = r.p(0.5);
    int nwo = r.i(1, 22), no = r.p(0.3) ? 0 : r.i(1, 12), n = nwo + no;
    char sym = herm ? (CPLX ? 'H' : r.pick({'S', 'H'})) : 'N', uplo = herm ? r.pick({'L', 'U'}) : 'N';
    bool withinf = !herm && nwo > 1 && r.p(0.25);
    // B: well conditioned; the first unknown decoupled when an infinite eigenvalue is wanted
    Dense B(n, n);
    if (herm) {
        Dense G = orth(randm(r, n, n));
        for (int k = 0; k < n; k++) {
            double w = r.u(0.3, 3);
            for (int j = 0; j < n; j++)
                for (int i = 0; i < n; i++) B(i, j) += w * G(i, k) * cj(G(j, k));
        }
    } else {
        B = randm(r, n, n);
        for (int i = 0; i < n; i++) B(i, i) += D(1.5 * std::sqrt((double)n) + 1);
    }
    double bs = r.pick({1., 1., 1e2, 1e-2});
    for (auto &v : B.a) v *= bs;
    int f = withinf ? 1 : 0, q = nwo - f; // the finite part lives on unknowns f..n
    if (withinf)
        for (int i = 0; i < n; i++) B(i, 0) = B(0, i) = D(0);
    // round to the scalar type before anything is derived from it
    Mat Bm = tomat(B);
    B      = frommat(Bm);
    if (herm)
        for (int i = 0; i < n; i++) {
            for (int j = 0; j < i; j++) Bm(j, i) = down(cj(up(Bm(i, j))));
            Bm(i, i) = down(D(std::real(up(Bm(i, i)))));
        }
    B = frommat(Bm);
    Dense Bs(n - f, n - f);
    for (int j = f; j < n; j++)
        for (int i = f; i < n; i++) Bs(i - f, j - f) = B(i, j);
    Dense Bi = gsolve(Bs, eye(n - f)), K(q, q);
    for (int j = 0; j < q; j++)
        for (int i = 0; i < q; i++) K(i, j) = Bi(i, j);
    // spectrum with separated moduli
    std::vector<LamGroup> lam;
    double mod = r.pick({1e3, 10., 1.}), gap = q > 12 ? 1.25 : r.pick({1.3, 2.});
    for (int c = 0; c < q;) {
        bool pair = !herm && !CPLX && c + 1 < q && r.p(0.4);
        double ph = pair ? r.u(0.3, 2.8) : herm || !CPLX ? (r.p(0.3) ? M_PI : 0) : r.u(0, 6.28);
        lam.push_back({mod * std::cos(ph), pair || (CPLX && !herm) ? mod * std::sin(ph) : 0, false});
        mod /= gap;
        c += pair ? 2 : 1;
    }
    // A = K^{-1} X Lam X^{-1}, Hermitian: A = L^{-H} Q Lam Q^H L^{-1}
    Dense Lm(q, q), X, A;
    {
        int c = 0;
        for (auto &g : lam) {
            if (!CPLX && g.im != 0) {
                Lm(c, c) = Lm(c + 1, c + 1) = g.re;
                Lm(c, c + 1) = g.im, Lm(c + 1, c) = -g.im;
                c += 2;
            } else Lm(c, c) = mk(g.re, g.im), c++;
        }
    }
    Dense G; // G z = lambda z for the restricted eigenvectors
    if (herm) {
        Dense L = chol_l(K), Q = orth(randm(r, q, q)), Li = gsolve(L, eye(q));
        A = mul(op('C', Li), mul(Q, mul(Lm, mul(op('C', Q), Li))));
    } else {
        X = orth(randm(r, q, q));
        for (int j = 0; j < q; j++)
            for (int i = 0; i < q; i++) X(i, j) += 0.15 * rd(r) / std::sqrt((double)q);
        A = gsolve(K, mul(X, mul(Lm, gsolve(X, eye(q)))));
    }
    Dense Awo(nwo, nwo);
    for (int j = 0; j < q; j++)
        for (int i = 0; i < q; i++) Awo(i + f, j + f) = A(i, j);
    if (withinf) Awo(0, 0) = 1.;
    Mat Am = tomat(Awo);
    if (herm)
        for (int i = 0; i < nwo; i++) {
            for (int j = 0; j < i; j++) Am(j, i) = down(cj(up(Am(i, j))));
            Am(i, i) = down(D(std::real(up(Am(i, i)))));
        }
    Dense Ar(q, q), A0 = frommat(Am);
    for (int j = 0; j < q; j++)
        for (int i = 0; i < q; i++) Ar(i, j) = A0(i + f, j + f);
    G = mul(K, Ar);
    double gn = fro(G), cond = cond_fro(Bs);
    // what is given: the block alone, the block inside a larger matrix, or an H-matrix holding it
    int form = no == 0 ? r.i(0, 1) : r.i(0, 3); // 0 wo, 1 with overlap, 2 H-matrix wo, 3 H-matrix with overlap
    Mat Ag;
    std::unique_ptr<Prob> p;
    if (form == 0) Ag = Am;
    else {
        Ag.resize(n, n);
        for (int i = 0; i < n * n; i++) Ag.data()[i] = rnd(r); // the overlap part must not matter
        for (int j = 0; j < nwo; j++)
            for (int i = 0; i < nwo; i++) Ag(i, j) = Am(i, j);
        if (herm)
            for (int j = 0; j < n; j++) {
                for (int i = 0; i < j; i++) Ag(i, j) = down(cj(up(Ag(j, i))));
                Ag(j, j) = down(D(std::real(up(Ag(j, j)))));
            }
    }
    // how many
    double top = std::hypot(lam[0].re, lam[0].im);
    std::vector<double> cut; // moduli by column
    for (auto &g : lam)
        for (int k = 0; k < (!CPLX && g.im != 0 ? 2 : 1); k++) cut.push_back(std::hypot(g.re, g.im));
    bool thr = r.p(0.5);
    int want;
    double threshold = -1;
    if (thr) {
        int w     = r.i(0, q);
        if (w == q) threshold = cut[q - 1] / 1.5; // everything (below it only the zero eigenvalues of the overlap)
        else if (w == 0) threshold = top * 1.5;
        else {
            while (w < q && cut[w] == cut[w - 1]) w++;
            threshold = w < q ? std::sqrt(cut[w] * cut[w - 1]) : cut[q - 1] / 1.5;
        }
        want = w + f;
    } else want = r.p(0.1) ? 0 : r.i(1, nwo);
    cx.descr = S() << "type=" << tname() << " space n=" << nwo << "+" << no << " " << sym << uplo << " form=" << form << (thr ? " threshold=" : " nu=") << (thr ? threshold : want) << " want=" << want << (withinf ? " infinite" : "") << " scale=" << bs << " top=" << top << " gap=" << gap;
    cx.progress();
    if (!herm) { // the QZ iteration of LAPACK may fail to converge (many zero eigenvalues in single precision): nothing is promised then
        Mat P(n, n), Q(Bm);
        for (int j = 0; j < nwo; j++)
            for (int i = 0; i < nwo; i++) P(i, j) = Am(i, j);
        std::vector<T> al(n), ai(n), be(n), vl((size_t)n * n), vr((size_t)n * n), work(64 * n);
        std::vector<R> rw(8 * n);
        int lw = 64 * n, info = 0;
        htool::Lapack<T>::ggev("N", "V", &n, P.data(), &n, Q.data(), &n, al.data(), ai.data(), be.data(), vl.data(), &n, vr.data(), &n, work.data(), &lw, rw.data(), &info);
        if (info != 0) {
            cx.count("qz_not_converged");
            return;
        }
    }
    typedef htool::GeneoCoarseSpaceDenseBuilder<T, C> GB;
    Mat Z;
    if (form >= 2) {
        // an H-matrix whose entries are those of the given matrix (dense leaves only or fully accurate)
        int m = form == 2 ? nwo : n, dim = 2;
        auto x = geometry<C>(r, 0, m, dim);
        CluCfg c = random_clucfg(r, m, dim, 3);
        c.minsize = std::max(1, std::min(c.minsize, 4));
        std::unique_ptr<Clu> t(make_cluster(c, m, dim, x));
        struct EG : htool::VirtualGenerator<T> {
            const Mat &a;
            EG(const Mat &a_) : a(a_) {}
            void copy_submatrix(int M, int N, const int *rows, const int *cols, T *ptr) const override {
                for (int j = 0; j < N; j++)
                    for (int i = 0; i < M; i++) ptr[i + (size_t)M * j] = a(rows[i], cols[j]);
            }
        };
        // without overlap the block is used in the numbering of the clusters: the given order is that one
        Mat src = form == 2 ? Am : Ag;
        const auto &pm = t->get_permutation();
        if (form == 2)
            for (int j = 0; j < m; j++)
                for (int i = 0; i < m; i++) src(pm[i], pm[j]) = Am(i, j);
        EG gen(src);
        htool::HMatrixTreeBuilder<T, C> hb(*t, *t, R(1e-3), C(1e-3), sym == 'H' && !CPLX ? 'S' : sym, uplo, -1, -1, -1);
        HM h = hb.build(gen);
        GB b = thr ? GB::GeneoWithThreshold(nwo, n, h, Bm, sym, uplo, R(threshold)) : GB::GeneoWithNu(nwo, n, h, Bm, sym, uplo, want);
        Z    = b.build_coarse_space();
        cx.count("from_hmatrix");
    } else {
        GB b = thr ? GB::GeneoWithThreshold(nwo, n, Ag, Bm, sym, uplo, R(threshold)) : GB::GeneoWithNu(nwo, n, Ag, Bm, sym, uplo, want);
        std::unique_ptr<htool::VirtualCoarseSpaceBuilder<T>> vb(new GB(b));
        Z = vb->build_coarse_space();
    }
    std::string key = S() << "space:" << sym << uplo << (thr ? ":threshold" : ":nu");
    if (!cx.check(Z.nb_rows() == n, key + ":rows", S() << Z.nb_rows())) return;
    if (!cx.check(Z.nb_cols() == want, key + ":number", S() << "got " << Z.nb_cols() << " expected " << want)) return;
    Dense z = frommat(Z), zr(q, want);
    bool zero = true;
    for (int j = 0; j < want; j++)
        for (int i = nwo; i < n; i++) zero = zero && Z(i, j) == T(0);
    cx.check(zero, key + ":overlap-not-zero", "the coarse vectors do not vanish on the overlap");
    for (int j = 0; j < want; j++)
        for (int i = 0; i < q; i++) zr(i, j) = z(i + f, j);
    int col = 0;
    if (withinf && want > 0) {
        double rest = nrm(zr, 0);
        cx.check(std::abs(z(0, 0)) > 0 && rest <= 1e3 * n * eps() * std::abs(z(0, 0)), key + ":infinite-first", S() << rest << " of " << std::abs(z(0, 0)));
        col = 1;
        cx.count("infinite_eigenvalues");
    }
    double tol = (sizeof(R) == 8 ? 1e-9 : 2e-3);
    for (auto &g : lam) {
        bool pair = !CPLX && g.im != 0;
        double ml = std::hypot(g.re, g.im);
        if (gn * cond * eps() * n * 30 > tol * ml * 50) break; // too far below the largest one to be resolved in this precision
        for (int k = 0; k < (pair ? 2 : 1) && col < want; k++, col++) {
            Dense v = column(zr, col), w = mul(G, v), res;
            double s = nrm(v, 0);
            if (!cx.check(s > 0, key + ":zero-vector", S() << "column " << col)) return;
            if (!pair) {
                res = axpby(1, w, -mk(g.re, g.im), v);
                cx.le(nrm(res, 0), (tol * ml + gn * cond * eps() * n * 30) * s, key + ":eigenvector", S() << "column " << col << " lambda " << g.re << "+" << g.im << "i");
            } else {
                Dense w2 = mul(G, w);
                res      = axpby(1, axpby(1, w2, -2 * g.re, w), ml * ml, v);
                cx.le(nrm(res, 0), (tol * ml * ml + gn * gn * cond * eps() * n * 60) * s, key + ":invariant-pair", S() << "column " << col << " lambda " << g.re << "+-" << g.im << "i");
                if (k == 1) { // together they span the plane
                    Dense u = column(zr, col - 1);
                    D dot(0);
                    for (int i = 0; i < q; i++) dot += cj(u(i, 0)) * v(i, 0);
                    cx.check(std::abs(dot) < 0.99999 * nrm(u, 0) * s, key + ":dependent-pair", S() << std::abs(dot) / (nrm(u, 0) * s));
                }
                cx.count("complex_pairs");
            }
            cx.count("eigenvectors");
        }
    }
    cx.count(thr ? "by_threshold" : "by_number");
    if (thr && want == n) cx.count("whole_space");
    cx.evals++;
    cx.sig(S() << "space" << sym << uplo << form << thr << withinf << (no > 0) << (want == 0) << (want == nwo) << (nwo == 1));
}
static void coarse_operator(Ctx &cx, Rng &r) {
    int np = World::get().size;
    int P  = r.p(0.5) ? np : r.i(1, np);
    Sub sub(r, P);
    if (sub.comm == MPI_COMM_NULL) return;
    Opts o;
    o.nmin = std::max(P, 2);
    o.nmax = 70;
    if (cx.tail(97, 13)) o.nmin = 150, o.nmax = 250; // a few larger problems among the cases
    o.parts = P;
    o.square = true;
    o.given = r.p(0.6) ? 1 : -1;
    o.allow_part = o.allow_local = o.allow_incons = o.allow_reqrank = false;
    auto p   = random_prob(r, o);
    cx.descr = S() << "type=" << tname() << " operator P=" << P << " " << p->d;
    omp_set_num_threads(p->threads);
    const Clu &tc = *p->tc;
    const Clu &tl = *tc.get_clusters_on_partition()[sub.rank];
    KGen gen(p->ker);
    htool::DefaultApproximationBuilder<T, C> b(gen, tc, tc, R(p->epsilon), C(p->eta), p->sym, p->uplo, sub.comm);
    const htool::DistributedOperator<T> &A = b.distributed_operator;
    int n = p->nt, off = tl.get_offset(), ni = tl.get_size();
    Dense M(n, n), Mm(n, n);
    {
        Rep rep = represented(b.hmatrix, p->sym, off, off + ni);
        int co  = b.hmatrix.get_source_cluster().get_offset();
        for (int j = 0; j < rep.M.n; j++)
            for (int i = 0; i < ni; i++) M(off + i, co + j) = rep.M(i, j), Mm(off + i, co + j) = rep.A(i, j);
        M  = allsum(M, sub.comm);
        Mm = allsum(Mm, sub.comm);
    }
    // same generator state on all ranks: counts of every rank, then everybody's vectors
    std::vector<int> ne(P), st(P + 1, 0);
    int pat = r.i(0, 3);
    for (int i = 0; i < P; i++) ne[i] = pat == 0 ? 2 : pat == 1 ? r.i(0, 4) : pat == 2 ? r.pick({0, 0, 3}) : r.i(1, 6);
    for (int i = 0; i < P; i++) st[i + 1] = st[i] + ne[i];
    int tot = st[P];
    Dense Z(n, tot);
    std::vector<std::vector<T>> mine;
    Rng own(r.next() + sub.rank);
    int ov = r.pick({0, 0, 3, 10}) + sub.rank % 2 * r.i(0, 5);
    for (int q = 0; q < P; q++)
        for (int j = 0; j < ne[q]; j++) {
            const Clu &c = *tc.get_clusters_on_partition()[q];
            std::vector<T> v = rvec(r, c.get_size());
            for (int i = 0; i < c.get_size(); i++) Z(c.get_offset() + i, st[q] + j) = up(v[i]);
            if (q == sub.rank) {
                v.resize(ni + ov);
                for (int i = ni; i < ni + ov; i++) v[i] = rnd(own); // the overlap part is not used by the projection
                mine.push_back(v);
            }
        }
    int nevi = ne[sub.rank], nl = ni + ov;
    std::vector<T *> zp;
    std::vector<std::vector<T>> keep = mine;
    for (auto &v : mine) zp.push_back(v.data());
    Mat E;
    auto log = logrec();
    log->clear();
    if (r.p(0.5)) {
        htool::GeneoCoarseOperatorBuilder<T> cb(A);
        E = cb.build_coarse_operator(nl, nevi, zp.data());
    } else {
        if (r.p(0.5)) {
            E.resize(3, 2);
            E = T(7);
        }
        htool::build_geneo_coarse_operator(A, nevi, nl, zp.data(), E);
    }
    cx.check(log->errors == 0, "operator:error-logged", log->last_error());
    cx.check(mine == keep, "operator:vectors-changed");
    std::string key = S() << "operator:" << p->sym << p->uplo;
    cx.check(E.nb_rows() == tot && E.nb_cols() == tot, key + ":size", S() << E.nb_rows() << "x" << E.nb_cols() << " expected " << tot);
    if (sub.rank == 0 && E.nb_rows() == tot && tot > 0) {
        Dense got = frommat(E), mag = mul(op('T', absd(Z)), mul(Mm, absd(Z)));
        auto form = [&](char t) { return mul(op(t, Z), mul(M, Z)); };
        std::vector<Dense> ok;
        // The projection is defined with the conjugate transpose for Hermitian operators; both storage orders of the coarse matrix are accepted.
        if (CPLX && p->sym != 'H') ok.push_back(form('T')), ok.push_back(op('T', form('T')));
        ok.push_back(form('C'));
        ok.push_back(op('T', form('C')));
        double best = INFINITY, tol = 16 * eps() * (2 * n + 40 + P);
        for (auto &e : ok) {
            double w = std::min(worst(got, e, mag, 1e-290), worst(got, e, op('T', mag), 1e-290));
            if (w < best) best = w;
        }
        cx.le(best / tol, 1, key + ":value", S() << "size " << tot);
        cx.count("coarse_operators");
        if (tot && P > 1) cx.count("multi_rank_operators");
        if (std::count(ne.begin(), ne.end(), 0)) cx.count("ranks_without_vectors");
    }
    if (tot == 0) cx.count("empty_operators");
    cx.evals++;
    cx.sig(S() << "operator" << P << pat << p->sym << p->uplo << (ov > 0) << p->tc->is_permutation_local());
}
void vf_case(Ctx &cx) {
    Rng &r = cx.rng;
    if (r.p(0.6)) { // collective choice: the generator is in the same state on all ranks
        Rng q = r;
        for (int i = 0; i <= World::get().rank; i++) q.next();
        Rng mineq(q.next());
        coarse_space(cx, mineq);
    } else coarse_operator(cx, r);
}
} // namespace vf
