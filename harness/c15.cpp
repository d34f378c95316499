// C15: H-matrix LU / Cholesky factorisation and solves against a dense reference solve of the represented matrix.
#include "hmx.hpp"
using namespace vf;
namespace vf {
// a generator whose columns are shuffled inside every leaf cluster: diagonal leaves then need row interchanges
struct PermGen : htool::VirtualGenerator<T> {
    const Kernel &k;
    std::vector<int> pi;
    PermGen(const Kernel &k_, int n) : k(k_), pi(n) {
        for (int i = 0; i < n; i++) pi[i] = i;
    }
    void copy_submatrix(int M, int N, const int *rows, const int *cols, T *ptr) const override {
        for (int j = 0; j < N; j++)
            for (int i = 0; i < M; i++) ptr[i + (size_t)M * j] = k(rows[i], pi[cols[j]]);
    }
};
static void leaf_clusters(const Clu &c, std::vector<const Clu *> &out) {
    if (c.is_leaf()) out.push_back(&c);
    for (auto &q : c.get_children()) leaf_clusters(*q, out);
}
static double colnorm(const Dense &A, int j) {
    double s = 0;
    for (int i = 0; i < A.m; i++) s += std::norm(A(i, j));
    return std::sqrt(s);
}
static double worstcol(const Dense &E, const Dense &S) { // max_j |E_j| / |S_j|
    double w = 0;
    for (int j = 0; j < E.n; j++) {
        double q = colnorm(E, j) / (colnorm(S, j) + 1e-300);
        if (!(q == q)) return INFINITY;
        w = std::max(w, q);
    }
    return w;
}
static Dense submat(const std::vector<T> &v, int m, int n) { return fromcm(m, n, v.data()); }
void vf_case(Ctx &cx) {
    Rng &r = cx.rng;
    Opts o;
    o.square       = true;
    o.allow_incons = false;
    o.allow_part   = false;
    o.allow_dups   = false;
    o.nmax         = r.p(0.5) ? 60 : cx.thorough ? 260 : 200;
    if (o.nmax > 60) o.nmin = 80;
    if (cx.tail(97, 13)) o.nmin = 300, o.nmax = 500; // a few larger problems among the cases
    o.epslo        = sizeof(R) == 8 ? 1e-10 : 1e-5;
    o.epshi        = sizeof(R) == 8 ? 1e-3 : 1e-2;
    o.allow_reqrank = r.p(0.2);
    auto p = random_prob(r, o);
    Prob &P = *p;
    if (P.reqrank == 0) P.reqrank = 1;
    if (r.p(0.6)) {
        P.eta  = r.pick({10., 30., 100.});
        P.mint = P.mins = 0;
    }
    bool chol = P.sym != 'N' || r.p(0.25);
    // Cholesky needs a Hermitian (real: symmetric) positive definite matrix
    if (chol && CPLX && P.sym == 'S') P.sym = 'H';
    P.ker.kind = r.pick({0, 1, 3});
    P.ker.amp  = P.ker.kind == 0 ? P.ker.d0 : P.ker.kind == 3 ? P.ker.d0 * P.ker.d0 : 1;
    if (chol) P.ker.sym = CPLX ? 'H' : 'S';
    bool drop  = r.p(0.3);
    bool psd   = P.ker.sym == 'H' || (!CPLX && (P.ker.sym == 'S' || P.ker.sym == 'N'));
    double dom = 1.7 * P.nt + 2;
    bool coarse = P.reqrank >= 0 || drop; // the stored matrix is no longer close to the kernel
    P.ker.diag = coarse || !psd ? dom : r.pick({dom, 0.3 * P.nt, 2., 1., 0.1});
    bool shuffle = !chol && P.sym == 'N' && r.p(0.5);
    P.ker.scale = r.pick({1., 1., 1e3, 1e-3});
    cx.desc(P.d);
    cx.desc(S() << "diag=" << P.ker.diag << " chol=" << chol);
    logrec()->clear();
    PermGen pg(P.ker, P.nt);
    if (shuffle) {
        const auto &pm = P.ct->get_permutation();
        std::vector<const Clu *> lc;
        leaf_clusters(*P.ct, lc);
        for (auto *c : lc) {
            std::vector<int> q;
            for (int i = 0; i < c->get_size(); i++) q.push_back(pm[c->get_offset() + i]);
            std::vector<int> s = q;
            for (size_t i = s.size(); i-- > 1;) std::swap(s[i], s[r.i(0, (int)i)]);
            for (size_t i = 0; i < q.size(); i++) pg.pi[q[i]] = s[i];
        }
        cx.desc("shuffled");
    }
    HM h = P.build(pg);
    if (drop) {
        preorder_tree_traversal(h, [&](HM &l) {
            if (l.is_low_rank() && r.p(0.4)) {
                // unsymmetric storage under Cholesky: only the used triangle matters, see below
                l.get_low_rank_data()->get_U().resize(l.nb_rows(), 0);
                l.get_low_rank_data()->get_V().resize(0, l.nb_cols());
            }
        });
    }
    Rep rep = represented(h, P);
    cx.desc(repdesc(rep));
    if (!cx.check(rep.holes == 0 && rep.multi == 0, "structure")) return;
    int n = P.nrows();
    char uplo = P.sym != 'N' ? P.uplo : r.pick({'L', 'U'});
    Dense M   = rep.M;
    if (chol) // the triangle named by UPLO defines the matrix
        for (int j = 0; j < n; j++)
            for (int i = 0; i < j; i++) {
                if (uplo == 'L') M(i, j) = cj(M(j, i));
                else M(j, i) = cj(M(i, j));
            }
    Dense Minv  = gsolve(M, eye(n));
    double cond = fro(M) * fro(Minv);
    if (!(cond < 1e7)) { cx.count("skipped_condition"); return; }
    cx.maxi("condition", cond);
#ifdef _OPENMP
    omp_set_num_threads(P.threads);
#endif
    logrec()->clear();
    cx.op(S() << (chol ? "cholesky_factorization " : "lu_factorization ") << uplo);
    if (chol) htool::cholesky_factorization(uplo, h);
    else htool::lu_factorization(h);
    cx.check(logrec()->errors == 0, "factor-error-logged", logrec()->last_error());
    uint64_t dg = digest(h);
    cx.count(chol ? "cholesky" : "lu");
    if (chol && P.sym != 'N') cx.count("symmetric_storage");
    if (shuffle) {
        bool piv = false;
        walk_leaves(h, [&](const HM &l) {
            if (l.get_dense_data())
                for (size_t i = 0; i < l.get_dense_data()->get_pivots().size(); i++) piv = piv || l.get_dense_data()->get_pivots()[i] != (int)i + 1;
        });
        if (piv) cx.count("with_row_interchanges");
    }
    if (rep.rank0) cx.count("with_rank_zero_blocks");
    if (P.mode == 2) cx.count("local_cluster");
    if (rep.nlr) cx.count("with_lowrank");
    const Clu &cl = *P.tc;
    bool userok = P.mode == 0 || (cl.is_permutation_local() && is_cluster_on_partition(cl));
    const auto &perm = cl.get_permutation();
    int nsol = r.i(2, 4);
double tol = P.epsilon + (20 + n) * eps();
    for (int q = 0; q < nsol; q++) {
        bool id  = n <= 70 && r.p(0.4);
        int nrhs = id ? n : r.i(1, r.p(0.5) ? 3 : 17);
        if (cx.tail(53, 7) && !id) nrhs = 18 + (int)(cx.k / 53 % 50); // many columns in a few cases
        bool user = userok && r.p(0.5);
        char tr  = chol ? 'N' : r.pick(CPLX ? std::vector<char>{'N', 'T', 'C'} : std::vector<char>{'N', 'T'});
        if (!chol && !CPLX && r.p(0.2)) tr = 'C';
        std::vector<T> b((size_t)n * nrhs);
        if (id)
            for (int i = 0; i < n; i++) b[(size_t)i * n + i] = T(1);
        else b = rvec(r, b.size());
        cx.op(S() << "solve trans=" << tr << " nrhs=" << nrhs << (user ? " user" : " internal") << (id ? " identity" : ""));
        Mat X(n, nrhs), X2(n, nrhs);
        std::copy(b.begin(), b.end(), X.data());
        std::copy(b.begin(), b.end(), X2.data());
        auto solve = [&](Mat &Y) {
            if (chol) user ? htool::cholesky_solve(uplo, h, Y) : htool::internal_cholesky_solve(uplo, h, Y);
            else user ? htool::lu_solve(tr, h, Y) : htool::internal_lu_solve(tr, h, Y);
        };
        solve(X);
        solve(X2);
        Dense bi(n, nrhs), xi(n, nrhs), got = frommat(X), got2 = frommat(X2);
        Dense B = submat(b, n, nrhs);
        auto pos = [&](int i) { return user ? perm[cl.get_offset() + i] - cl.get_offset() : i; };
        for (int j = 0; j < nrhs; j++)
            for (int i = 0; i < n; i++) {
                bi(i, j) = B(pos(i), j);
                xi(i, j) = got(pos(i), j);
            }
        Dense ref = mul(op(tr == 'N' ? 'N' : tr, Minv), bi);
        std::string key = S() << (chol ? "cholesky" : "lu") << (P.sym != 'N' ? "-sym" : "") << ":" << (tr == 'N' ? "N" : "trans");
        cx.check(X.nb_rows() == n && X.nb_cols() == nrhs, key + ":dims");
        Dense res = axpby(1, mul(op(tr, M), xi), -1, bi), er = axpby(1, xi, -1, ref);
        cx.le(worstcol(er, ref), tol * cond * 0.3, key + ":solution", S() << "cond " << cond);
        cx.le(worstcol(res, bi), tol * cond * 0.3, key + ":residual", S() << "cond " << cond);
        cx.le(worstcol(res, xi), tol * fro(M), key + ":backward", S() << "cond " << cond);
        cx.check(frodiff(got, got2) == 0, key + ":repeat", "solving the same system twice gives different answers");
        cx.check(digest(h) == dg, key + ":factors-changed", "a solve changed the factors");
        cx.check(logrec()->errors == 0, key + ":error-logged", logrec()->last_error());
        cx.count("solves");
        cx.count("right_hand_sides", nrhs);
        cx.sig(S() << repclass(rep, P) << chol << uplo << tr << user << (nrhs > 1) << drop << (P.nt > 60));
    }
}
} // namespace vf
