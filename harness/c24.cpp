// C24: subdomain solvers (dense, hierarchical, hierarchical with overlap) against a dense reference solve of the local system.
#include "hmx.hpp"
#include <htool/hmatrix/linalg/factorization.hpp>
#include <htool/solvers/local_solvers/local_dense_solvers.hpp>
#include <htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp>
#include <htool/solvers/local_solvers/local_hmatrix_solvers.hpp>
using namespace vf;
namespace vf {
static double colnorm(const Dense &A, int j) {
    double s = 0;
    for (int i = 0; i < A.m; i++) s += std::norm(A(i, j));
    return std::sqrt(s);
}
struct SolveSpec {
    const htool::VirtualLocalSolver<T> *s;
    Dense inv; // of the local system, in the numbering of the right-hand sides
    double cond, tol;
    std::string key;
    std::function<uint64_t()> state; // digest of the factors
};
// random history of solves on one factorised solver
static void history(Ctx &cx, Rng &r, SolveSpec &q) {
    int n = q.inv.m, calls = r.i(3, 7);
    uint64_t d0 = q.state();
    std::vector<std::pair<std::vector<T>, std::vector<T>>> seen;
    for (int c = 0; c < calls; c++) {
        bool again = !seen.empty() && r.p(0.25);
        size_t w   = again ? (size_t)r.i(0, (int)seen.size() - 1) : 0;
        int mu     = again ? (int)(seen[w].first.size() / n) : r.pick({1, 1, 2, 3, 5, 8});
        if (cx.tail(53, 7) && !again) mu = 18 + (int)(cx.k / 53 % 50); // many columns in a few cases
        bool out   = r.p(0.5);
        std::vector<T> b = again ? seen[w].first : rvec(r, (size_t)n * mu), x;
        if (!again && r.p(0.15)) // one vanishing right-hand side among the others
            for (int i = 0, j = r.i(0, mu - 1); i < n; i++) b[(size_t)j * n + i] = T(0);
        cx.op(S() << "[" << q.key << (out ? " out-of-place" : " in-place") << " mu=" << mu << (again ? " again" : "") << "]");
        const unsigned short m = (unsigned short)mu;
        Guard g(b);
        if (out) {
            std::vector<T> junk(b.size());
            for (auto &v : junk) v = r.p(0.3) ? T(std::numeric_limits<R>::quiet_NaN()) : rnd(r);
            Guard gx(junk);
            if (mu == 1 && c % 2) q.s->solve((const T *)g.data(), gx.data()); // one right-hand side is the default
            else q.s->solve((const T *)g.data(), gx.data(), m);
            cx.check(gx.intact(), q.key + ":guard-x", "wrote outside the solution");
            cx.check(memcmp(g.vec().data(), b.data(), b.size() * sizeof(T)) == 0, q.key + ":rhs-changed", "the right-hand side of an out-of-place solve changed");
            x = gx.vec();
            cx.count("out_of_place");
        } else {
            if (mu == 1 && c % 2) q.s->solve(g.data());
            else q.s->solve(g.data(), m);
            x = g.vec();
            cx.count("in_place");
        }
        cx.check(g.intact(), q.key + ":guard", "wrote outside the right-hand side");
        Dense X = fromcm(n, mu, x.data()), ref = mul(q.inv, fromcm(n, mu, b.data())), e = axpby(1, X, -1, ref);
        for (int j = 0; j < mu; j++) {
            double nb = 0;
            for (int i = 0; i < n; i++) nb += std::norm(up(b[(size_t)j * n + i]));
            double bd = (q.tol + (20 + n) * eps()) * q.cond * colnorm(ref, j);
            cx.le(colnorm(e, j), bd + 1e-300, q.key + ":value", S() << "rhs " << j << "/" << mu << " cond " << q.cond << (out ? " out" : " in"));
            (void)nb;
        }
        if (again) {
            // the same right-hand sides give the same answer whatever was solved in between
            Dense Y = fromcm(n, mu, seen[w].second.data());
            for (int j = 0; j < mu; j++) cx.le(colnorm(axpby(1, X, -1, Y), j), 50 * (20 + n) * eps() * q.cond * colnorm(ref, j) + 1e-300, q.key + ":repeat");
            cx.count("repeated_solves");
        } else seen.push_back({b, x});
        cx.check(q.state() == d0, q.key + ":factors-changed", "a solve modified the factors");
        cx.count("solves");
    }
}
static HPDDM::MatrixCSR<T> *nocsr = nullptr;
static T *noptr                   = nullptr;
void vf_case(Ctx &cx) {
    Rng &r   = cx.rng;
    auto log = logrec();
    log->clear();
    int kind = r.pick({0, 1, 1, 2, 2, 2});
    if (kind == 0) {
        int n = r.i(1, 60);
        Mat A(n, n);
        for (int i = 0; i < n * n; i++) A.data()[i] = rnd(r);
        Dense M = frommat(A);
        if (r.p(0.5)) // needs row interchanges
            for (int i = 0; i < n; i++) A(i, i) = T(R(1e-6)) * A(i, i);
        M           = frommat(A);
        Dense inv   = gsolve(M, eye(n));
        double cond = fro(M) * fro(inv);
        cx.descr    = S() << "type=" << tname() << " dense n=" << n << " cond=" << cond;
        if (!(cond < (sizeof(R) == 8 ? 1e7 : 1e4))) {
            cx.count("skipped_condition");
            return;
        }
        htool::LocalDenseSolver<T> s(A);
        s.numfact(nocsr, false, noptr);
        SolveSpec q{&s, inv, cond, 0, "dense", [&]() { return fnvb(A.data(), sizeof(T) * n * n); }};
        history(cx, r, q);
        cx.sig(S() << "dense" << (n > 20) << (n == 1));
        cx.count("dense_solvers");
        cx.check(log->errors == 0, "error-logged", log->last_error());
        return;
    }
    Opts o;
    o.square = true;
    o.solve  = true;
    o.allow_incons = o.allow_part = o.allow_dups = o.allow_reqrank = false;
    o.nmin  = r.p(0.3) ? 2 : 20;
    o.nmax  = r.p(0.5) ? 60 : cx.thorough ? 200 : 130;
    if (cx.tail(97, 13)) o.nmin = 250, o.nmax = 450; // a few larger problems among the cases
    o.epslo = sizeof(R) == 8 ? 1e-9 : 1e-5;
    o.epshi = 1e-2;
    auto p  = random_prob(r, o);
    Prob &P = *p;
    // the block of a rank: part of the tree, square
    if (CPLX && P.sym == 'S') P.sym = 'H';
    P.ker.sym = P.sym == 'H' ? 'H' : P.sym == 'S' ? 'S' : P.ker.sym;
    if (r.p(0.5)) P.eta = r.pick({10., 30., 100.}), P.mint = P.mins = 0;
    P.ker.scale = r.pick({1., 1., 1e2, 1e-2});
    cx.descr    = S() << "type=" << tname() << " kind=" << kind << " " << P.d;
    cx.progress();
    omp_set_num_threads(P.threads);
    HM h = P.build();
    if (r.p(0.3))
        preorder_tree_traversal(h, [&](HM &l) {
            if (l.is_low_rank() && r.p(0.4)) {
                l.get_low_rank_data()->get_U().resize(l.nb_rows(), 0);
                l.get_low_rank_data()->get_V().resize(0, l.nb_cols());
            }
        });
    Rep rep = represented(h, P);
    cx.desc(repdesc(rep));
    if (!cx.check(rep.holes == 0 && rep.multi == 0, "structure")) return;
    const Clu &c = h.get_target_cluster();
    int n        = c.get_size();
    if (&c != &h.get_source_cluster()) return;
    if (kind == 1) {
        bool root = c.get_rank() < 0 || &c == P.ct.get(), perm = r.p(0.6) && (root || P.ct->is_permutation_local());
        Dense M = rep.M;
        if (perm) {
            Dense U(n, n);
            const auto &pm = P.ct->get_permutation();
            int off        = c.get_offset();
            for (int j = 0; j < n; j++)
                for (int i = 0; i < n; i++) U(pm[off + i] - off, pm[off + j] - off) = M(i, j);
            M = U;
        }
        Dense inv   = gsolve(M, eye(n));
        double cond = fro(M) * fro(inv);
        if (!(cond < 1e5)) {
            cx.count("skipped_condition");
            return;
        }
        htool::LocalHMatrixSolver<T, C> s(h, perm);
        s.numfact(nocsr, false, noptr);
        SolveSpec q{&s, inv, cond, 2 * P.epsilon, S() << "hmatrix:" << P.sym << P.uplo << (perm ? ":permuted" : ":cluster"), [&]() { return digest(h); }};
        history(cx, r, q);
        cx.sig(S() << "hmatrix" << P.sym << P.uplo << perm << root << (rep.nlr > 0) << (rep.rank0 > 0) << (rep.nleaf > 1));
        cx.count(perm ? "permuted_solvers" : "cluster_numbering_solvers");
    } else {
        int m = r.p(0.2) ? 0 : r.i(1, 25);
        // coupling small enough for the whole system to stay well conditioned
        double am  = std::abs(P.ker.scale);
        char sym   = P.sym;
        Dense full(n + m, n + m);
        for (int j = 0; j < n; j++)
            for (int i = 0; i < n; i++) full(i, j) = rep.M(i, j);
        Mat B, C_, D_;
        bool needB = sym == 'N' || P.uplo == 'U', needC = sym == 'N' || P.uplo == 'L';
        Mat Bf(n, m), Cf(m, n), Df(m, m);
        for (int i = 0; i < m * n; i++) Cf.data()[i] = T(R(0.3 * am)) * rnd(r), Bf.data()[i] = T(R(0.3 * am)) * rnd(r);
        for (int i = 0; i < m * m; i++) Df.data()[i] = T(R(0.5 * am)) * rnd(r);
        bool pivoting = sym == 'N' && m > 1 && r.p(0.5);
        for (int i = 0; i < m; i++) {
            if (sym != 'N') {
                for (int j = 0; j < i; j++) Df(i, j) = cj(Df(j, i));
                Df(i, i) = T(R(am * (n + m + 2)));
                for (int j = 0; j < n; j++) Bf(j, i) = cj(Cf(i, j));
            } else Df(i, pivoting ? (i + 1) % m : i) = T(R(am * (n + m + 2))); // a cyclic shift: the factorisation has to interchange rows
        }
        for (int j = 0; j < m; j++) {
            for (int i = 0; i < n; i++) full(i, n + j) = up(Bf(i, j)), full(n + j, i) = up(Cf(j, i));
            for (int i = 0; i < m; i++) full(n + i, n + j) = up(Df(i, j));
        }
        if (needB) B = Bf;
        if (needC) C_ = Cf;
        D_ = Df;
        cx.desc(S() << "overlap=" << m << (pivoting ? " pivoting" : ""));
        Dense inv   = gsolve(full, eye(n + m));
        double cond = fro(full) * fro(inv);
        if (!(cond < 1e5)) {
            cx.count("skipped_condition");
            return;
        }
        htool::LocalHMatrixPlusOverlapSolver<T, C> s(h, B, C_, D_);
        s.numfact(nocsr, false, noptr);
        SolveSpec q{&s, inv, cond, 2 * P.epsilon, S() << "overlap:" << P.sym << P.uplo << (m ? "" : ":none"), [&]() { return digest(h) ^ fnvb(B.data(), sizeof(T) * B.nb_rows() * B.nb_cols()) ^ (3 * fnvb(C_.data(), sizeof(T) * C_.nb_rows() * C_.nb_cols())) ^ (5 * fnvb(D_.data(), sizeof(T) * D_.nb_rows() * D_.nb_cols())); }};
        history(cx, r, q);
        cx.sig(S() << "overlap" << P.sym << P.uplo << (m > 0) << (m > n) << pivoting << (rep.nlr > 0) << (rep.nleaf > 1));
        cx.count(m ? "overlap_solvers" : "empty_overlap_solvers");
        if (pivoting) cx.count("pivoting_overlap");
    }
    cx.check(log->errors == 0, "error-logged", log->last_error());
}
} // namespace vf
