// C29: domain decomposition solvers: everything handed to the Krylov library, and the solution, against the gathered operator.
#include "mpix.hpp"
#include <htool/solvers/ddm.hpp>
#include <htool/solvers/geneo/coarse_operator_builder.hpp>
#include <htool/solvers/utility.hpp>
using namespace vf;
namespace vf {
typedef htool::DDMSolverWithDenseLocalSolver<T, C> DS;
typedef htool::DDMSolverBuilder<T, C> HS;
static double colnorm(const Dense &A, int j) {
    double s = 0;
    for (int i = 0; i < A.m; i++) s += std::norm(A(i, j));
    return std::sqrt(s);
}
static Dense pick(const Dense &A, const std::vector<int> &r, const std::vector<int> &c) {
    Dense B((int)r.size(), (int)c.size());
    for (int j = 0; j < B.n; j++)
        for (int i = 0; i < B.m; i++) B(i, j) = A(r[i], c[j]);
    return B;
}
struct SpaceSpy : htool::VirtualCoarseSpaceBuilder<T> {
    Mat Z;
    int calls = 0;
    Mat build_coarse_space() override {
        calls++;
        return Z;
    }
};
struct OperatorSpy : htool::VirtualCoarseOperatorBuilder<T> {
    htool::VirtualCoarseOperatorBuilder<T> *real = nullptr;
    Mat given;
    std::vector<T> seen, out;
    int n = -1, nevi = -1, calls = 0, dof = 0;
    Mat build_coarse_operator(int n_, int nevi_, T **z) override {
        calls++;
        n = n_, nevi = nevi_;
        for (int j = 0; j < nevi; j++) seen.insert(seen.end(), z[j], z[j] + dof);
        Mat E = real ? real->build_coarse_operator(n_, nevi_, z) : given;
        out.assign(E.data(), E.data() + (size_t)E.nb_rows() * E.nb_cols());
        return E;
    }
};
struct State {
    Prob *p = nullptr;
    Dense M, Am; // user numbering
    int maxrank = 0;
    std::vector<int> loc;                  // global numbers of the local unknowns
    std::vector<int> nb;                   // neighbours
    std::vector<std::vector<int>> shared;  // global numbers shared with each neighbour, in the agreed order
    int inside = 0;
    Dense local, inv;
    double cond = 0, ltol = 0;
    bool judge_local = true, facto = false, two = false;
    SpaceSpy space;
    OperatorSpy oper;
    std::string key;
};
template <class DDM>
static void run(Ctx &cx, Rng &r, State &s, DDM &ddm) {
    World &w   = World::get();
    auto log   = logrec();
    int n      = s.p->nt, dof = (int)s.loc.size();
    auto &opt  = *HPDDM::Option::get();
    bool ldone = false;
    cx.check(ddm.get_local_size() == dof, s.key + ":local-size");
    int steps = r.i(2, 5), solves = 0;
    for (int st = 0; st < steps || !solves; st++) {
        if (!s.facto && r.p(0.6)) {
            ddm.facto_one_level();
            s.facto = true;
        }
        if (!s.two && r.p(0.25)) {
            int nevi = r.i(1, 3), mine = 1 + (nevi + w.rank) % 3;
            if (dof < mine) mine = 1;
            s.space.Z.resize(dof, mine);
            Rng q = r;
            for (int k = 0; k < w.rank; k++) q.u(0, 1);
            for (int j = 0; j < mine; j++)
                for (int i = 0; i < dof; i++) s.space.Z(i, j) = i < s.inside ? rnd(q) : T(0);
            r.u(0, 1);
            int tot = mine;
            MPI_Allreduce(MPI_IN_PLACE, &tot, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
            std::vector<T> ev = rvec(r, (size_t)tot * tot);
            s.oper.given.resize(tot, tot);
            std::copy(ev.begin(), ev.end(), s.oper.given.data());
            s.oper.dof = dof;
            ddm.build_coarse_space(s.space, s.oper);
            s.two = true;
            cx.check(s.space.calls == 1 && s.oper.calls == 1, s.key + ":coarse-calls");
            cx.check(s.oper.n == dof && s.oper.nevi == mine, s.key + ":coarse-sizes", S() << s.oper.n << "x" << s.oper.nevi << " for " << dof << "x" << mine);
            cx.check(ddm.get_nevi() == mine && opt.val("geneo_nu", -1) == mine, s.key + ":coarse-number");
            cx.check(s.oper.seen.size() == (size_t)dof * mine && memcmp(s.oper.seen.data(), s.space.Z.data(), s.oper.seen.size() * sizeof(T)) == 0, s.key + ":coarse-vectors", "given to the operator builder");
            cx.check(ddm.get_information("GenEO_coarse_size") == htool::NbrToStr(tot), s.key + ":info", "GenEO_coarse_size");
            cx.count("coarse_spaces");
        }
        int meth = s.facto ? r.pick({HPDDM_SCHWARZ_METHOD_RAS, HPDDM_SCHWARZ_METHOD_ASM, HPDDM_SCHWARZ_METHOD_NONE}) : HPDDM_SCHWARZ_METHOD_NONE;
        int corr = r.i(-1, 2), mu = r.pick({1, 1, 2, 3, 5}), kry = r.i(-1, 8);
        if (meth == HPDDM_SCHWARZ_METHOD_RAS && r.p(0.4)) opt.remove("schwarz_method");
        else opt["schwarz_method"] = meth;
        if (corr < 0) opt.remove("schwarz_coarse_correction");
        else opt["schwarz_coarse_correction"] = corr;
        if (kry < 0) opt.remove("krylov_method");
        else opt["krylov_method"] = kry;
        cx.op(S() << "[solve " << s.key << " method=" << meth << " mu=" << mu << (s.two ? " two-level" : "") << "]");
        std::vector<T> b = rvec(r, (size_t)n * mu), g = rvec(r, (size_t)n * mu), lv((size_t)dof * mu);
        std::vector<T> junk((size_t)n * mu);
        for (auto &v : junk) v = r.p(0.2) ? T(std::numeric_limits<R>::quiet_NaN()) : rnd(r);
        Guard gb(b), gx(junk);
        int called = 0;
        log->clear();
        HPDDM::hook<T>() = [&](HPDDM::View<T> &v) {
            called++;
            cx.check(v.dof == dof && v.mu == mu, s.key + ":sizes");
            int same = -1;
            MPI_Comm_compare(v.comm, MPI_COMM_WORLD, &same);
            cx.check(same == MPI_IDENT || same == MPI_CONGRUENT, s.key + ":communicator");
            cx.check(v.prec == (meth == HPDDM_SCHWARZ_METHOD_NONE ? 0 : meth == HPDDM_SCHWARZ_METHOD_ASM ? 1 : 2), s.key + ":preconditioner", S() << v.prec);
            for (int i = 0; i < dof; i++) cx.check(v.d[i] == (i < s.inside ? R(1) : R(0)), s.key + ":partition-of-unity");
            // neighbours and shared unknowns
            bool ok = v.map.size() == s.nb.size();
            for (size_t k = 0; ok && k < s.nb.size(); k++) {
                ok = v.map[k].first == s.nb[k] && v.map[k].second.size() == s.shared[k].size();
                for (size_t i = 0; ok && i < s.shared[k].size(); i++) {
                    int l = v.map[k].second[i];
                    ok    = l >= 0 && l < dof && s.loc[l] == s.shared[k][i];
                    cx.count("shared_unknowns");
                }
            }
            cx.check(ok, s.key + ":intersections");
            // right-hand sides of the overlapping subdomain
            for (int c = 0; c < mu; c++)
                for (int i = 0; i < dof; i++) {
                    cx.check(v.b[(size_t)c * dof + i] == b[(size_t)c * n + s.loc[i]], s.key + ":rhs", S() << "column " << c << " of " << mu << " row " << i << " of " << s.inside << "/" << dof);
                    cx.check(v.x[(size_t)c * dof + i] == T(0), s.key + ":initial-guess");
                }
            // the operator on consistent vectors
            Dense G = fromcm(n, mu, g.data()), ref = mul(s.M, G), mag = mul(s.Am, absd(G));
            for (int c = 0; c < mu; c++)
                for (int i = 0; i < dof; i++) lv[(size_t)c * dof + i] = g[(size_t)c * n + s.loc[i]];
            std::vector<T> y0((size_t)dof * mu, T(std::numeric_limits<R>::quiet_NaN()));
            Guard gi(lv), go(y0);
            v.gmv(gi.data(), go.data(), mu);
            cx.check(gi.intact() && go.intact() && memcmp(gi.vec().data(), lv.data(), lv.size() * sizeof(T)) == 0, s.key + ":operator-guard");
            Dense got(dof, mu), rr(dof, mu), mm(dof, mu);
            std::vector<T> out = go.vec();
            for (int c = 0; c < mu; c++)
                for (int i = 0; i < dof; i++) {
                    got(i, c) = up(out[(size_t)c * dof + i]);
                    rr(i, c)  = ref(s.loc[i], c);
                    mm(i, c)  = mag(s.loc[i], c);
                }
            double tol = 8 * eps() * (2 * n + s.maxrank + s.p->threads + w.size + 10);
            cx.le(worst(got, rr, mm, 1e-290) / tol, 1, S() << s.key << ":operator:" << s.p->sym << (mu > 1 ? "m" : "v"), S() << "mu=" << mu);
            cx.count(mu > 1 ? "operator_products_multi" : "operator_products");
            // local solves
            if (s.facto && s.judge_local) {
                Rng rl = r; // the ranks draw different amounts here
                std::vector<T> lb = rvec(rl, (size_t)dof * mu);
                Dense B = fromcm(dof, mu, lb.data()), lref = mul(s.inv, B);
                for (int inpl = 0; inpl < 2; inpl++) {
                    std::vector<T> x0 = inpl ? lb : std::vector<T>(lb.size(), T(std::numeric_limits<R>::quiet_NaN()));
                    Guard a(lb), x(x0);
                    if (inpl) v.local_inplace(nullptr, x.data(), mu);
                    else v.local(a.data(), x.data(), mu);
                    cx.check(a.intact() && x.intact() && memcmp(a.vec().data(), lb.data(), lb.size() * sizeof(T)) == 0, s.key + ":local-guard");
                    std::vector<T> xv = x.vec();
                    Dense e = axpby(1, fromcm(dof, mu, xv.data()), -1, lref);
                    for (int c = 0; c < mu; c++) cx.le(colnorm(e, c), (s.ltol + (20 + dof) * eps()) * 4 * s.cond * colnorm(lref, c), S() << s.key << ":local-solve:" << s.p->sym << s.p->uplo << (inpl ? "-in-place" : ""), S() << "cond " << s.cond << " dof " << s.inside << "/" << dof);
                }
                cx.count("local_solves");
                ldone = true;
            }
            if (s.two) {
                int mine = s.space.Z.nb_cols();
                bool ok2 = v.ev != nullptr;
                for (int j = 0; ok2 && j < mine; j++) ok2 = memcmp(v.ev[j], s.space.Z.data() + (size_t)j * dof, dof * sizeof(T)) == 0;
                cx.check(ok2, s.key + ":coarse-vectors");
                if (w.rank == 0) cx.check(v.E.size() == s.oper.out.size() && memcmp(v.E.data(), s.oper.out.data(), v.E.size() * sizeof(T)) == 0, s.key + ":coarse-operator");
            }
        };
        ddm.solve(gb.data(), gx.data(), mu);
        HPDDM::hook<T>() = nullptr;
        solves++;
        cx.check(called == 1, s.key + ":krylov-calls");
        cx.check((log->errors > 0) == (s.two && !s.facto), s.key + ":log", log->last_error());
        cx.check(gb.intact() && gx.intact(), s.key + ":guard");
        cx.check(memcmp(gb.vec().data(), b.data(), b.size() * sizeof(T)) == 0, s.key + ":rhs-changed");
        std::vector<T> xv = gx.vec();
        cx.check(same_on_all(xv.data(), xv.size(), MPI_COMM_WORLD), s.key + ":ranks-differ");
        Dense X = fromcm(n, mu, xv.data()), res = axpby(1, mul(s.M, X), -1, fromcm(n, mu, b.data()));
        double fm = fro(s.Am);
        for (int c = 0; c < mu; c++) {
            double nbc = colnorm(fromcm(n, mu, b.data()), c);
            cx.le(colnorm(res, c), (sizeof(R) == 8 ? 1e-10 : 2e-5) * (nbc + fm * colnorm(X, c)), S() << s.key << ":solution:" << s.p->sym << (mu > 1 ? "m" : "v"), S() << "column " << c << " of " << mu);
        }
        cx.count("solves");
        if (mu > 1) cx.count("solves_multi");
        cx.count(meth == HPDDM_SCHWARZ_METHOD_NONE ? "method_none" : meth == HPDDM_SCHWARZ_METHOD_ASM ? "method_asm" : "method_ras");
        // reported information
        auto inf = ddm.get_information();
        auto is  = [&](const char *k, const std::string &v) { cx.check(inf.count(k) && inf[k] == v, s.key + ":info", S() << k << " is '" << inf[k] << "', expected '" << v << "'"); };
        is("Nb_subdomains", htool::NbrToStr(w.size));
        is("htool_solver", "ddm");
        is("Precond", meth == HPDDM_SCHWARZ_METHOD_NONE ? "None" : meth == HPDDM_SCHWARZ_METHOD_ASM ? "ASM" : "RAS");
        static const char *KN[] = {"gmres", "bgmres", "cg", "bcg", "gcrodr", "bgcrodr", "bfbcg", "richardson", "none"};
        is("krylov_method", KN[kry < 0 ? 8 : kry]);
        static const char *CN[] = {"None", "Deflated", "Additive", "Balanced"};
        is("Coarse_correction", meth == HPDDM_SCHWARZ_METHOD_NONE ? "None" : CN[corr + 1]);
        int mine = s.two ? s.space.Z.nb_cols() : 0, mx = mine, mn = mine, sm = mine;
        MPI_Allreduce(MPI_IN_PLACE, &mx, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
        MPI_Allreduce(MPI_IN_PLACE, &mn, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
        MPI_Allreduce(MPI_IN_PLACE, &sm, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
        if (w.rank == 0 && meth != HPDDM_SCHWARZ_METHOD_NONE) {
            is("DDM_local_coarse_size_max", htool::NbrToStr(mx));
            is("DDM_local_coarse_size_min", htool::NbrToStr(mn));
            is("DDM_local_coarse_size_mean", htool::NbrToStr((double)sm / w.size));
        }
        cx.sig(S() << s.key << s.p->sym << s.p->uplo << meth << (mu > 1) << s.two << s.facto << (dof > s.inside) << s.nb.size() << (n > 40));
    }
    (void)ldone;
    // information given by the user
    ddm.set_infos("vf", "3");
    ddm.add_infos("vf", "4");
    ddm.add_infos("vf_new", "x");
    std::string f = cx.scratch + "/infos.txt";
    if (w.rank == 0) {
        ddm.save_infos(f, std::ios_base::trunc, " : ");
        std::ifstream in(f);
        std::map<std::string, std::string> m;
        for (std::string line; std::getline(in, line);) {
            size_t k = line.find(" : ");
            if (k != std::string::npos) m[line.substr(0, k)] = line.substr(k + 3);
        }
        cx.check(m == ddm.get_information(), s.key + ":saved-infos");
        cx.check(ddm.get_information("vf") == "7" && ddm.get_information("vf_new") == "x", s.key + ":user-infos");
    }
}
void vf_case(Ctx &cx) {
    Rng &r   = cx.rng;
    auto log = logrec();
    World &w = World::get();
    int P    = w.size;
    HPDDM::Option::get()->clear();
    Opts o;
    o.square = o.solve = true;
    o.nmin   = std::max(3 * P, 6);
    o.nmax   = cx.thorough ? 140 : 70;
    o.parts  = P;
    o.given  = r.p(0.6) ? 1 : -1;
    o.epslo  = sizeof(R) == 8 ? 1e-9 : 1e-5;
    o.epshi  = 1e-3;
    o.allow_part = o.allow_local = o.allow_incons = o.allow_dups = o.allow_reqrank = o.allow_depths = false;
    auto p    = random_prob(r, o);
    int kind  = r.i(0, 5);
    bool bad  = false;
    if (CPLX && p->sym == 'S' && (kind > 2 || r.p(0.5))) p->sym = 'H', p->ker.sym = 'H';
    if (kind <= 2 && p->sym != 'N' && p->uplo == 'U') {
        bad = r.p(0.1);
        if (!bad) p->uplo = 'L';
    }
    const Clu &tc = *p->tc, &tl = *tc.get_clusters_on_partition()[w.rank];
    const std::vector<int> &perm = tc.get_permutation();
    p->diag_lo = tl.get_offset();
    p->diag_hi = p->diag_lo + tl.get_size();
    static const char *KN[] = {"dense", "dense-adding", "dense-overlap", "hmatrix", "hmatrix-adding", "hmatrix-overlap"};
    State s;
    s.p      = p.get();
    s.key    = KN[kind];
    s.inside = tl.get_size();
    // subdomains: computed identically on all ranks
    int shape = r.i(0, 3), nt = p->nt;
    bool overlap = kind % 3 != 0;
    std::vector<std::vector<int>> sub(P);
    std::vector<int> agreed(nt);
    for (int i = 0; i < nt; i++) agreed[i] = i;
    for (int i = nt - 1; i > 0; i--) std::swap(agreed[i], agreed[r.i(0, i)]);
    std::vector<int> my_c2o, my_o2g;
    for (int q = 0; q < P; q++) {
        const Clu &c = *tc.get_clusters_on_partition()[q];
        std::vector<int> own(perm.begin() + c.get_offset(), perm.begin() + c.get_offset() + c.get_size()), extra;
        std::set<int> in(own.begin(), own.end());
        int want = !overlap || (shape == 0 && q % 2 == 0) ? 0 : std::min(nt - (int)own.size(), r.i(0, shape == 3 ? nt : 8));
        std::vector<int> rest;
        for (int i = 0; i < nt; i++)
            if (!in.count(i)) rest.push_back(i);
        if (shape == 2 || shape == 0) { // the nearest ones
            auto dist = [&](int i) {
                double m = 1e300;
                for (int j : own) {
                    double d = 0;
                    for (int k = 0; k < p->dim; k++) d += std::pow((double)p->xt[(size_t)i * p->dim + k] - (double)p->xt[(size_t)j * p->dim + k], 2);
                    m = std::min(m, d);
                }
                return m;
            };
            std::stable_sort(rest.begin(), rest.end(), [&](int a, int b) { return dist(a) < dist(b); });
        } else
            for (int i = (int)rest.size() - 1; i > 0; i--) std::swap(rest[i], rest[r.i(0, i)]);
        std::vector<int> all = own;
        all.insert(all.end(), rest.begin(), rest.begin() + want);
        std::vector<int> ord = all; // the subdomain in the caller's order
        if (r.p(0.7))
            for (int i = (int)ord.size() - 1; i > 0; i--) std::swap(ord[i], ord[r.i(0, i)]);
        std::vector<int> where(nt, -1);
        for (size_t i = 0; i < ord.size(); i++) where[ord[i]] = (int)i;
        sub[q] = own;
        for (int i : ord)
            if (!in.count(i)) sub[q].push_back(i);
        if (q == w.rank) {
            my_o2g = ord;
            for (int i : own) my_c2o.push_back(where[i]);
        }
    }
    s.loc = sub[w.rank];
    int dof = (int)s.loc.size();
    std::vector<std::vector<int>> inter; // in the caller's order
    {
        std::vector<int> order;
        for (int q = 0; q < P; q++) order.push_back(q);
        for (int i = P - 1; i > 0; i--) std::swap(order[i], order[r.i(0, i)]);
        std::set<int> mine(s.loc.begin(), s.loc.end());
        std::vector<int> where(nt, -1);
        for (size_t i = 0; i < my_o2g.size(); i++) where[my_o2g[i]] = (int)i;
        for (int q : order) {
            if (q == w.rank) continue;
            std::set<int> his(sub[q].begin(), sub[q].end());
            std::vector<int> sh, li;
            for (int i : agreed)
                if (mine.count(i) && his.count(i)) sh.push_back(i), li.push_back(where[i]);
            if (sh.empty()) continue;
            s.nb.push_back(q);
            s.shared.push_back(sh);
            inter.push_back(li);
        }
    }
    cx.desc(S() << "P=" << P << " kind=" << KN[kind] << " shape=" << shape << " " << p->d);
    omp_set_num_threads(p->threads);
    KGen gen(p->ker);
    htool::DefaultApproximationBuilder<T, C> b(gen, tc, tc, R(p->epsilon), C(p->eta), p->sym, p->uplo, MPI_COMM_WORLD);
    // global operator in user numbering
    {
        Rep rep = represented(b.hmatrix, p->sym, p->diag_lo, p->diag_hi);
        Dense m(nt, nt), a(nt, nt);
        int co = b.hmatrix.get_source_cluster().get_offset();
        for (int j = 0; j < rep.M.n; j++)
            for (int i = 0; i < rep.M.m; i++) {
                m(perm[i + tl.get_offset()], perm[j + co]) = rep.M(i, j);
                a(perm[i + tl.get_offset()], perm[j + co]) = rep.A(i, j);
            }
        s.M       = allsum(m, MPI_COMM_WORLD);
        s.Am      = allsum(a, MPI_COMM_WORLD);
        s.maxrank = rep.maxrank;
        MPI_Allreduce(MPI_IN_PLACE, &s.maxrank, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
        cx.count("lowrank_leaves", rep.nlr);
    }
    Dense ex(dof, dof);
    for (int j = 0; j < dof; j++)
        for (int i = 0; i < dof; i++) ex(i, j) = up(p->ker(s.loc[i], s.loc[j]));
    log->clear();
    std::unique_ptr<DS> ds;
    std::unique_ptr<HS> hs;
    std::unique_ptr<HM> block;
    if (kind == 3 || kind == 4) block.reset(new HM(*b.block_diagonal_hmatrix));
    R ep = R(p->epsilon);
    switch (kind) {
    case 0: ds.reset(new DS(b.distributed_operator, *b.block_diagonal_hmatrix)); break;
    case 1: ds.reset(new DS(b.distributed_operator, *b.block_diagonal_hmatrix, gen, my_o2g, my_c2o, s.nb, inter)); break;
    case 2: ds.reset(new DS(b.distributed_operator, my_o2g, my_c2o, s.nb, inter, gen, p->dim, p->xt.data(), ep, C(p->eta))); break;
    case 3: hs.reset(new HS(b.distributed_operator, *block)); break;
    case 4: hs.reset(new HS(b.distributed_operator, *block, gen, my_o2g, my_c2o, s.nb, inter)); break;
    case 5: hs.reset(new HS(b.distributed_operator, my_o2g, my_c2o, s.nb, inter, gen, p->dim, p->xt.data(), ep, C(p->eta))); break;
    }
    cx.check((log->errors > 0) == bad, s.key + ":construction-log", log->last_error());
    if (bad) {
        cx.count("refused_upper");
        return;
    }
    if (overlap) {
        const std::vector<int> &l = ds ? ds->local_to_global_numbering : hs->local_to_global_numbering;
        cx.check(l == s.loc, s.key + ":local-numbering");
    }
    // local system in the local numbering
    const std::unique_ptr<HM> *lh = kind == 2 ? &ds->local_hmatrix : kind == 5 ? &hs->local_hmatrix : nullptr;
    s.local = ex;
    if (lh) {
        Rep rep = represented(**lh, p->sym, 0, dof);
        const auto &lp = (*lh)->get_target_cluster().get_permutation();
        cx.check(rep.holes == 0 && rep.multi == 0 && (int)lp.size() == dof, s.key + ":local-hmatrix");
        for (int j = 0; j < dof; j++)
            for (int i = 0; i < dof; i++) s.local(lp[i], lp[j]) = rep.M(i, j);
        cx.le(frodiff(s.local, ex), (30 * p->epsilon + 100 * eps()) * fro(ex), s.key + ":local-error", S() << "eps " << p->epsilon);
        cx.count("local_hmatrices");
    } else {
        std::vector<int> in(s.loc.begin(), s.loc.begin() + s.inside);
        Dense ii = pick(s.M, in, in);
        for (int j = 0; j < s.inside; j++)
            for (int i = 0; i < s.inside; i++) s.local(i, j) = ii(i, j);
    }
    if (ds) {
        const Mat &m = ds->block_diagonal_dense_matrix;
        bool ok      = m.nb_rows() == dof && m.nb_cols() == dof;
        cx.check(ok, s.key + ":local-matrix-size");
        double mx = 0, e = 0;
        for (int j = 0; ok && j < dof; j++)
            for (int i = 0; i < dof; i++) {
                mx = std::max(mx, std::abs(s.local(i, j)));
                if (p->sym == 'N' || i >= j) e = std::max(e, std::abs(up(m(i, j)) - s.local(i, j))), e = e == e ? e : 1e300;
            }
        cx.le(e, 50 * eps() * (10 + s.maxrank) * mx, S() << s.key << ":local-matrix:" << p->sym, S() << s.inside << "/" << dof);
        cx.count("local_matrices");
    }
    if (kind == 4) {
        // B (upper right), C (lower left), D of the overlap; with symmetric storage only the block of the stored triangle is needed
        auto blk = [&](const Mat &m, int r0, int nr, int c0, int nc, const char *name) {
            bool ok = m.nb_rows() == nr && m.nb_cols() == nc;
            for (int j = 0; ok && j < nc; j++)
                for (int i = 0; i < nr; i++) ok = ok && up(m(i, j)) == ex(r0 + i, c0 + j);
            cx.check(ok, S() << s.key << ":overlap-block-" << name << ":" << p->sym << p->uplo, S() << m.nb_rows() << "x" << m.nb_cols() << " expected " << nr << "x" << nc);
        };
        int no = dof - s.inside;
        if (no > 0 && (p->sym == 'N' || p->uplo == 'U')) blk(hs->blocks_in_overlap[0], 0, s.inside, s.inside, no, "B");
        if (no > 0 && (p->sym == 'N' || p->uplo == 'L')) blk(hs->blocks_in_overlap[1], s.inside, no, 0, s.inside, "C");
        if (no > 0) blk(hs->blocks_in_overlap[2], s.inside, no, s.inside, no, "D");
    }
    s.inv         = gsolve(s.local, eye(dof));
    s.cond        = fro(s.local) * fro(s.inv);
    s.judge_local = !(CPLX && p->sym == 'S');
    s.ltol        = hs ? 20 * p->epsilon : 0; // formatted arithmetic
    htool::GeneoCoarseOperatorBuilder<T> real(b.distributed_operator);
    if (r.p(0.5)) s.oper.real = &real;
    if (ds) run(cx, r, s, ds->solver);
    else run(cx, r, s, hs->solver);
    cx.count(S() << "kind_" << KN[kind]);
    if (dof > s.inside) cx.count("overlapping");
    cx.progress();
}
} // namespace vf
