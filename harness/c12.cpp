// C12: no data race and schedule-independent results of the OpenMP regions (built with
// ThreadSanitizer over omp_shim.cpp, see there).
#include "hmx.hpp"
#include <thread>
using namespace vf;
extern uint64_t vf_omp_last;
extern long vf_omp_regions, vf_omp_multi;
void vf_omp_seed(uint64_t);
int vf_omp_in_region();
int vf_omp_id();
namespace vf {
// no atomics: the generator must not synchronise the threads it is called from
struct QuietGen : htool::VirtualInternalGenerator<T> {
    const Kernel &k;
    const std::vector<int> &pt, &ps;
    struct Call {
        int m, n, i, j;
    };
    mutable std::vector<Call> calls[64];
    QuietGen(const Kernel &k_, const std::vector<int> &a, const std::vector<int> &b) : k(k_), pt(a), ps(b) {}
    void copy_submatrix(int M, int N, int ro, int co, T *ptr) const override {
        calls[vf_omp_id()].push_back({M, N, ro, co});
        for (int j = 0; j < N; j++)
            for (int i = 0; i < M; i++) ptr[i + (size_t)M * j] = k(pt[i + ro], ps[j + co]);
    }
};
struct AdmSpy : htool::VirtualAdmissibilityCondition<C> {
    std::shared_ptr<htool::VirtualAdmissibilityCondition<C>> inner = std::make_shared<htool::RjasanowSteinbach<C>>();
    mutable long calls = 0, concurrent = 0;
    bool ComputeAdmissibility(const htool::Cluster<C> &t, const htool::Cluster<C> &s, double eta) const override {
        calls++; // plain: a race here is a finding
        if (vf_omp_in_region()) concurrent++;
        return inner->ComputeAdmissibility(t, s, eta);
    }
};
struct DenseSpy : htool::VirtualDenseBlocksGenerator<T> {
    const Prob &p;
    mutable long calls = 0, concurrent = 0;
    explicit DenseSpy(const Prob &q) : p(q) {}
    void copy_dense_blocks(const std::vector<int> &M, const std::vector<int> &N, const std::vector<int> &ro, const std::vector<int> &co, std::vector<T *> &ptr) const override {
        calls++;
        if (vf_omp_in_region()) concurrent++;
        for (size_t b = 0; b < M.size(); b++)
            for (int j = 0; j < N[b]; j++)
                for (int i = 0; i < M[b]; i++) ptr[b][i + (size_t)M[b] * j] = p.ker(p.tc->get_permutation()[i + ro[b]], p.sc->get_permutation()[j + co[b]]);
    }
};
// a user's log writer: like the other user code except generators it is not called concurrently
struct LogSpy : htool::IObjectWriter {
    std::vector<std::string> msgs; // plain: a race here is a finding
    std::atomic<int> inside{0};    // relaxed: must not synchronise the threads it is called from
    std::atomic<long> concurrent{0};
    long in_region = 0;
    void set_log_level(htool::LogLevel) override {}
    void write(htool::LogLevel l, const std::string &s) override {
        if (inside.fetch_add(1, std::memory_order_relaxed) != 0) concurrent.fetch_add(1, std::memory_order_relaxed);
        else {
            msgs.push_back(std::to_string((unsigned)l) + s);
            in_region += vf_omp_in_region();
        }
        for (int i = 0; i < 20; i++) std::this_thread::yield();
        inside.fetch_sub(1, std::memory_order_relaxed);
    }
};
// a self-contained piece of work on objects of its own, as a thread of a caller would do it
static uint64_t own_work(uint64_t seed) {
    Rng r(seed);
    Opts o;
    o.square = o.solve = true;
    o.allow_incons = o.allow_part = o.allow_dups = o.allow_reqrank = o.allow_local = false;
    o.nmin  = 12;
    o.nmax  = 60;
    auto p  = random_prob(r, o);
    p->eta  = r.pick({10., 30., 100.});
    p->mint = p->mins = 0;
    KGen g(p->ker);
    HM h       = p->builder()->build(g);
    uint64_t d = digest(h);
    auto mix   = [&](uint64_t v) { d = d * 1099511628211ull + v; };
    auto vec   = [&](const std::vector<T> &v) {
        for (auto &q : v) {
            D z = up(q);
            uint64_t b[2];
            double re = std::real(z), im = std::imag(z);
            memcpy(b, &re, 8);
            memcpy(b + 1, &im, 8);
            mix(b[0]);
            mix(b[1]);
        }
    };
    int n = h.nb_rows(), mu = r.i(1, 4);
    HM c(h);
    {
        std::vector<T> x = rvec(r, (size_t)n * mu), y = rvec(r, (size_t)n * mu);
        htool::sequential_internal_add_hmatrix_vector_product('N', T(2), c, (const T *)x.data(), T(1), y.data());
        vec(y);
        htool::sequential_internal_add_hmatrix_matrix_product_row_major('N', 'N', T(2), c, (const T *)x.data(), T(1), y.data(), mu);
        vec(y);
        std::vector<T> dn((size_t)n * n), dg(n);
        htool::copy_to_dense(c, dn.data());
        htool::copy_diagonal(c, dg.data());
        vec(dn);
        vec(dg);
    }
    walk_leaves(h, [&](const HM &l) {
        if (!l.is_low_rank()) return;
        LR q(*l.get_low_rank_data());
        htool::recompression(q);
        mix(digest(q.get_U()));
        mix(digest(q.get_V()));
    });
    Mat Y(n, mu);
    for (int i = 0; i < n * mu; i++) Y.data()[i] = rnd(r);
    if (p->sym == 'N') {
        HM prod(h), fac(h);
        htool::internal_add_hmatrix_hmatrix_product('N', 'N', T(1), (const HM &)h, (const HM &)c, T(0.5), prod);
        mix(digest(prod));
        htool::lu_factorization(fac);
        mix(digest(fac));
        htool::lu_solve('N', fac, Y);
        mix(digest(Y));
    } else if (!CPLX || p->sym == 'H') {
        HM fac(h);
        htool::cholesky_factorization(p->uplo, fac);
        mix(digest(fac));
        htool::cholesky_solve(p->uplo, fac, Y);
        mix(digest(Y));
    }
    htool::sequential_scale(T(3), c);
    mix(digest(c));
    std::ostringstream os;
    htool::print_hmatrix_information(h, os);
    return d;
}
static void independent_work(Ctx &cx) {
    Rng &r = cx.rng;
    auto log = std::make_shared<LogSpy>();
    htool::Logger::get_instance().set_current_writer(log);
    int users = r.i(2, 4), jobs = r.i(users, 6);
    std::vector<uint64_t> seeds(jobs), one(jobs), got(jobs);
    for (auto &q : seeds) q = r.next();
    omp_set_num_threads(1);
    vf_omp_seed(r.next());
    for (int j = 0; j < jobs; j++) one[j] = own_work(seeds[j]);
    cx.desc(S() << "independent work users=" << users << " jobs=" << jobs);
    vf_omp_seed(r.next());
#pragma omp parallel num_threads(users)
    {
#pragma omp for schedule(dynamic) nowait
        for (int j = 0; j < jobs; j++) got[j] = own_work(seeds[j]);
    }
    for (int j = 0; j < jobs; j++) cx.check(got[j] == one[j], "independent-work-disturbed", S() << "job " << j << " seed " << seeds[j]);
    cx.check(log->concurrent == 0, "log-writer-called-concurrently", S() << log->concurrent << " overlapping calls");
    cx.count("jobs_of_user_threads", jobs);
    cx.sig(S() << "own" << vf_omp_last);
}
void vf_case(Ctx &cx) {
    if (cx.rng.p(0.2)) return independent_work(cx);
    Rng &r   = cx.rng;
    auto log = std::make_shared<LogSpy>();
    htool::Logger::get_instance().set_current_writer(log);
    Opts o;
    o.nmin = 20;
    o.nmax = cx.thorough ? 150 : 110;
    if (cx.tail(43, 13)) o.nmin = 220, o.nmax = 400; // a few larger problems among the cases
    auto p = random_prob(r, o);
    cx.desc(p->d);
    bool dense_gen = r.p(0.2);
    if (r.p(0.4)) p->ker.cutoff = diameter(p->xt, p->dim, p->xs) * r.pick({0., 0.1, 0.3});
    if (p->ker.cutoff >= 0 && r.p(0.7)) p->lrk = r.i(0, 1);
    cx.desc(S() << "densegen=" << dense_gen << " cutoff=" << p->ker.cutoff << " lr=" << LRN[p->lrk]);
    std::vector<std::string> messages;
    std::vector<std::array<int, 4>> alone;
    auto requests = [](const QuietGen &g) {
        std::vector<std::array<int, 4>> q;
        for (auto &v : g.calls)
            for (auto &c : v) q.push_back({c.m, c.n, c.i, c.j});
        std::sort(q.begin(), q.end());
        return q;
    };
    auto build = [&](int thr, uint64_t seed, bool check) {
        auto adm = std::make_shared<AdmSpy>();
        auto dg  = std::make_shared<DenseSpy>(*p);
        p->adm   = adm;
        auto b   = p->builder();
        if (dense_gen) b->set_dense_blocks_generator(dg);
        QuietGen g(p->ker, p->tc->get_permutation(), p->sc->get_permutation());
        omp_set_num_threads(thr);
        vf_omp_seed(seed);
        log->msgs.clear();
        log->concurrent = 0;
        log->in_region = 0;
        HM h           = b->build(g);
        std::sort(log->msgs.begin(), log->msgs.end());
        if (!check) messages = log->msgs, alone = requests(g);
        if (check) {
            cx.check(log->concurrent == 0, "log-writer-called-concurrently", S() << log->concurrent << " overlapping calls");
            cx.check(log->msgs == messages, "messages-depend-on-schedule", S() << log->msgs.size() << " vs " << messages.size());
            cx.count("messages_from_parallel_assembly", log->in_region);
            cx.check(adm->concurrent == 0, "admissibility-condition-called-concurrently");
            cx.check(dg->concurrent == 0 && dg->calls <= 1, "dense-block-generator-called-concurrently");
            // the blocks are evaluated by the same requests, as often, as by one thread
            auto now = requests(g);
            cx.check(now == alone, "requests-differ-from-one-thread", S() << now.size() << " vs " << alone.size() << " requests");
            cx.count("requests_compared", (long)now.size());
            walk_leaves(h, [&](const HM &l) { cx.count("dense_leaves", l.is_dense()); });
            int users = 0;
            for (auto &v : g.calls) users += !v.empty();
            cx.maxi("threads_calling_the_generator", users);
        }
        p->adm.reset();
        return h;
    };
    HM ref      = build(1, 1, false);
    uint64_t d0 = digest(ref);
    auto info0  = ref.get_hmatrix_tree_data()->m_information;
    Rep rep     = represented(ref, *p);
    std::set<uint64_t> schedules;
    int m = ref.nb_rows(), n = ref.nb_cols();
    long nleaf = rep.nleaf;
    cx.count("leaves", nleaf);
    for (int round = 0; round < (cx.thorough ? 5 : 3); round++) {
        int thr       = r.i(2, 8);
        uint64_t seed = r.next();
        cx.op(S() << "[round thr=" << thr << "]");
        HM h = build(thr, seed, true);
        schedules.insert(vf_omp_last);
        cx.check(digest(h) == d0, "assembly-depends-on-schedule", S() << thr << " threads");
        auto info = h.get_hmatrix_tree_data()->m_information;
        cx.check(info["Number_of_false_positive"] == info0["Number_of_false_positive"], "false-positive-count-depends-on-schedule", info["Number_of_false_positive"] + " vs " + info0["Number_of_false_positive"]);
        // vector and multi-vector products
        for (int k = 0; k < 2; k++) {
            char tr = r.pick({'N', 'N', 'T', 'C'});
            if ((tr == 'T' && p->sym == 'H') || (tr == 'C' && p->sym == 'S')) tr = 'N';
            T al = rscal(r), be = rscal(r);
            int mu = k == 0 ? 1 : r.i(1, 5);
            if (cx.tail(23, 7) && k != 0) mu = 18 + (int)(cx.k / 23 % 50);
            int ni = tr == 'N' ? n : m, no = tr == 'N' ? m : n;
            std::vector<T> x = rvec(r, (size_t)ni * mu), y = rvec(r, (size_t)no * mu), y1 = y;
            cx.op(S() << "[" << (k ? "matrix " : "vector ") << tr << " mu=" << mu << "]");
            vf_omp_seed(r.next());
            omp_set_num_threads(thr);
            if (k == 0) htool::openmp_internal_add_hmatrix_vector_product(tr, al, h, (const T *)x.data(), be, y.data());
            else htool::openmp_internal_add_hmatrix_matrix_product_row_major(tr, 'N', al, h, (const T *)x.data(), be, y.data(), mu);
            schedules.insert(vf_omp_last);
            Dense B = fromrm(ni, mu, x.data()), C0 = fromrm(no, mu, y1.data());
            Dense rf = axpby(up(al), mul(op(tr, rep.M), B), up(be), C0), mg = axpby(std::abs(up(al)), mul(absd(op(tr, rep.A)), absd(B)), std::abs(up(be)), absd(C0));
            double tol = 8 * eps() * (ni + rep.maxrank + thr + 10);
            cx.le(worst(fromrm(no, mu, y.data()), rf, mg, 1e-290) / tol, 1, S() << "parallel-product:" << (k ? "matrix:" : "vector:") << tr);
            cx.count("parallel_products");
        }
        // products of one (constant) H-matrix issued by several threads of the caller, each with its own vectors
        {
            int users = r.i(2, 4), mu = r.i(1, 3);
            char tr = r.pick({'N', 'N', 'T'});
            if (tr == 'T' && p->sym == 'H') tr = 'N';
            int ni = tr == 'N' ? n : m, no = tr == 'N' ? m : n;
            std::vector<std::vector<T>> x(users), y(users), y1(users), z(users), z1(users), w(users);
            for (int u = 0; u < users; u++) {
                x[u] = rvec(r, (size_t)ni * mu);
                y[u] = y1[u] = rvec(r, no);
                z[u] = z1[u] = rvec(r, (size_t)no * mu);
                w[u] = rvec(r, no);
            }
            std::vector<std::vector<T>> w1 = w;
            T al = rscal(r), be = rscal(r);
            cx.op(S() << "[from " << users << " user threads " << tr << " mu=" << mu << "]");
            vf_omp_seed(r.next());
            omp_set_num_threads(thr);
            const HM &hc = h;
#pragma omp parallel num_threads(users)
            {
#pragma omp for schedule(dynamic) nowait
                for (int u = 0; u < users; u++) {
                    htool::openmp_internal_add_hmatrix_vector_product(tr, al, hc, (const T *)x[u].data(), be, y[u].data());
                    htool::openmp_internal_add_hmatrix_matrix_product_row_major(tr, 'N', al, hc, (const T *)x[u].data(), be, z[u].data(), mu);
                    htool::sequential_internal_add_hmatrix_vector_product(tr, al, hc, (const T *)x[u].data(), be, w[u].data());
                }
            }
            schedules.insert(vf_omp_last);
            for (int u = 0; u < users; u++) {
                Dense O = op(tr, rep.M), OA = absd(op(tr, rep.A));
                double tol = 8 * eps() * (ni + rep.maxrank + thr + 10);
                auto cmp   = [&](const std::vector<T> &got, const std::vector<T> &old, int k, const char *what) {
                    Dense B = fromrm(ni, k, x[u].data()), C0 = fromrm(no, k, old.data());
                    cx.le(worst(fromrm(no, k, got.data()), axpby(up(al), mul(O, B), up(be), C0), axpby(std::abs(up(al)), mul(OA, absd(B)), std::abs(up(be)), absd(C0)), 1e-290) / tol, 1, S() << "product-from-user-threads:" << what << tr);
                };
                cmp(y[u], y1[u], 1, "vector:");
                cmp(w[u], w1[u], 1, "sequential:");
                cmp(z[u], z1[u], mu, "matrix:");
                cx.count("products_from_user_threads", 3);
            }
        }
        // scaling
        T da = rnd(r);
        HM hs = build(1, 1, false);
        vf_omp_seed(r.next());
        omp_set_num_threads(thr);
        htool::openmp_scale(da, h);
        schedules.insert(vf_omp_last);
        htool::sequential_scale(da, hs);
        cx.check(digest(h) == digest(hs), "parallel-scale-differs-from-sequential", S() << thr << " threads");
        cx.count("scales");
    }
    cx.check(digest(ref) == d0, "earlier-matrix-modified");
    cx.count("schedules_in_case", (long)schedules.size());
    for (auto s : schedules) cx.sig(S() << s);
    static long reg = 0, mul_ = 0;
    cx.count("parallel_regions", vf_omp_regions - reg);
    cx.count("regions_with_work_on_several_threads", vf_omp_multi - mul_);
    reg  = vf_omp_regions;
    mul_ = vf_omp_multi;
}
} // namespace vf
