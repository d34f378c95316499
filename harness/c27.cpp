// C27: every documented-invalid request reports an error through the writer in use, no valid request does; the log monitor is itself checked.
#include "mpix.hpp"
#include <htool/clustering/cluster_output.hpp>
#include <htool/hmatrix/linalg/factorization.hpp>
#include <htool/hmatrix/linalg/triangular_hmatrix_hmatrix_solve.hpp>
#include <htool/hmatrix/lrmat/linalg/add_lrmat_lrmat.hpp>
#include <sys/stat.h>
using namespace vf;
namespace vf {
using htool::LogLevel;
using htool::Logger;
static const LogLevel LV[] = {LogLevel::CRITICAL, LogLevel::ERROR, LogLevel::WARNING, LogLevel::DEBUG, LogLevel::INFO};
struct Stop {};
// records, then leaves the request at its first error: what an invalid request does afterwards is not specified
struct Thrower : LogRec {
    void write(LogLevel l, const std::string &s) override {
        LogRec::write(l, s);
        if (l <= LogLevel::ERROR) throw Stop{};
    }
};
struct Using {
    explicit Using(std::shared_ptr<htool::IObjectWriter> w) { Logger::get_instance().set_current_writer(w); }
    ~Using() { Logger::get_instance().set_current_writer(logrec()); }
};
// runs a request; the number of error messages decides
template <class F>
bool request(Ctx &cx, bool invalid, const std::string &what, F f, bool leave = true) {
    std::shared_ptr<LogRec> w;
    if (invalid && leave) w = std::make_shared<Thrower>();
    else w = std::make_shared<LogRec>();
    {
        Using u(w);
        try {
            f();
        } catch (const Stop &) {
        }
    }
    cx.count(invalid ? "invalid_requests" : "valid_requests");
    cx.count((invalid ? "invalid_" : "valid_") + what.substr(0, what.find(':')));
    if (invalid) return cx.check(w->errors > 0, "not-reported:" + what, S() << w->msgs.size() << " other messages");
    return cx.check(w->errors == 0, "valid-reported:" + what, w->last_error());
}

// ---- the log itself ---------------------------------------------------------------
struct RecW : htool::IObjectWriter {
    std::vector<std::pair<unsigned, std::string>> got;
    std::vector<unsigned> levels;
    void set_log_level(LogLevel l) override { levels.push_back((unsigned)l); }
    void write(LogLevel l, const std::string &s) override { got.emplace_back((unsigned)l, s); }
};
struct Capture {
    std::ostringstream o;
    std::streambuf *b;
    Capture() { b = std::cout.rdbuf(o.rdbuf()); }
    ~Capture() { std::cout.rdbuf(b); }
};
} // namespace vf
void vf_tu_writer(std::shared_ptr<htool::IObjectWriter> w);
void vf_tu_level(unsigned l);
void vf_tu_log(unsigned l, const std::string &m);
void vf_tu_library();
namespace vf {
static void log_histories(Ctx &cx, Rng &r) {
    struct Slot {
        std::shared_ptr<RecW> rec;
        std::shared_ptr<htool::StandartOutputWriter> std_;
        std::shared_ptr<htool::IObjectWriter> w() const {
            if (rec) return rec;
            return std_;
        }
        std::vector<std::pair<unsigned, std::string>> want;
        std::vector<unsigned> levels;
        unsigned level = 10;
    };
    std::vector<Slot> s(4);
    for (int i = 0; i < 4; i++)
        if (i < 2) s[i].rec = std::make_shared<RecW>();
        else s[i].std_ = std::make_shared<htool::StandartOutputWriter>();
    static const char *NAMES[] = {"critical", "error", "warning", "debug", "info"};
    auto &lg = Logger::get_instance();
    std::string hist;
    int cur = 0;
    Using u(s[0].w());
    int steps = r.i(10, 60);
    for (int st = 0; st < steps; st++) {
        int kd = r.i(0, 9);
        Capture cap;
        std::vector<std::pair<unsigned, std::string>> sent;
        if (kd == 0) {
            cur = r.i(0, 3);
            if (r.p(0.3)) vf_tu_writer(s[cur].w());
            else lg.set_current_writer(s[cur].w());
            hist += S() << "writer" << cur << ";";
        } else if (kd <= 2) {
            unsigned l = r.p(0.7) ? (unsigned)LV[r.i(0, 4)] : (unsigned)r.i(0, 50);
            if (r.p(0.3)) vf_tu_level(l);
            else if (r.p(0.5)) lg.set_current_log_level(l);
            else lg.set_current_log_level(static_cast<LogLevel>(l));
            s[cur].level = l;
            s[cur].levels.push_back(l);
            hist += S() << "level" << l << ";";
            cx.count("level_changes");
        } else if (kd <= 7) {
            LogLevel l    = LV[r.i(0, 4)];
            std::string m = S() << "message " << st << (r.p(0.2) ? " with \"quotes\", 100% and a\nline break" : "");
            if (r.p(0.1)) m.clear();
            if (r.p(0.3)) {
                vf_tu_log((unsigned)l, m);
                cx.count("messages_of_another_unit");
            } else lg.log(l, m);
            sent.emplace_back((unsigned)l, m);
            hist += S() << "log" << (unsigned)l << ";";
        } else {
            // messages of the library itself: level known, text its own
            unsigned l;
            if (kd == 8) {
                HM *h = nullptr;
                static std::vector<C> x = {0, 0, 1, 0, 0, 1};
                static Clu *c           = [] {
                    htool::ClusterTreeBuilder<C> b;
                    b.set_minclustersize(0);
                    return new Clu(b.create_cluster_tree(3, 2, x.data(), 2, 1));
                }();
                HM a(*c, *c);
                h = new HM(a);
                delete h;
                l = 40;
            } else if (r.p(0.3)) {
                vf_tu_library();
                l = 20;
            } else {
                std::vector<C> y;
                for (int i = 0; i < 24; i++) y.push_back(C(i % 5) + C(0.1) * C(i));
                htool::ClusterTreeBuilder<C> b;
                b.set_minclustersize(1);
                Clu t(b.create_cluster_tree(12, 2, y.data(), 2, 3)); // 3 is not a power of 2
                l = 20;
            }
            sent.emplace_back(l, "");
            hist += S() << "library" << l << ";";
            cx.count("library_messages");
        }
        std::string out = cap.o.str();
        if (s[cur].rec) {
            cx.check(out.empty(), "log:printed-by-other-writer", hist);
            for (auto &m : sent) {
                s[cur].want.push_back(m);
                size_t k = s[cur].want.size();
                bool ok  = s[cur].rec->got.size() == k && s[cur].rec->got[k - 1].first == m.first;
                if (ok && kd <= 7) ok = s[cur].rec->got[k - 1].second == m.second;
                cx.check(ok, "log:delivery", S() << "writer " << cur << " has " << s[cur].rec->got.size() << " of " << k << " after " << hist);
                cx.count("messages_recorded");
            }
        } else {
            for (auto &m : sent) {
                bool printed = m.first <= s[cur].level;
                cx.count(printed ? "messages_printed" : "messages_suppressed");
                if (!printed) cx.check(out.empty(), "log:printed-above-level", S() << "level " << s[cur].level << " message " << m.first << " after " << hist);
                else {
                    std::string low = out;
                    for (auto &c : low) c = (char)tolower(c);
                    bool ok = out.size() >= m.second.size() + 1 && out.back() == '\n' && out.find(m.second) != std::string::npos && low.find(NAMES[m.first / 10]) != std::string::npos;
                    size_t a = m.second.empty() ? std::string::npos : out.find(m.second);
                    if (ok && a != std::string::npos) ok = out.find(m.second, a + 1) == std::string::npos;
                    cx.check(ok, "log:not-printed", S() << "level " << s[cur].level << " message " << m.first << " printed [" << out << "] after " << hist);
                }
            }
            if (sent.empty()) cx.check(out.empty(), "log:spurious-output", out);
        }
        for (int i = 0; i < 2; i++) {
            cx.check(s[i].rec->got.size() == s[i].want.size(), "log:delivered-to-other-writer", hist);
            cx.check(s[i].rec->levels == s[i].levels, "log:level-forwarding", hist);
        }
    }
    // writers given up are released, not used again
    lg.set_current_writer(logrec());
    for (auto &q : s) cx.check(q.rec ? q.rec.use_count() == 1 : q.std_.use_count() == 1, "log:writer-kept");
    cx.sig("log" + hist.substr(0, 80));
}

// ---- requests ---------------------------------------------------------------------
static void builder_requests(Ctx &cx, Rng &r) {
    int n = r.i(2, 40), dim = r.i(2, 3);
    auto x   = geometry<C>(r, 0, n, dim);
    CluCfg a = random_clucfg(r, n, dim, 4);
    std::unique_ptr<Clu> t(make_cluster(a, n, dim, x)), s;
    CluCfg b = random_clucfg(r, n, dim, 4);
    s.reset(make_cluster(b, n, dim, x));
    int P = (int)t->get_clusters_on_partition().size();
    cx.descr = S() << "type=" << tname() << " builder n=" << n << " parts=" << P;
    for (int q = 0; q < 12; q++) {
        char sy = r.pick({'N', 'S', 'H', 'N', 'S', 'H', 'X', 'n', 's', ' '}), up_ = r.pick({'N', 'L', 'U', 'N', 'L', 'U', 'l', 'u', 'X'});
        if (r.p(0.4)) { // mostly right
            sy  = r.pick({'N', 'S', CPLX ? 'H' : 'S'});
            up_ = sy == 'N' ? 'N' : r.pick({'L', 'U'});
        }
        int tp = r.pick({-1, 0, P - 1, P, P + 3}), sp = r.pick({-1, 0, P - 1, P, P + 2});
        bool letters = (sy == 'N' && up_ == 'N') || ((sy == 'S' || (sy == 'H' && CPLX)) && (up_ == 'L' || up_ == 'U'));
        bool bad     = !letters || tp >= P || sp >= P;
        cx.descr     = S() << "type=" << tname() << " builder n=" << n << " parts=" << P << " sym=" << sy << up_ << " target=" << tp << " symmetry=" << sp;
        std::unique_ptr<htool::HMatrixTreeBuilder<T, C>> hb;
        bool square = sy != 'N';
        request(cx, bad, S() << "builder:" << (letters ? "" : "letters") << (tp >= P ? "+target" : "") << (sp >= P ? "+symmetry" : ""), [&]() { hb.reset(new htool::HMatrixTreeBuilder<T, C>(*t, square ? *t : *s, R(1e-3), C(10), sy, up_, -1, tp, sp)); }, false);
        if (hb && letters) {
            request(cx, sy != 'N', "consistency-off", [&]() { hb->set_block_tree_consistency(false); }, false);
            request(cx, false, "consistency-on", [&]() { hb->set_block_tree_consistency(true); }, false);
        }
        cx.evals++;
    }
    cx.sig(S() << "builder" << P);
}
static void all_nodes(const Clu &c, std::vector<const Clu *> &v) {
    v.push_back(&c);
    for (auto &q : c.get_children()) all_nodes(*q, v);
}
// 0 root, 1 on partition, 2 neither
static int place(const Clu &c, const Clu &root) {
    if (&c == &root) return 0;
    for (auto q : root.get_clusters_on_partition())
        if (q == &c) return 1;
    return 2;
}
static void numbering_requests(Ctx &cx, Rng &r) {
    int n = r.i(8, 80), dim = r.i(2, 3);
    auto x   = geometry<C>(r, 0, n, dim);
    CluCfg a = random_clucfg(r, n, dim, 4);
    std::unique_ptr<Clu> t(make_cluster(a, n, dim, x));
    const Clu &root = *t;
    bool local      = a.given;
    if (!local && a.size_part == 1) return; // one piece: local by nature, not flagged
    std::vector<const Clu *> v;
    all_nodes(root, v);
    std::vector<T> in(4 * n, T(1)), out(4 * n, T(0));
    for (int q = 0; q < 10; q++) {
        const Clu &c = q == 0 ? root : r.p(0.3) ? *root.get_clusters_on_partition()[r.i(0, a.size_part - 1)] : *r.pick(v);
        int pl       = place(c, root);
        int p        = r.i(0, a.size_part - 1);
        int w        = r.i(0, 5);
        T *i = in.data() + 2 * n, *o = out.data() + 2 * n;
        cx.descr     = S() << "type=" << tname() << " numbering n=" << n << " " << cdesc(a) << " request " << w << " place " << pl;
        switch (w) {
        case 0: request(cx, pl != 0, "root_cluster_to_global", [&]() { htool::root_cluster_to_global(c, i, o); }); break;
        case 1: request(cx, pl != 0, "global_to_root_cluster", [&]() { htool::global_to_root_cluster(c, i, o); }); break;
        case 2: request(cx, !local, "local_cluster_to_local", [&]() { htool::local_cluster_to_local(root, p, i, o); }); break;
        case 3: request(cx, !local, "local_to_local_cluster", [&]() { htool::local_to_local_cluster(root, p, i, o); }); break;
        case 4: request(cx, pl == 2 || (pl == 1 && !local), S() << "cluster_to_user:" << pl, [&]() { htool::cluster_to_user(c, i, o); }); break;
        default: request(cx, pl == 2 || (pl == 1 && !local), S() << "user_to_cluster:" << pl, [&]() { htool::user_to_cluster(c, i, o); });
        }
        cx.sig(S() << "numbering" << w << pl << local << a.size_part);
        cx.evals++;
    }
}
static void cluster_requests(Ctx &cx, Rng &r) {
    int n = r.i(2, 60);
    // spatial dimension
    {
        int dim  = r.i(1, 5);
        bool box = r.p(0.4);
        std::vector<C> x;
        for (int i = 0; i < n * dim; i++) x.push_back(C(r.u()));
        cx.descr = S() << "type=" << tname() << " cluster n=" << n << " dim=" << dim << (box ? " bounding box" : " largest extent");
        htool::ClusterTreeBuilder<C> b;
        b.set_minclustersize(1);
        if (box) b.set_direction_computation_strategy(std::make_shared<htool::ComputeBoundingBox<C>>());
        if (!box || dim == 2 || dim == 3) // a bounding box in other dimensions is neither documented nor refused
            request(cx, !box && dim != 2 && dim != 3, S() << "spatial-dimension:" << dim, [&]() { Clu t(b.create_cluster_tree(n, dim, x.data(), 2, 1)); });
        cx.sig(S() << "dim" << dim << box);
    }
    // partitions that cannot be reached
    {
        int dim = r.i(2, 3), nc = r.pick({2, 2, 3, 4, 5}), sp = r.i(1, 9), ms = r.pick({1, 2, 5, 10});
        auto x   = geometry<C>(r, r.p(0.5) ? 0 : 4, n, dim);
        bool bad = !partition_feasible(n, nc, sp, ms);
        cx.descr = S() << "type=" << tname() << " cluster n=" << n << " dim=" << dim << " children=" << nc << " parts=" << sp << " min=" << ms;
        htool::ClusterTreeBuilder<C> b;
        b.set_minclustersize(ms);
        request(cx, bad, "partition", [&]() { Clu t(b.create_cluster_tree(n, dim, x.data(), nc, sp)); });
        cx.sig(S() << "partition" << nc << sp << bad);
    }
    // files that are not there
    {
        int dim = r.i(2, 3);
        auto x  = geometry<C>(r, 0, n, dim);
        htool::ClusterTreeBuilder<C> b;
        b.set_minclustersize(1);
        CluCfg a = random_clucfg(r, n, dim, 2);
        std::unique_ptr<Clu> t(make_cluster(a, n, dim, x));
        std::string base = cx.scratch + "/r" + std::to_string(cx.mpi_rank) + "t", pf = base + "_cluster_tree_properties.csv", tf = base + "_cluster_tree.csv";
        unlink(pf.c_str());
        unlink(tf.c_str());
        request(cx, false, "save-tree", [&]() { htool::save_cluster_tree(*t, base); });
        int miss = r.i(0, 3);
        cx.descr = S() << "type=" << tname() << " read tree, missing " << miss;
        if (miss == 1 || miss == 3) unlink(tf.c_str());
        if (miss == 2 || miss == 3) unlink(pf.c_str());
        request(cx, miss != 0, S() << "read-tree:" << miss, [&]() { Clu u(htool::read_cluster_tree<C>(pf, tf)); });
    }
    cx.evals += 3;
}
static void hmatrix_requests(Ctx &cx, Rng &r) {
    Opts o;
    o.nmin = 2, o.nmax = 60;
    std::unique_ptr<Prob> p = random_prob(r, o);
    cx.descr = p->d;
    cx.progress();
    std::unique_ptr<HM> hp;
    request(cx, false, "build", [&]() { hp.reset(new HM(p->build())); });
    if (!hp) return;
    HM &h = *hp;
    omp_set_num_threads(p->threads);
    std::vector<const HM *> nodes;
    walk_nodes(h, [&](const HM &q) { nodes.push_back(&q); });
    const Clu &rt = *p->ct, &rs = p->same ? *p->ct : *p->cs;
    bool lt = rt.is_permutation_local(), ls = rs.is_permutation_local();
    bool greyt = p->spt == 1 && !lt, greys = p->sps == 1 && !ls;
    for (int q = 0; q < 5; q++) {
        const HM &A = q == 0 ? h : *r.pick(nodes);
        const Clu &a = A.get_target_cluster(), &b = A.get_source_cluster();
        int pa = place(a, rt), pb = place(b, rs);
        auto bad = [&](int pl, bool l) { return pl == 2 || (pl == 1 && !l); };
        std::vector<T> buf((size_t)(p->nt + 2) * (p->ns + 2) * 4);
        T *mid = buf.data() + buf.size() / 2;
        bool grey = (pa == 1 && greyt) || (pb == 1 && greys);
        bool sq   = a.get_offset() == b.get_offset() && a.get_size() == b.get_size();
        request(cx, false, "copy_to_dense", [&]() { htool::copy_to_dense(A, buf.data()); });
        if (!grey) request(cx, bad(pa, lt) || bad(pb, ls), S() << "copy_to_dense_in_user_numbering:" << pa << pb, [&]() { htool::copy_to_dense_in_user_numbering(A, mid); });
        request(cx, !sq, "copy_diagonal", [&]() { htool::copy_diagonal(A, mid); });
        if (!grey && (p->same || !sq)) {
            bool badd = !sq || bad(pa, lt) || bad(pb, ls) || pa != pb;
            request(cx, badd, S() << "copy_diagonal_in_user_numbering:" << pa << pb << sq, [&]() { htool::copy_diagonal_in_user_numbering(A, mid); });
        }
        cx.sig(S() << "user" << pa << pb << lt << ls << sq);
    }
    // products
    for (int q = 0; q < 6; q++) {
        char ta   = r.pick({'N', 'T', 'C'});
        bool unsu = (ta == 'T' && p->sym == 'H') || (ta == 'C' && p->sym == 'S');
        if (!CPLX && unsu) continue;
        int mu = r.i(1, 4), w = r.i(0, 2);
        std::vector<T> x = rvec(r, (size_t)(h.nb_rows() + h.nb_cols()) * mu * 2), y = rvec(r, x.size());
        cx.descr = S() << p->d << " product " << w << " " << ta << " mu=" << mu;
        bool badb = w == 2 && r.p(0.3);
        if (w == 0) request(cx, unsu, S() << "vector-product:" << ta << p->sym, [&]() { htool::openmp_internal_add_hmatrix_vector_product(ta, T(1), h, x.data(), T(0), y.data()); });
        if (w == 1) request(cx, unsu, S() << "sequential-vector-product:" << ta << p->sym, [&]() { htool::sequential_internal_add_hmatrix_vector_product(ta, T(1), h, x.data(), T(1), y.data()); });
        if (w == 2) {
            if (r.p(0.5)) request(cx, unsu || badb, S() << "row-major-product:" << ta << p->sym << badb, [&]() { htool::sequential_internal_add_hmatrix_matrix_product_row_major(ta, badb ? 'T' : 'N', T(1), h, x.data(), T(1), y.data(), mu); });
            else request(cx, unsu || badb, S() << "parallel-row-major-product:" << ta << p->sym << badb, [&]() { htool::openmp_internal_add_hmatrix_matrix_product_row_major(ta, badb ? 'T' : 'N', T(1), h, x.data(), T(1), y.data(), mu); });
        }
        cx.sig(S() << "product" << w << ta << p->sym << badb);
    }
    request(cx, false, "information", [&]() {
        std::ostringstream s1;
        htool::get_hmatrix_information(h);
        htool::get_tree_parameters(h);
        HM copy(h);
        htool::scale(T(2), copy);
    });
    cx.evals += 12;
}
struct Always : htool::VirtualAdmissibilityCondition<C> {
    bool ComputeAdmissibility(const Clu &, const Clu &, double) const override { return true; }
};
static void factorisation_requests(Ctx &cx, Rng &r) {
    Opts o;
    o.nmin = 2, o.nmax = 50;
    o.square = true;
    o.solve  = true;
    o.allow_part = o.allow_incons = o.allow_dups = o.allow_reqrank = false;
    o.epshi = 1e-6;
    auto p = random_prob(r, o);
    int kind = r.i(0, 3);
    if (p->sym == 'S' && CPLX) kind = 3;
    if (kind == 0) p->adm = std::make_shared<Always>(), p->mint = p->mins = 0, p->ker.diag = 0, p->lrk = 3, p->epsilon = 0.5;
    cx.descr = S() << p->d << " factorisation kind " << kind;
    cx.progress();
    if (kind == 1) { // inconsistent block tree: reported whatever its shape
        p->sym = p->uplo = 'N';
        p->consistent    = false;
    }
    HM h = p->build();
    if (kind == 0 && !h.is_low_rank()) return;
    bool bad = kind <= 1;
    // the solves convert the right-hand sides: on a part, the permutation must be local
    bool part = p->mode == 2, loc = p->ct->is_permutation_local(), grey = part && !loc && p->spt == 1, solve = !bad && !grey && r.p(0.6);
    if (solve && part && !loc) bad = true;
    if (r.p(0.5) || p->sym != 'N') {
        char up_ = p->sym != 'N' ? p->uplo : r.pick({'L', 'U'});
        if (!bad && (p->sym == 'N' || p->sym == 'S') && (CPLX || p->ker.sym == 'N')) return; // not positive definite
        request(cx, bad, S() << "cholesky:" << kind << solve << part, [&]() {
            htool::cholesky_factorization(up_, h);
            if (!solve) return;
            Mat B(h.nb_rows(), 2);
            B = T(1);
            htool::cholesky_solve(up_, h, B);
        });
    } else
        request(cx, bad, S() << "lu:" << kind << solve << part, [&]() {
            htool::lu_factorization(h);
            if (!solve) return;
            Mat B(h.nb_rows(), 2);
            B = T(1);
            htool::lu_solve('N', h, B);
        });
    if (kind == 0) {
        HM B = p->build();
        request(cx, true, "triangular-solve-with-low-rank-triangle", [&]() { htool::internal_triangular_hmatrix_hmatrix_solve('L', 'L', 'N', 'N', T(1), h, B); });
    }
    cx.sig(S() << "factor" << kind << p->sym << p->mode);
    cx.evals++;
}
static void lowrank_requests(Ctx &cx, Rng &r) {
    int n = r.i(12, 60), dim = 2;
    auto x   = geometry<C>(r, 0, n, dim);
    CluCfg a = random_clucfg(r, n, dim, 2);
    a.minsize = std::min(a.minsize, 3);
    std::unique_ptr<Clu> t(make_cluster(a, n, dim, x));
    std::vector<const Clu *> v;
    all_nodes(*t, v);
    const Clu &xt = *r.pick(v), &xs = *r.pick(v), &yt = r.p(0.5) ? *t : *r.pick(v), &ys = r.p(0.5) ? *t : *r.pick(v);
    auto inside = [](const Clu &big, const Clu &small) { return big.get_offset() <= small.get_offset() && big.get_offset() + big.get_size() >= small.get_offset() + small.get_size(); };
    bool bad = !(inside(yt, xt) && inside(ys, xs)) && !(inside(xt, yt) && inside(xs, ys));
    auto mk  = [&](const Clu &p, const Clu &q) {
        int k = r.i(1, 2);
        std::unique_ptr<LR> l(new LR(R(1e-6)));
        l->get_U().resize(p.get_size(), k);
        l->get_V().resize(k, q.get_size());
        for (int i = 0; i < p.get_size() * k; i++) l->get_U().data()[i] = rnd(r);
        for (int i = 0; i < q.get_size() * k; i++) l->get_V().data()[i] = rnd(r);
        return l;
    };
    auto X = mk(xt, xs), Y = mk(yt, ys);
    cx.descr = S() << "type=" << tname() << " lowrank sum " << xt.get_size() << "x" << xs.get_size() << " into " << yt.get_size() << "x" << ys.get_size();
    request(cx, bad, "lowrank-sum", [&]() { htool::add_lrmat_lrmat(*X, xt, xs, *Y, yt, ys); });
    cx.sig(S() << "lowrank" << bad);
    cx.evals++;
}
static void operator_requests(Ctx &cx, Rng &r) { // same generator state on every rank
    int P = World::get().size;
    Opts o;
    o.nmin = 6 * P, o.nmax = 60;
    o.parts = P;
    o.given = r.p(0.5);
    o.allow_part = o.allow_local = o.allow_incons = o.allow_depths = false;
    auto p = random_prob(r, o);
    if (P == 1 && !(p->ct->is_permutation_local())) return;
    bool local = p->ct->is_permutation_local() && (p->same || p->cs->is_permutation_local());
    int rank   = World::get().rank;
    cx.descr   = S() << "operator P=" << P << " " << p->d;
    cx.progress();
    KGen g(p->ker);
    std::unique_ptr<htool::DefaultApproximationBuilder<T, C>> b;
    request(cx, false, "operator", [&]() { b.reset(new htool::DefaultApproximationBuilder<T, C>(g, *p->tc, *p->sc, R(p->epsilon), C(p->eta), p->sym, p->uplo, MPI_COMM_WORLD)); });
    if (!b) return;
    auto &A = b->distributed_operator;
    const Clu &tl = *p->tc->get_clusters_on_partition()[rank], &sl = *p->sc->get_clusters_on_partition()[rank];
    (void)tl, (void)sl;
    for (int q = 0; q < 6; q++) {
        bool perm = r.p(0.6);
        int e = r.i(0, 7), mu = r.i(1, 3);
        A.use_permutation() = perm;
        std::vector<T> x = rvec(r, (size_t)(p->nt + p->ns) * 2 * mu), y(x.size());
        T *xi = x.data() + x.size() / 2, *yo = y.data() + y.size() / 2;
        bool bad = e >= 4 && perm && !local;
        cx.descr = S() << "operator P=" << P << " " << EN[e] << (perm ? " user " : " cluster ") << p->d;
        request(cx, bad, S() << "distributed:" << EN[e], [&]() {
            switch (e) {
            case 0: A.vector_product_global_to_global(x.data(), y.data()); break;
            case 1: A.matrix_product_global_to_global(x.data(), y.data(), mu); break;
            case 2: A.vector_product_transp_global_to_global(x.data(), y.data()); break;
            case 3: A.matrix_product_transp_global_to_global(x.data(), y.data(), mu); break;
            case 4: A.vector_product_local_to_local(xi, yo); break;
            case 5: A.matrix_product_local_to_local(xi, yo, mu); break;
            case 6: A.vector_product_transp_local_to_local(xi, yo); break;
            case 7: A.matrix_product_transp_local_to_local(xi, yo, mu); break;
            }
        });
        cx.sig(S() << "operator" << e << perm << local << p->sym);
        cx.evals++;
    }
    // a local operator with an unknown symmetry letter
    {
        char sy   = r.pick({'N', 'S', 'X', 's'});
        bool bad  = sy != 'N' && sy != 'S';
        int n     = p->nt, mu = r.i(1, 3);
        Mat M(n, n);
        for (int i = 0; i < n * n; i++) M.data()[i] = rnd(r);
        htool::LocalDenseMatrix<T, C> L(M, *p->ct, *p->ct, sy, sy == 'N' ? 'N' : 'L', r.p(0.5), r.p(0.5));
        std::vector<T> x = rvec(r, (size_t)n * mu), y = rvec(r, x.size());
        int w = r.i(0, 3);
        request(cx, bad, S() << "local-operator:" << w << sy, [&]() {
            switch (w) {
            case 0: L.add_vector_product_global_to_local(T(1), x.data(), T(1), y.data()); break;
            case 1: L.add_matrix_product_global_to_local(T(1), x.data(), T(1), y.data(), mu); break;
            case 2: L.add_vector_product_transp_local_to_global(T(1), x.data(), T(1), y.data()); break;
            default: L.add_matrix_product_transp_local_to_global(T(1), x.data(), T(1), y.data(), mu);
            }
        });
    }
}
void vf_case(Ctx &cx) {
    logrec();
    mkdir(cx.scratch.c_str(), 0700);
    int kind = cx.rng.i(0, 9);
    if (kind == 9) {
        operator_requests(cx, cx.rng);
        return;
    }
    Rng r(cx.rng.next() + 7919ull * World::get().rank); // each rank on its own
    switch (kind) {
    case 0:
    case 1: log_histories(cx, r); break;
    case 2: builder_requests(cx, r); break;
    case 3: numbering_requests(cx, r); break;
    case 4: cluster_requests(cx, r); break;
    case 5:
    case 6: hmatrix_requests(cx, r); break;
    case 7: factorisation_requests(cx, r); break;
    case 8: lowrank_requests(cx, r); break;
    }
    cx.evals++;
}
} // namespace vf
