// C22: reported information and exports match the actual structure, locally and reduced over MPI ranks.
#include "mpix.hpp"
#include <htool/clustering/cluster_output.hpp>
#include <htool/hmatrix/hmatrix_distributed_output.hpp>
#include <htool/hmatrix/hmatrix_output.hpp>
using namespace vf;
namespace vf {
typedef std::map<std::string, std::string> Info;
static std::string dir(const Ctx &cx) { return cx.scratch + "/r" + file_name(cx.k, World::get().rank) + "_"; }
struct Stat {
    double mx = 0, sum = 0, mn = INFINITY;
    long n = 0;
    void add(double x) {
        mx = std::max(mx, x);
        mn = std::min(mn, x);
        sum += x;
        n++;
    }
    void merge(const Stat &s) {
        mx = std::max(mx, s.mx);
        mn = std::min(mn, s.mn);
        sum += s.sum;
        n += s.n;
    }
    double mean() const { return n ? sum / n : 0; }
    double min() const { return n ? mn : 0; }
};
struct Measure {
    Stat dense, lr, rank;
    double generated = 0, total = 0;
};
// recomputed from the leaves
static Measure measure(const HM &h) {
    Measure m;
    m.total = (double)h.nb_rows() * h.nb_cols();
    walk_leaves(h, [&](const HM &l) {
        double a = l.get_target_cluster().get_size(), b = l.get_source_cluster().get_size();
        if (l.get_low_rank_data()) {
            double k = l.get_low_rank_data()->get_U().nb_cols();
            m.lr.add(a * b);
            m.rank.add(k);
            m.generated += k * (a + b);
        } else {
            m.dense.add(a * b);
            m.generated += l.get_symmetry() != 'N' ? std::floor(a * (a + 1) / 2) : a * b;
        }
    });
    return m;
}
static bool near(const std::string &s, double v) {
    char *e  = nullptr;
    double x = strtod(s.c_str(), &e);
    if (e == s.c_str()) return false;
    if (x == v) return true;
    return std::abs(x - v) <= 1.1e-6 + 1e-12 * std::abs(v);
}
static void expect(Ctx &cx, const Info &m, const std::string &k, double v, const char *tag) {
    auto it = m.find(k);
    if (!cx.check(it != m.end(), S() << tag << ":missing:" << k)) return;
    cx.check(near(it->second, v), S() << tag << ":" << k, S() << "reported " << it->second << " instead of " << std::setprecision(12) << v);
    cx.count("values");
}
static void expect_measure(Ctx &cx, const Info &i, const Measure &m, const char *tag) {
    expect(cx, i, "Dense_block_size_max", m.dense.mx, tag);
    expect(cx, i, "Dense_block_size_mean", m.dense.mean(), tag);
    expect(cx, i, "Dense_block_size_min", m.dense.min(), tag);
    expect(cx, i, "Low_rank_block_size_max", m.lr.mx, tag);
    expect(cx, i, "Low_rank_block_size_mean", m.lr.mean(), tag);
    expect(cx, i, "Low_rank_block_size_min", m.lr.min(), tag);
    expect(cx, i, "Rank_max", m.rank.mx, tag);
    expect(cx, i, "Rank_mean", m.rank.mean(), tag);
    expect(cx, i, "Rank_min", m.rank.min(), tag);
    expect(cx, i, "Number_of_low_rank_blocks", m.lr.n, tag);
    expect(cx, i, "Number_of_dense_blocks", m.dense.n, tag);
    if (m.generated > 0) expect(cx, i, "Compression_ratio", m.total / m.generated, tag);
    expect(cx, i, "Space_saving", 1 - m.generated / m.total, tag);
}
static std::vector<std::vector<std::string>> csv(const std::string &f, bool &ok) {
    std::vector<std::vector<std::string>> out;
    std::ifstream in(f);
    ok = (bool)in;
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        std::vector<std::string> v;
        std::stringstream s(line);
        std::string c;
        while (std::getline(s, c, ',')) v.push_back(c);
        out.push_back(v);
    }
    return out;
}
static bool integer(const std::string &s) {
    if (s.empty()) return false;
    size_t q = s[0] == '-' ? 1 : 0;
    return q < s.size() && s.find_first_not_of("0123456789", q) == std::string::npos;
}
typedef std::multiset<std::array<int, 5>> Blocks;
static void read_blocks(Ctx &cx, const HM &h, const std::string &file, const Blocks &want, const std::string &tag) {
    bool ok;
    auto rows = csv(file, ok);
    if (!cx.check(ok, tag + ":file-missing", file)) return;
    unlink(file.c_str());
    if (!cx.check(!rows.empty() && rows[0].size() == 2 && rows[0][0] == strc(h.nb_rows()) && rows[0][1] == strc(h.nb_cols()), tag + ":header")) return;
    Blocks got;
    for (size_t q = 1; q < rows.size(); q++) {
        bool good = rows[q].size() == 5;
        for (auto &s : rows[q]) good = good && integer(s);
        if (!cx.check(good, tag + ":malformed-record")) return;
        std::array<int, 5> a;
        for (int j = 0; j < 5; j++) a[j] = std::stoi(rows[q][j]);
        got.insert(a);
    }
    std::string d;
    for (auto &a : got)
        if (got.count(a) != want.count(a)) d = S() << "record " << a[0] << "," << a[1] << "," << a[2] << "," << a[3] << "," << a[4] << " " << got.count(a) << " times instead of " << want.count(a);
    if (got.size() != want.size()) d += S() << " " << got.size() << " records instead of " << want.size();
    cx.check(got == want, tag + ":records", d);
    cx.count("records", got.size());
}
static std::array<int, 5> record(const HM &h, const HM &l) {
    int k = l.get_low_rank_data() ? l.get_low_rank_data()->get_U().nb_cols() : -1;
    return {l.get_target_cluster().get_offset() - h.get_target_cluster().get_offset(), l.get_target_cluster().get_size(), l.get_source_cluster().get_offset() - h.get_source_cluster().get_offset(), l.get_source_cluster().get_size(), k};
}
// printed form: one "key___value" line per entry after the title, formatting of the stream restored
template <class F>
static void printed(Ctx &cx, const Info &i, F print, const std::string &tag) {
    std::ostringstream o;
    o << std::setfill('*') << std::setprecision(3);
    print(o);
    cx.check(o.fill() == '*' && o.precision() == 3 && (o.flags() & std::ios::adjustfield) == 0, tag + ":stream-format-not-restored");
    std::map<std::string, std::string> seen;
    std::stringstream s(o.str());
    std::string line;
    int n = 0;
    while (std::getline(s, line)) {
        if (line.empty()) continue;
        if (n++ == 0) continue;
        bool found = false;
        for (auto &e : i) // longest keys may be a prefix of others: value decides
            if (line.compare(0, e.first.size(), e.first) == 0) {
                std::string rest = line.substr(e.first.size());
                size_t p         = rest.find_first_not_of('_');
                rest             = p == std::string::npos ? "" : rest.substr(p);
                if (rest == e.second || e.first.find("time") != std::string::npos) {
                    seen[e.first] = rest;
                    found         = true;
                }
            }
        cx.check(found, tag + ":unexpected-line", line);
    }
    cx.check(seen.size() == i.size() && n == (int)i.size() + 1, tag + ":entries", S() << n - 1 << " lines for " << i.size() << " entries");
    cx.count("printed");
}
static void geometry_export(Ctx &cx, Rng &r, const Clu &c, int dim, const std::vector<C> &x) {
    std::vector<int> depths;
    int md = 0;
    std::function<void(const Clu &)> deep = [&](const Clu &q) {
        md = std::max(md, (int)q.get_depth());
        for (auto &k : q.get_children()) deep(*k);
    };
    deep(c);
    for (int d = 0; d <= md; d++)
        if (r.p(0.6)) depths.push_back(d);
    if (r.p(0.3)) std::reverse(depths.begin(), depths.end());
    std::string f = dir(cx) + "geo";
    int n = c.get_size();
    htool::save_clustered_geometry(c, dim, x.data(), f, depths);
    bool ok;
    auto rows = csv(f + ".csv", ok);
    if (!cx.check(ok, "geometry:file-missing")) return;
    unlink((f + ".csv").c_str());
    if (!cx.check(rows.size() == (size_t)dim + depths.size(), "geometry:rows", S() << rows.size())) return;
    for (int d = 0; d < dim; d++) {
        if (!cx.check(rows[d].size() == (size_t)n + 1 && rows[d][0] == S().operator<<("x_").operator<<(d).o.str(), "geometry:coordinate-row")) return;
        for (int i = 0; i < n; i++) {
            double v = strtod(rows[d][i + 1].c_str(), nullptr), w = (double)x[(size_t)c.get_permutation()[i] * dim + d];
            if (!cx.check(std::abs(v - w) <= 1e-5 * std::abs(w), "geometry:coordinate", S() << v << " instead of " << w)) return;
        }
    }
    for (size_t q = 0; q < depths.size(); q++) {
        auto &row = rows[dim + q];
        if (!cx.check(row.size() == (size_t)n + 1 && row[0] == strc(depths[q]), "geometry:label-row")) return;
        std::vector<const Clu *> at;
        std::function<void(const Clu &)> collect = [&](const Clu &k) {
            if ((int)k.get_depth() == depths[q]) at.push_back(&k);
            for (auto &s : k.get_children()) collect(*s);
        };
        collect(c);
        std::sort(at.begin(), at.end(), [](const Clu *a, const Clu *b) { return a->get_offset() < b->get_offset(); });
        for (size_t a = 0; a < at.size(); a++)
            for (int i = 0; i < at[a]->get_size(); i++)
                if (!cx.check(row[1 + at[a]->get_offset() + i] == strc(a), "geometry:label", S() << "point " << i << " of cluster " << a << " at depth " << depths[q] << " labelled " << row[1 + at[a]->get_offset() + i])) return;
        cx.count("labels", n);
    }
    cx.count(S() << "geometry_exports_" << dim << "d");
}
struct All : htool::VirtualAdmissibilityCondition<C> {
    bool ComputeAdmissibility(const Clu &, const Clu &, double) const override { return true; }
};
struct RankOne : htool::VirtualLowRankGenerator<T, C> {
    void copy_low_rank_approximation(const htool::VirtualInternalGenerator<T> &, const Clu &t, const Clu &s, htool::underlying_type<T>, int &rank, Mat &U, Mat &V) const override { go(t, s, rank, U, V); }
    static bool go(const Clu &t, const Clu &s, int &rank, Mat &U, Mat &V) {
        rank = 1;
        U.resize(t.get_size(), 1);
        V.resize(1, s.get_size());
        std::fill_n(U.data(), t.get_size(), T(1));
        std::fill_n(V.data(), s.get_size(), T(1));
        return true;
    }
};
struct Ones : htool::VirtualInternalGenerator<T> {
    void copy_submatrix(int M, int N, int, int, T *p) const override { std::fill_n(p, (size_t)M * N, T(1)); }
};
static void local_checks(Ctx &cx, Rng &r) {
    Opts o;
    o.nmax = cx.thorough ? 200 : 120;
    if (cx.tail(43, 13)) o.nmin = 250, o.nmax = 450; // a few larger problems among the cases
    auto p = random_prob(r, o);
    cx.desc("local[" + p->d + "]");
    if (p->sym == 'N' && r.p(0.15)) p->adm = std::make_shared<All>();
    HM h = p->build();
    omp_set_num_threads(r.i(1, 3));
    Rep rep = represented(h, *p);
    // parameters
    Info t = htool::get_tree_parameters(h);
    expect(cx, t, "Eta", (double)C(p->eta), "parameters");
    expect(cx, t, "Epsilon", (double)R(p->epsilon), "parameters");
    expect(cx, t, "MinTargetDepth", p->mint, "parameters");
    expect(cx, t, "MinSourceDepth", p->mins, "parameters");
    for (int s = 0; s < 2; s++) {
        const Clu *root = s ? (p->same ? p->ct.get() : p->cs.get()) : p->ct.get();
        int lo = 1 << 30, hi = 0;
        std::function<void(const Clu &)> walk = [&](const Clu &c) {
            if (c.get_children().empty()) {
                lo = std::min(lo, (int)c.get_depth());
                hi = std::max(hi, (int)c.get_depth());
            }
            for (auto &k : c.get_children()) walk(*k);
        };
        walk(*root);
        expect(cx, t, s ? "MaxClusterDepthSource" : "MaxClusterDepthTarget", hi, "parameters");
        expect(cx, t, s ? "MinClusterDepthSource" : "MinClusterDepthTarget", lo, "parameters");
        expect(cx, t, s ? "MinClusterSizeSource" : "MinClusterSizeTarget", s && !p->same ? p->minsize_s : p->minsize_t, "parameters");
    }
    printed(cx, t, [&](std::ostream &os) { htool::print_tree_parameters(h, os); }, "print-parameters");
    // information of the whole matrix and of one sub-block
    std::vector<const HM *> nodes;
    walk_nodes(h, [&](const HM &n) { nodes.push_back(&n); });
    for (const HM *n : {(const HM *)&h, nodes[r.i(0, (int)nodes.size() - 1)]}) {
        Measure m = measure(*n);
        Info i    = htool::get_hmatrix_information(*n);
        expect(cx, i, "Target_size", n->nb_rows(), "information");
        expect(cx, i, "Source_size", n->nb_cols(), "information");
        expect_measure(cx, i, m, "information");
        expect(cx, i, "Number_of_threads", omp_get_max_threads(), "information");
        if (n == &h) {
            // admissible blocks that had to be stored densely; only sizes and depths decide admissibility here
            auto adm = p->adm ? p->adm : std::make_shared<htool::RjasanowSteinbach<C>>();
            long fp  = 0;
            walk_leaves(h, [&](const HM &l) {
                const Clu &a = l.get_target_cluster(), &b = l.get_source_cluster();
                if (l.is_dense() && adm->ComputeAdmissibility(a, b, C(p->eta)) && (int)a.get_depth() >= p->mint && (int)b.get_depth() >= p->mins && a.get_rank() >= 0 && (!p->consistent || b.get_rank() >= 0)) fp++;
            });
            expect(cx, i, "Number_of_false_positive", fp, "information");
            cx.count("false_positives", fp);
            for (auto &e : {"Block_tree_walltime", "Blocks_computation_walltime"}) cx.check(i.count(e) && strtod(i[e].c_str(), nullptr) >= 0, S() << "information:timing:" << e);
        }
        printed(cx, i, [&](std::ostream &os) { htool::print_hmatrix_information(*n, os); }, "print-information");
        cx.count("informations");
        // exported block list
        Blocks want;
        walk_leaves(*n, [&](const HM &l) { want.insert(record(*n, l)); });
        htool::save_leaves_with_rank(*n, dir(cx) + "leaves");
        read_blocks(cx, *n, dir(cx) + "leaves.csv", want, "leaves");
        int md = 0;
        walk_nodes(*n, [&](const HM &l) { md = std::max(md, (int)l.get_depth()); });
        std::vector<int> depths;
        for (int d = 0; d <= md; d++)
            if (r.p(0.5)) depths.push_back(d);
        if (r.p(0.3)) std::reverse(depths.begin(), depths.end());
        htool::save_levels(*n, dir(cx) + "level", depths);
        for (size_t q = 0; q < depths.size(); q++) {
            Blocks w;
            walk_nodes(*n, [&](const HM &l) {
                if ((int)l.get_depth() == depths[q]) w.insert(record(*n, l));
            });
            read_blocks(cx, *n, S() << dir(cx) << "level" << q << ".csv", w, "levels");
        }
    }
    geometry_export(cx, r, *p->ct, p->dim, p->xt);
    if (rep.nleaf > 1) cx.sig(repclass(rep, *p));
    if (rep.rank0) cx.count("rank_zero_cases");
}
// more than 2^32 entries: sizes must not wrap
static void large(Ctx &cx, Rng &r) {
    int n = r.i(66000, 72000), m = r.i(66000, 72000);
    std::vector<C> x((size_t)n * 2), y((size_t)m * 2);
    for (auto &v : x) v = C(r.u());
    for (auto &v : y) v = C(r.u());
    htool::ClusterTreeBuilder<C> b;
    b.set_minclustersize(r.pick({20000, 40000}));
    Clu ct = b.create_cluster_tree(n, 2, x.data(), 2, 1), cs = b.create_cluster_tree(m, 2, y.data(), 2, 1);
    htool::HMatrixTreeBuilder<T, C> hb(ct, cs, R(1e-3), C(1), 'N', 'N', -1, -1, -1);
    hb.set_low_rank_generator(std::make_shared<RankOne>());
    hb.set_admissibility_condition(std::make_shared<All>());
    int d = r.i(0, 2);
    hb.set_minimal_target_depth(d);
    hb.set_minimal_source_depth(d);
    cx.desc(S() << "large " << n << "x" << m << " depth " << d);
    HM h      = hb.build(Ones());
    Measure q = measure(h);
    Info i    = htool::get_hmatrix_information(h);
    expect_measure(cx, i, q, "large-information");
    Info di = htool::get_distributed_hmatrix_information(h, MPI_COMM_SELF);
    expect_measure(cx, di, q, "large-distributed-information");
    cx.count("large_cases");
}
static void reduce(Measure &m, MPI_Comm c) {
    for (Stat *s : {&m.dense, &m.lr, &m.rank}) {
        double mx = s->mx, mn = s->mn, sum = s->sum;
        long n = s->n;
        MPI_Allreduce(&mx, &s->mx, 1, MPI_DOUBLE, MPI_MAX, c);
        MPI_Allreduce(&mn, &s->mn, 1, MPI_DOUBLE, MPI_MIN, c);
        MPI_Allreduce(&sum, &s->sum, 1, MPI_DOUBLE, MPI_SUM, c);
        MPI_Allreduce(&n, &s->n, 1, MPI_LONG, MPI_SUM, c);
    }
    double a[2] = {m.generated, m.total}, b[2];
    MPI_Allreduce(a, b, 2, MPI_DOUBLE, MPI_SUM, c);
    m.generated = b[0];
    m.total     = b[1];
}
static void distributed(Ctx &cx, Rng &r) {
    int np = World::get().size, P = r.p(0.5) ? np : r.i(1, np);
    Sub sub(r, P);
    if (sub.comm == MPI_COMM_NULL) return;
    Opts o;
    o.nmin       = std::max(P, 2);
    o.nmax       = cx.thorough ? 160 : 100;
    if (cx.tail(43, 13)) o.nmin = 200, o.nmax = 400; // a few larger problems among the cases
    o.parts      = P;
    o.given      = r.p(0.6) ? 1 : -1;
    o.allow_part = o.allow_local = false;
    auto p       = random_prob(r, o);
    p->tpart     = sub.rank;
    if (p->sym != 'N') p->spart = sub.rank;
    cx.desc(S() << "distributed P=" << P << " [" << p->d << "]");
    HM h = p->build();
    omp_set_num_threads(2);
    Measure m = measure(h);
    long fp;
    {
        Info l = htool::get_hmatrix_information(h);
        expect_measure(cx, l, m, "rank-information");
        long f = strtol(l["Number_of_false_positive"].c_str(), nullptr, 10);
        MPI_Allreduce(&f, &fp, 1, MPI_LONG, MPI_SUM, sub.comm);
    }
    reduce(m, sub.comm);
    Stat rows, cols;
    rows.add(h.nb_rows());
    cols.add(h.nb_cols());
    Measure z;
    z.dense = rows;
    z.lr    = cols;
    reduce(z, sub.comm);
    Info i = htool::get_distributed_hmatrix_information(h, sub.comm);
    std::ostringstream os;
    htool::print_distributed_hmatrix_information(h, os, sub.comm);
    if (sub.rank == 0) {
        expect_measure(cx, i, m, "distributed");
        expect(cx, i, "Target_size_max", z.dense.mx, "distributed");
        expect(cx, i, "Target_size_min", z.dense.min(), "distributed");
        expect(cx, i, "Target_size_mean", z.dense.mean(), "distributed");
        expect(cx, i, "Source_size_max", z.lr.mx, "distributed");
        expect(cx, i, "Source_size_min", z.lr.min(), "distributed");
        expect(cx, i, "Source_size_mean", z.lr.mean(), "distributed");
        expect(cx, i, "Number_of_MPI_tasks", P, "distributed");
        expect(cx, i, "Number_of_threads_per_tasks", omp_get_max_threads(), "distributed");
        expect(cx, i, "Number_of_procs", P * omp_get_max_threads(), "distributed");
        expect(cx, i, "Number_of_false_positive", fp, "distributed");
        for (std::string t : {"Block_tree_walltime", "Blocks_computation_walltime"}) {
            double a = strtod(i[t + "_min"].c_str(), nullptr), b = strtod(i[t + "_mean"].c_str(), nullptr), c = strtod(i[t + "_max"].c_str(), nullptr);
            cx.check(i.count(t + "_min") && 0 <= a && a <= b + 2e-6 && b <= c + 2e-6, "distributed:timings");
        }
        printed(cx, i, [&](std::ostream &o2) { o2 << os.str(); }, "print-distributed");
        if (P > 1) cx.count("reduced");
        if (P > 1) cx.sig(S() << "D" << P << p->sym << p->uplo << (m.lr.n > 0) << (m.dense.n > 0) << p->lrk << p->consistent);
    } else cx.check(os.str().empty(), "printed-on-another-rank");
}
void vf_case(Ctx &cx) {
    logrec();
    Rng own(cx.rng.next() + 7919 * (uint64_t)World::get().rank);
    if (cx.tail(60, 7) && World::get().rank == 0) large(cx, own);
    local_checks(cx, own);
    distributed(cx, cx.rng);
}
} // namespace vf
