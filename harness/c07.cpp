// C07: recording generators - range, numbering, exactness of dense leaves, each leaf served exactly once.
#include "hmx.hpp"
using namespace vf;
namespace vf {
typedef std::array<int, 4> BK;
static BK bk(const Clu &t, const Clu &s) { return BK{{t.get_offset(), t.get_size(), s.get_offset(), s.get_size()}}; }
// every (row, column) pair has its own value, so a misplaced entry cannot go unnoticed; smooth part keeps compressors busy
struct HashKernel {
    const Kernel *k = nullptr;
    bool smooth     = false;
    T operator()(int i, int j) const {
        if (smooth) return (*k)(i, j);
        int a[2] = {i, j};
        uint64_t h = fnvb(a, sizeof a);
        Rng q(h);
        return rnd(q);
    }
};
struct Rec {
    std::mutex m;
    std::string bad, badkey;
    std::atomic<long> calls{0}, entries{0};
    void fail(const std::string &k, const std::string &s) {
        std::lock_guard<std::mutex> g(m);
        if (badkey.empty()) {
            badkey = k;
            bad    = s;
        }
    }
};
struct UserGen : htool::VirtualGenerator<T> {
    const HashKernel &k;
    Rec &rec;
    const std::set<int> &rows, &cols; // user numbering index sets allowed
    UserGen(const HashKernel &k_, Rec &r_, const std::set<int> &a, const std::set<int> &b) : k(k_), rec(r_), rows(a), cols(b) {}
    void copy_submatrix(int M, int N, const int *r, const int *c, T *ptr) const override {
        rec.calls++;
        rec.entries += (long)M * N;
        if (M <= 0 || N <= 0 || !r || !c || !ptr) return rec.fail("bad-request", S() << M << "x" << N);
        for (int i = 0; i < M; i++)
            if (!rows.count(r[i])) return rec.fail("row-out-of-range", strc(r[i]));
        for (int j = 0; j < N; j++)
            if (!cols.count(c[j])) return rec.fail("column-out-of-range", strc(c[j]));
        for (int j = 0; j < N; j++)
            for (int i = 0; i < M; i++) ptr[i + (size_t)M * j] = k(r[i], c[j]);
    }
};
struct IntGen : htool::VirtualInternalGenerator<T> {
    const HashKernel &k;
    Rec &rec;
    const std::vector<int> &pt, &ps;
    int r0, r1, c0, c1;
    IntGen(const HashKernel &k_, Rec &r_, const std::vector<int> &a, const std::vector<int> &b, int r0_, int r1_, int c0_, int c1_) : k(k_), rec(r_), pt(a), ps(b), r0(r0_), r1(r1_), c0(c0_), c1(c1_) {}
    void copy_submatrix(int M, int N, int ro, int co, T *ptr) const override {
        rec.calls++;
        rec.entries += (long)M * N;
        if (M <= 0 || N <= 0 || !ptr) return rec.fail("bad-request", S() << M << "x" << N);
        if (ro < r0 || ro + M > r1) return rec.fail("row-out-of-range", S() << ro << "+" << M);
        if (co < c0 || co + N > c1) return rec.fail("column-out-of-range", S() << co << "+" << N);
        for (int j = 0; j < N; j++)
            for (int i = 0; i < M; i++) ptr[i + (size_t)M * j] = k(pt[ro + i], ps[co + j]);
    }
};
struct LrSpy : htool::VirtualLowRankGenerator<T, C> {
    std::shared_ptr<htool::VirtualLowRankGenerator<T, C>> in;
    mutable std::mutex m;
    mutable std::map<BK, int> n;
    mutable std::set<double> epss;
    mutable std::set<int> ranks;
    mutable std::map<BK, std::pair<uint64_t, uint64_t>> dig;
    void copy_low_rank_approximation(const htool::VirtualInternalGenerator<T> &A, const Clu &t, const Clu &s, R eps, int &rank, Mat &U, Mat &V) const override {
        {
            std::lock_guard<std::mutex> g(m);
            n[bk(t, s)]++;
            epss.insert(eps);
            ranks.insert(rank);
        }
        in->copy_low_rank_approximation(A, t, s, eps, rank, U, V);
        std::lock_guard<std::mutex> g(m);
        dig[bk(t, s)] = {digest(U), digest(V)};
    }
};
struct DenseGen : htool::VirtualDenseBlocksGenerator<T> {
    Rec &rec;
    mutable int calls = 0;
    mutable std::map<BK, int> n;
    explicit DenseGen(Rec &r) : rec(r) {}
    static T val(int i, int j) { return T(R(i + 1) + R(0.0625) * R(j % 13)); }
    void copy_dense_blocks(const std::vector<int> &M, const std::vector<int> &N, const std::vector<int> &rows, const std::vector<int> &cols, std::vector<T *> &ptr) const override {
        calls++;
        if (M.size() != N.size() || M.size() != rows.size() || M.size() != cols.size() || M.size() != ptr.size()) return rec.fail("dense-blocks:sizes", "");
        for (size_t b = 0; b < M.size(); b++) {
            n[BK{{rows[b], M[b], cols[b], N[b]}}]++;
            for (int j = 0; j < N[b]; j++)
                for (int i = 0; i < M[b]; i++) ptr[b][i + (size_t)j * M[b]] = val(rows[b] + i, cols[b] + j);
        }
    }
};
void vf_case(Ctx &cx) {
    Rng &r = cx.rng;
    Opts o;
    o.nmax = cx.thorough ? 300 : 160;
    if (cx.tail(97, 13)) o.nmin = 300, o.nmax = 600; // a few larger problems among the cases
    auto p = random_prob(r, o);
    HashKernel hk;
    hk.k        = &p->ker;
    hk.smooth   = r.p(0.4);
    bool user   = r.p(0.6), denseg = r.p(0.4), spy = r.p(0.7);
    cx.desc(S() << p->d << " user=" << user << " densegen=" << denseg << " smooth=" << hk.smooth);
    Rec rec;
    auto b  = p->builder();
    auto lr = std::make_shared<LrSpy>();
    lr->in  = lrgen(p->lrk);
    if (spy) b->set_low_rank_generator(lr);
    auto dg = std::make_shared<DenseGen>(rec);
    if (denseg) b->set_dense_blocks_generator(dg);
    const auto &pt = p->tc->get_permutation(), &ps = p->sc->get_permutation();
    int r0 = p->rows_lo(), r1 = r0 + p->nrows(), c0 = p->cols_lo(), c1 = c0 + p->ncols();
    std::set<int> rows(pt.begin() + r0, pt.begin() + r1), cols(ps.begin() + c0, ps.begin() + c1);
    UserGen ug(hk, rec, rows, cols);
    IntGen ig(hk, rec, pt, ps, r0, r1, c0, c1);
#ifdef _OPENMP
    omp_set_num_threads(p->threads);
#endif
    HM h = user ? b->build(static_cast<const htool::VirtualGenerator<T> &>(ug)) : b->build(static_cast<const htool::VirtualInternalGenerator<T> &>(ig));
    cx.check(rec.badkey.empty(), rec.badkey, rec.bad);
    long nd = 0, nl = 0, nnonadm = 0;
    walk_leaves(h, [&](const HM &l) {
        const Clu &t = l.get_target_cluster(), &s = l.get_source_cluster();
        BK k = bk(t, s);
        bool ad = lr->n.count(k) > 0;
        if (l.is_dense()) {
            nd++;
            bool dgen = denseg && spy && !ad;
            bool dunk = denseg && !spy; // cannot tell a false positive from a non-admissible leaf without the spy
            if (dunk) dgen = dg->n.count(k) > 0;
            if (denseg && dgen) {
                nnonadm++;
                cx.check(dg->n.count(k) && dg->n[k] == 1, "dense-block-not-served-once", S() << (dg->n.count(k) ? dg->n[k] : 0));
            }
            bool ok = true;
            for (int j = 0; j < s.get_size(); j++)
                for (int i = 0; i < t.get_size(); i++) {
                    T want = dgen ? DenseGen::val(t.get_offset() + i, s.get_offset() + j) : hk(pt[t.get_offset() + i], ps[s.get_offset() + j]);
                    if (!((*l.get_dense_data())(i, j) == want)) ok = false;
                }
            cx.check(ok, dgen ? "dense-generator-values-not-stored" : "dense-leaf-differs-from-generator", S() << t.get_size() << "x" << s.get_size());
        } else {
            nl++;
            if (spy && p->reqrank != 0) {
                if (cx.check(ad && lr->n[k] == 1, "lowrank-leaf-not-from-user-compressor", S() << (ad ? lr->n[k] : 0)))
                    cx.check(lr->dig[k].first == digest(l.get_low_rank_data()->get_U()) && lr->dig[k].second == digest(l.get_low_rank_data()->get_V()), "lowrank-data-not-what-compressor-returned");
            }
            cx.check(l.get_low_rank_data()->get_epsilon() == R(p->epsilon), "lowrank-epsilon");
        }
    });
    if (denseg) {
        cx.check(dg->calls <= 1, "dense-generator-called-repeatedly", strc(dg->calls));
        if (spy) cx.check((long)dg->n.size() == nnonadm, "dense-generator-asked-for-other-blocks", S() << dg->n.size() << " vs " << nnonadm);
    }
    if (spy) {
        for (double e : lr->epss) cx.check(e == (double)R(p->epsilon), "compressor-epsilon");
        for (int q : lr->ranks) cx.check(q == p->reqrank, "compressor-required-rank", strc(q));
        for (auto &q : lr->n) cx.check(q.second == 1, "compressor-called-twice");
        cx.check(lr->n.empty() || p->reqrank != 0, "compressor-called-for-rank-zero");
        cx.count("compressor_calls", (long)lr->n.size());
    }
    cx.count("generator_calls", rec.calls);
    cx.count("entries_requested", rec.entries);
    cx.count("dense_leaves", nd);
    cx.count("lowrank_leaves", nl);
    cx.count("dense_generator_blocks", (long)dg->n.size());
    if (nd + nl > 1) cx.sig(S() << p->mode << p->sym << p->uplo << user << denseg << spy << hk.smooth << p->lrk << p->reqrank << p->consistent << (nl > 0));
}
} // namespace vf
