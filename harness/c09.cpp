// C09: compressors on single blocks against an independent Jacobi SVD.
#include "hmx.hpp"
using namespace vf;
namespace vf {
struct MGen : htool::VirtualInternalGenerator<T> { // values in cluster numbering
    const std::vector<T> &a;
    int m, n, r0, c0;
    mutable std::atomic<long> entries{0};
    mutable std::atomic<int> bad{0};
    MGen(const std::vector<T> &a_, int m_, int n_, int r, int c) : a(a_), m(m_), n(n_), r0(r), c0(c) {}
    void copy_submatrix(int M, int N, int ro, int co, T *p) const override {
        entries += (long)M * N;
        if (M <= 0 || N <= 0 || ro < r0 || ro + M > r0 + m || co < c0 || co + N > c0 + n) {
            bad++;
            return;
        }
        for (int j = 0; j < N; j++)
            for (int i = 0; i < M; i++) p[i + (size_t)j * M] = a[(size_t)(co - c0 + j) * m + ro - r0 + i];
    }
};
// blocks with more entries than an int can count: never stored, judged on samples
inline double dof(std::complex<double> z, double *) { return z.real(); }
inline std::complex<double> dof(std::complex<double> z, std::complex<double> *) { return z; }
struct HugeGen : htool::VirtualInternalGenerator<T> {
    int m, n, r0, c0, er;
    double off, scale;
    std::vector<D> u, v;
    mutable std::atomic<int> bad{0};
    struct TooMuch {};
    mutable long entries = 0; // partial pivoting goes through all rows of a block of which nothing is left
    D at(int i, int j) const {
        D z(0);
        if (er > 0)
            for (int q = 0; q < er; q++) z += u[(size_t)i * er + q] * v[(size_t)j * er + q];
        else z = dof(CPLX ? std::polar(1., 2. * (off + double(j) / n - double(i) / m)) : std::complex<double>(1), (D *)nullptr) / (off + double(j) / n - double(i) / m);
        return z * scale;
    }
    void copy_submatrix(int M, int N, int ro, int co, T *p) const override {
        if (M <= 0 || N <= 0 || ro < r0 || ro + M > r0 + m || co < c0 || co + N > c0 + n || (long)M * N > 50000000L) {
            bad++;
            return;
        }
        if ((entries += (long)M * N) > 40000000L) throw TooMuch();
        for (int j = 0; j < N; j++)
            for (int i = 0; i < M; i++) p[i + (size_t)j * M] = T(at(ro - r0 + i, co - c0 + j));
    }
};
// reported compression: entries of the block over stored entries
void check_ratios(Ctx &cx, const Mat &U, const Mat &V, int m, int n) {
    LR l(R(0.1));
    l.get_U()  = U;
    l.get_V()  = V;
    double all = double(m) * n, st = double(U.nb_cols()) * (double(m) + n);
    cx.le(std::abs(l.compression_ratio() - all / st), 1e-9 * all / st, "compression-ratio");
    cx.le(std::abs(l.space_saving() - (1 - st / all)), 1e-9 * (1 + st / all), "space-saving");
}
void huge_block(Ctx &cx) {
    Rng &r  = cx.rng;
    auto lg = logrec();
    lg->clear();
    HugeGen g;
    g.m   = (int)std::exp(r.u(std::log(1e4), std::log(2e5)));
    g.n   = (int)std::min(4e5, 2147483648. / g.m * r.u(1.01, 2.5));
    if (r.p(0.2)) g.m = g.n = r.i(65536, 92000); // the number of entries wraps around to a positive number
    if (r.p(0.5)) std::swap(g.m, g.n);
    g.er    = r.p(0.5) ? r.i(1, 6) : 0;
    g.off   = r.u(1.5, 4);
    g.scale = r.pick({1., 1e3, 1e-6});
    g.u.resize((size_t)g.m * g.er);
    g.v.resize((size_t)g.n * g.er);
    for (auto &q : g.u) q = up(rnd(r));
    for (auto &q : g.v) q = up(rnd(r));
    std::vector<C> c0(2, 0), c1(2, 3);
    Clu ct(C(1), c0, 0, 0, g.m), cs(C(1), c1, 0, 0, g.n);
    g.r0 = g.c0 = 0;
    int lrk        = r.i(0, 1);
    double epsilon = std::pow(10, r.u(sizeof(R) == 4 ? -4 : -9, -2));
    int req        = r.p(0.3) ? r.i(1, 8) : -1;
    cx.desc(S() << "huge block " << g.m << "x" << g.n << " rank=" << g.er << " scale=" << g.scale << " lr=" << LRN[lrk] << " eps=" << epsilon << " reqrank=" << req);
    auto gen = lrgen(lrk);
    Mat U, V;
    int rk = req;
    try {
        gen->copy_low_rank_approximation(g, ct, cs, R(epsilon), rk, U, V);
    } catch (const HugeGen::TooMuch &) {
        cx.count("huge_blocks_abandoned");
        return;
    }
    cx.check(g.bad == 0, "out-of-range-request");
    std::string nm = LRN[lrk];
    bool acc       = U.nb_rows() == g.m && V.nb_cols() == g.n && U.nb_cols() > 0;
    if (!cx.check(acc, nm + ":huge-block-refused", strc(rk))) return;
    int k = U.nb_cols();
    cx.check(V.nb_rows() == k && rk == k, "huge-block-rank", S() << rk << " vs " << k);
    if (req > 0) cx.check(k <= req, nm + ":exceeds-required-rank", strc(k));
    check_ratios(cx, U, V, g.m, g.n);
    double e = 0, a = 0, mag = 0;
    for (int s = 0; s < 4000; s++) {
        int i = r.i(0, g.m - 1), j = r.i(0, g.n - 1);
        D z = 0, ref = up(T(g.at(i, j)));
        double q = 0;
        for (int l = 0; l < k; l++) z += up(U(i, l)) * up(V(l, j)), q += std::abs(up(U(i, l)) * up(V(l, j)));
        e += std::norm(z - ref);
        a += std::norm(ref);
        mag += q * q;
    }
    double rel = std::sqrt(e / a), fl = eps() * 100 * std::max(1., std::sqrt(mag / a));
    if (req < 0) cx.le(rel, 300 * epsilon + 100 * fl, nm + ":huge-block-tolerance");
    else if (g.er > 0 && req >= g.er) cx.le(rel, 2000 * fl, nm + ":huge-block-exact-rank");
    cx.check(lg->errors == 0, "error-logged", lg->last_error());
    cx.count("huge_blocks");
    cx.sig(S() << "huge" << lrk << g.er << req << (g.m > g.n) << g.scale);
}
void vf_case(Ctx &cx) {
    Rng &r  = cx.rng;
    auto lg = logrec();
    if (r.p(0.01)) return huge_block(cx);
    lg->clear();
    int dim = r.i(2, 3);
    auto sz = [&]() { return r.p(0.15) ? r.i(1, 5) : r.i(6, cx.thorough ? 60 : 40); };
    int nt = sz() * 2, ns = sz() * 2;
    double sep = r.pick({1.5, 2., 4., 10.});
    // one cloud carrying both clusters: children of a two-range partition, in either order
    std::vector<C> x;
    {
        int g1 = r.pick({0, 1, 6, 9, 10, 11}), g2 = r.pick({0, 1, 6, 9, 10, 11});
        auto a = geometry<C>(r, g1, nt, dim), b = geometry<C>(r, g2, ns, dim);
        double da = diameter(a, dim, a), db = diameter(b, dim, b);
        for (auto &v : a) v = C(v / da);
        for (auto &v : b) v = C(v / db);
        for (size_t i = 0; i < b.size(); i += dim) b[i] = C(b[i] + 1 + sep);
        x = a;
        x.insert(x.end(), b.begin(), b.end());
    }
    htool::ClusterTreeBuilder<C> cb;
    int part[4] = {0, nt, nt, ns};
    Clu cl      = cb.create_cluster_tree(nt + ns, dim, x.data(), 2, 2, part);
    const Clu *t = cl.get_clusters_on_partition()[0], *s = cl.get_clusters_on_partition()[1];
    if (r.p(0.5)) std::swap(t, s);
    if (r.p(0.3) && !t->is_leaf()) t = t->get_children()[r.i(0, (int)t->get_children().size() - 1)].get();
    if (r.p(0.3) && !s->is_leaf()) s = s->get_children()[r.i(0, (int)s->get_children().size() - 1)].get();
    int m = t->get_size(), n = s->get_size();
    int kind     = r.pick({0, 0, 0, 0, 1, 1, 2, 3, 4, 5}); // smooth, exact low rank, random, zero, zero first row, constant
    int er       = kind == 1 ? r.i(1, 6) : kind == 5 ? 1 : -1;
    double scale = r.pick({1., 1., 1., 1e3, 1e-3, 1e-9, 1e-12, 1e6});
    Kernel ker;
    ker.dim = dim; ker.kind = r.i(0, 3); ker.d0 = 0.1; ker.L = r.pick({1., 3.}); ker.k = r.u(0, 2); ker.same = false; ker.xt = &x; ker.xs = &x; ker.sym = r.pick({'N', 'S', CPLX ? 'H' : 'S'});
    const auto &perm = cl.get_permutation();
    std::vector<T> a((size_t)m * n);
    {
        std::vector<D> u((size_t)m * std::max(er, 1)), v((size_t)n * std::max(er, 1));
        for (auto &q : u) q = up(rnd(r));
        for (auto &q : v) q = up(rnd(r));
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++) {
                D z(0);
                if (kind == 0) z = up(ker(perm[t->get_offset() + i], perm[s->get_offset() + j]));
                else if (kind == 1)
                    for (int q = 0; q < er; q++) z += u[(size_t)q * m + i] * v[(size_t)q * n + j];
                else if (kind == 2 || kind == 4) z = up(rnd(r));
                else if (kind == 5) z = D(1);
                if (kind == 4 && i == 0) z = D(0);
                a[(size_t)j * m + i] = T(z * scale);
            }
    }
    Dense A = fromcm(m, n, a.data());
    double nA = fro(A);
    std::vector<double> sv = jsvd(A);
    int lrk        = r.i(0, 3);
    double epsilon = std::pow(10, r.u(sizeof(R) == 4 ? -5 : -12, -0.5));
    int req        = r.p(0.35) ? r.i(1, 12) : -1;
    static const char *KN[] = {"smooth", "exactrank", "random", "zero", "zerorow", "constant"};
    cx.desc(S() << "block " << m << "x" << n << " toff=" << t->get_offset() << " soff=" << s->get_offset() << " kind=" << KN[kind] << "/" << er << " kernel=" << ker.kind << ker.sym << " sep=" << sep << " scale=" << scale << " lr=" << LRN[lrk] << " eps=" << epsilon << " reqrank=" << req);
    MGen g(a, m, n, t->get_offset(), s->get_offset());
    auto gen = lrgen(lrk);
    LR lr(g, *gen, *t, *s, req, R(epsilon));
    // the direct interface gives the same factors
    Mat U, V;
    int rk = req;
    gen->copy_low_rank_approximation(g, *t, *s, R(epsilon), rk, U, V);
    cx.check(digest(U) == digest(lr.get_U()) && digest(V) == digest(lr.get_V()), "not-deterministic");
    cx.check(g.bad == 0, "out-of-range-request");
    bool acc = lr.get_U().nb_rows() == m && lr.get_V().nb_cols() == n && lr.get_U().nb_cols() > 0;
    cx.count(acc ? "accepted" : "refused");
    double floorr = eps() * 50 * std::sqrt((double)(m + n));
    if (!acc) {
        cx.check(lr.get_U().nb_rows() != m || lr.get_V().nb_cols() != n, "refusal-not-detectable");
        cx.check(rk <= 0, "refused-with-positive-rank", strc(rk));
    } else {
        int k = lr.get_U().nb_cols();
        cx.check(lr.get_V().nb_rows() == k && lr.rank_of() == k, "factor-dimensions");
        cx.check(rk == k, "reported-rank", S() << rk << " vs " << k);
        cx.check(k <= std::min(m, n), "rank-exceeds-size");
        check_ratios(cx, U, V, m, n);
        Dense P = mul(frommat(lr.get_U()), frommat(lr.get_V()));
        double rel = nA > 0 ? frodiff(P, A) / nA : fro(P);
        double mag = 0; // rounding floor grows with the size of the factors
        {
            Dense q = mul(absd(frommat(lr.get_U())), absd(frommat(lr.get_V())));
            mag     = nA > 0 ? fro(q) / nA : 1;
        }
        double fl = floorr * std::max(1., mag);
        std::string nm = LRN[lrk];
        if (req < 0) {
            cx.check((long)k * (m + n) <= (long)m * n, nm + ":accepted-without-gain", S() << k);
            if (lrk >= 2) cx.le(rel, epsilon * 1.0001 + fl, nm + ":tolerance");
            else if (kind == 0) cx.le(rel, 30 * epsilon + fl, nm + ":smooth-tolerance");
            else if (kind == 1 || kind == 5) {
                if (epsilon <= 1e-3) cx.le(rel, 100 * epsilon * 0 + 300 * epsilon + 100 * fl, nm + ":exact-rank-tolerance");
            }
            cx.maxi("rel/eps:" + nm + ":" + KN[kind], rel / (epsilon + fl));
        } else {
            cx.check(k <= req, nm + ":exceeds-required-rank", strc(k));
            if (lrk == 3) cx.check(k == std::min(req, std::min(m, n)), nm + ":required-rank-not-delivered", strc(k));
            if ((kind == 1 || kind == 5) && req >= er && er <= std::min(m, n)) cx.le(rel, 1000 * fl, nm + ":exact-rank-not-reproduced");
        }
        double tail = 0;
        if (lrk == 3) {
            for (size_t i = k; i < sv.size(); i++) tail += sv[i] * sv[i];
            tail = nA > 0 ? std::sqrt(tail) / nA : 0;
            cx.le(rel, tail * 1.001 + floorr * 4, nm + ":not-the-best-approximation");
        }
    }
    if (req < 0 && nA > 0 && lrk == 3 && epsilon > 100 * eps()) {
        auto tailat = [&](int q) {
            double e = 0;
            for (size_t i = q; i < sv.size(); i++) e += sv[i] * sv[i];
            return std::sqrt(e) / nA;
        };
        int best = 1;
        while (best < (int)sv.size() && tailat(best) >= epsilon) best++;
        bool border = std::abs(tailat(best) - epsilon) < 1e-3 * epsilon + floorr || (best > 1 && std::abs(tailat(best - 1) - epsilon) < 1e-3 * epsilon + floorr);
        bool pays   = (long)best * (m + n) <= (long)m * n;
        if (!border) {
            if (acc) cx.check(lr.get_U().nb_cols() == best, "SVD:rank-not-minimal", S() << lr.get_U().nb_cols() << " minimal " << best);
            cx.check(acc == pays, "SVD:acceptance", S() << acc << " minimal rank " << best);
            cx.count("minimal_rank_checked");
        }
    }
    double big = 0;
    for (auto &v : A.a) big = std::max(big, std::abs(v));
    // blocks of entries below 1e-14 may be declared zero and left dense
    // a block that compresses well must not be refused: full ACA is within a factor of the optimum
    if (big > 1e-14 && req < 0 && lrk == 2 && !acc && (kind == 1 || kind == 5) && er > 0 && epsilon > 1e4 * floorr) cx.check((long)(er + 2) * (m + n) > (long)m * n, "fullACA:refused-compressible-block", S() << "rank " << er);
    // the partially pivoted ones stop as soon as nothing is left of a block of exactly that rank
    if (big > 1e-14 && req < 0 && lrk < 2 && (kind == 1 || kind == 5) && er > 0 && epsilon > 1e4 * floorr) {
        cx.check(acc || (long)(er + 2) * (m + n) > (long)m * n, std::string(LRN[lrk]) + ":refused-compressible-block", S() << "rank " << er);
        cx.count("exact_rank_acceptance");
    }
    if (big > 1e-14 && req < 0 && lrk == 2 && !acc && kind == 0 && epsilon > 1e4 * floorr) {
        int best = 1;
        double e = 0;
        for (size_t i = sv.size(); i-- > 0;) {
            e += sv[i] * sv[i];
            if (std::sqrt(e) / nA >= 0.01 * epsilon) {
                best = (int)i + 1;
                break;
            }
        }
        cx.check((long)(3 * best + 5) * (m + n) > (long)m * n, "fullACA:refused-compressible-block", S() << "svd rank " << best);
    }
    cx.check(lg->errors == 0, "error-logged", lg->last_error());
    cx.count("blocks");
    if (m > 1 && n > 1) cx.sig(S() << lrk << kind << er << req << (t->get_offset() > s->get_offset()) << (m > n) << scale << (int)std::log10(epsilon) << acc);
}
} // namespace vf
