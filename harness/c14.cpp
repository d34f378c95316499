// C14: low-rank arithmetic and recompression against dense reference arithmetic.
#include "hmx.hpp"
using namespace vf;
namespace vf {
struct DL { // densified low-rank matrix and magnitude bound
    Dense M, A;
    double f, fa;
};
static DL dens(const LR &l, int m, int n) {
    DL d;
    const Mat &U = l.get_U(), &V = l.get_V();
    d.M = Dense(m, n);
    d.A = Dense(m, n);
    for (int q = 0; q < U.nb_cols(); q++)
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++) {
                D t = up(U(i, q)) * up(V(q, j));
                d.M(i, j) += t;
                d.A(i, j) += std::abs(t);
            }
    d.f  = fro(d.M);
    d.fa = fro(d.A);
    return d;
}
static std::string fclass;
static LR rlr(Rng &r, int m, int n, int rank, double eps_) {
    LR l((R)eps_);
    l.get_U().resize(m, rank);
    l.get_V().resize(rank, n);
    Mat &U = l.get_U(), &V = l.get_V();
    int kind = r.i(0, 5); // 0-1 random, 2 decaying, 3 redundant, 4 badly scaled factors, 5 with zero columns
    for (int q = 0; q < rank; q++) {
        double su = 1, sv = 1;
        if (kind == 2) su = std::pow(0.1, q);
        if (kind == 4) {
            su = std::pow(10, r.u(-4, 4));
            sv = std::pow(10, r.u(-4, 4));
        }
        if (kind == 5 && r.p(0.4)) su = 0;
        int src = kind == 3 && q > 0 && r.p(0.6) ? r.i(0, q - 1) : -1;
        for (int i = 0; i < m; i++) U(i, q) = src >= 0 ? T(U(i, src) * T(R(0.5))) : T(rnd(r) * R(su));
        for (int j = 0; j < n; j++) V(q, j) = rnd(r) * R(sv);
    }
    fclass += (char)('0' + kind);
    return l;
}
static Mat rmat(Rng &r, int m, int n) {
    Mat a(m, n);
    double dec = r.p(0.4) ? 0.3 : 1; // decaying columns: truncation becomes effective
    for (int j = 0; j < n; j++)
        for (int i = 0; i < m; i++) a(i, j) = rnd(r) * R(std::pow(dec, std::min(i, j)));
    return a;
}
static int kmin(const Dense &M, double e) { // smallest rank meeting the relative tolerance
    auto s     = jsvd(M);
    double tot = 0, tail = 0;
    for (double x : s) tot += x * x;
    if (tot == 0) return 0;
    int k = (int)s.size();
    while (k > 0 && std::sqrt((tail + s[k - 1] * s[k - 1]) / tot) < e) {
        tail += s[k - 1] * s[k - 1];
        k--;
    }
    return k;
}
// blocks with up to tens of thousands of rows and columns and a handful of ranks: the result is compared with the
// reference on sampled rows and columns, without ever forming the represented matrix
static void thin(Ctx &cx) {
    Rng &r   = cx.rng;
    auto log = logrec();
    bool huge = r.p(0.4);
    auto big  = [&]() { return huge ? r.i(46342, 60000) : r.i(300, 5000); };
    static const char *names[] = {"lr-mat>LR", "mat-lr>LR", "lr-lr>LR", "recompress", "scale", "lr-vec"};
    int opn = r.i(0, 5), m = big(), n = big(), k = opn == 2 && r.p(0.5) ? big() : r.i(1, 10);
    if (r.p(0.3)) (r.p(0.5) ? m : n) = r.i(1, 40);
    double ep = std::pow(10, r.u(sizeof(R) == 4 ? -4 : -8, -1));
    char ta = r.pick({'N', 'T', 'C'}), tb = r.pick({'N', 'T', 'C'});
    T al = rscal(r), be = rscal(r);
    auto rk = [&]() { return r.pick({0, 1, 2, 3, 4, 6}); };
    std::string key = S() << "thin-" << names[opn] << ":" << ta << tb;
    auto lrf = [&](char t, int a, int b, int q, Dense &L, Dense &Rr) { // random low-rank op(X) = L Rr
        LR l = t == 'N' ? rlr(r, a, b, q, ep) : rlr(r, b, a, q, ep);
        L  = op(t, frommat(t == 'N' ? l.get_U() : l.get_V()));
        Rr = op(t, frommat(t == 'N' ? l.get_V() : l.get_U()));
        return l;
    };
    auto hs = [&](const Dense &A, const Dense &B) { // stack vertically
        Dense o(A.m + B.m, A.n);
        for (int j = 0; j < A.n; j++) {
            for (int i = 0; i < A.m; i++) o(i, j) = A(i, j);
            for (int i = 0; i < B.m; i++) o(A.m + i, j) = B(i, j);
        }
        return o;
    };
    auto hc = [&](const Dense &A, const Dense &B) { // side by side
        Dense o(A.m, A.n + B.n);
        std::copy(A.a.begin(), A.a.end(), o.a.begin());
        std::copy(B.a.begin(), B.a.end(), o.a.begin() + A.a.size());
        return o;
    };
    Dense L, Rr, LB, RB;
    LR A(R(0.1)), B(R(0.1));
    Mat M;
    int ra = rk(), rb = rk();
    if (opn == 5) {
        Dense o1, o2;
        A     = lrf(ta, m, n, ra, o1, o2);
        auto x = rvec(r, (size_t)n), y = rvec(r, (size_t)m);
        Guard gx(x), gy(y);
        cx.op(S() << "[" << key << " m=" << m << " n=" << n << " rank=" << ra << " al=" << al << " be=" << be << "]");
        htool::add_lrmat_vector_product(ta, al, A, (const T *)gx.data(), be, gy.data());
        cx.check(gx.vec() == x && gx.intact() && gy.intact(), key + ":wrote-outside-output");
        Dense X = fromcm(n, 1, x.data()), Y = fromcm(m, 1, y.data());
        Dense ref = axpby(up(al), mul(o1, mul(o2, X)), up(be), Y), mg = axpby(std::abs(up(al)), mul(absd(o1), mul(absd(o2), absd(X))), std::abs(up(be)), absd(Y));
        cx.le(worst(fromcm(m, 1, gy.data()), ref, mg, 1e-290) / (8 * eps() * (m + n + ra + 8)), 1, key + ":value");
        cx.count("thin_blocks");
        return;
    }
    LR Cm((R)ep);
    int rc = opn >= 3 ? std::max(1, rk()) : r.p(0.2) ? -1 : rk();
    Dense CU(m, 0), CV(0, n);
    if (rc >= 0) Cm = lrf('N', m, n, rc, CU, CV);
    cx.op(S() << "[" << key << " m=" << m << " n=" << n << " k=" << k << " ranks " << ra << "," << rb << "," << rc << " al=" << al << " be=" << be << " eps=" << ep << "]");
    double mag = fro(CU) * fro(CV);
    int maxrank = std::max(rc, 0);
    bool truncates = opn == 3;
    if (opn == 3) htool::recompression(Cm);
    else if (opn == 4) {
        htool::scale(al, Cm);
        CU = axpby(up(al), CU, 0, CU);
        mag *= std::abs(al);
    } else {
        if (opn == 0) {
            A  = lrf(ta, m, k, ra, L, Rr);
            M  = tb == 'N' ? rmat(r, k, n) : rmat(r, n, k);
            Rr = mul(Rr, op(tb, frommat(M)));
            mag = std::abs(be) * mag + std::abs(al) * fro(L) * fro(Rr) + std::abs(al) * fro(op(ta, frommat(A.get_U()))) * fro(frommat(A.get_V())) * fro(frommat(M)) * eps();
            htool::add_lrmat_matrix_product(ta, tb, al, A, M, be, Cm);
            maxrank = (be == T(0) ? 0 : maxrank) + ra;
        } else if (opn == 1) {
            B = lrf(tb, k, n, rb, L, Rr);
            M = ta == 'N' ? rmat(r, m, k) : rmat(r, k, m);
            L = mul(op(ta, frommat(M)), L);
            mag = std::abs(be) * mag + std::abs(al) * fro(frommat(M)) * fro(frommat(B.get_U())) * fro(frommat(B.get_V()));
            htool::add_matrix_lrmat_product(ta, tb, al, M, B, be, Cm);
            maxrank = (be == T(0) ? 0 : maxrank) + rb;
        } else {
            A  = lrf(ta, m, k, ra, L, Rr);
            B  = lrf(tb, k, n, rb, LB, RB);
            Rr = mul(mul(Rr, LB), RB);
            mag = std::abs(be) * mag + std::abs(al) * fro(L) * fro(frommat(ta == 'N' ? A.get_V() : A.get_U())) * fro(LB) * fro(RB);
            htool::add_lrmat_lrmat_product(ta, tb, al, A, B, be, Cm);
            maxrank = (be == T(0) ? 0 : maxrank) + std::max(ra, rb);
        }
        truncates = true;
        CU = hc(axpby(up(al), L, 0, L), axpby(up(be), CU, 0, CU));
        CV = hs(Rr, CV);
    }
    const Mat &U = Cm.get_U(), &V = Cm.get_V();
    if (!cx.check(Cm.rank_of() == U.nb_cols() && (Cm.rank_of() == 0 || (U.nb_rows() == m && V.nb_cols() == n && U.nb_cols() == V.nb_rows())), key + ":result-dimensions", S() << U.nb_rows() << "x" << U.nb_cols() << " " << V.nb_rows() << "x" << V.nb_cols())) return;
    cx.check(Cm.rank_of() <= maxrank, key + ":rank-too-large", S() << Cm.rank_of() << " > " << maxrank);
    int p = CU.n, c = Cm.rank_of();
    double fn = 0; // norm of the reference from the Gram matrices of its factors
    for (int i = 0; i < p; i++)
        for (int j = 0; j < p; j++) {
            D a = 0, b = 0;
            for (int q = 0; q < m; q++) a += cj(CU(q, i)) * CU(q, j);
            for (int q = 0; q < n; q++) b += CV(j, q) * cj(CV(i, q));
            fn += std::real(D(a * b));
        }
    fn = std::sqrt(std::max(fn, 0.)) + 1e-7 * mag;
    double bound = (truncates ? 1.02 * ep * fn : 0) + 30 * eps() * (p + c + k + 20 + std::sqrt(double(m) + n)) * mag + 1e-300, err = 0;
    for (int w = 0; w < 2; w++)
        for (int q = 0; q < 6; q++) {
            int len = w ? m : n, cnt = w ? n : m, f = q == 0 ? 0 : q == 1 ? cnt - 1 : r.i(0, cnt - 1);
            double e2 = 0;
            for (int g = 0; g < len; g++) {
                int i = w ? g : f, j = w ? f : g;
                D d = 0;
                for (int z = 0; z < p; z++) d += CU(i, z) * CV(z, j);
                for (int z = 0; z < c; z++) d -= up(U(i, z)) * up(V(z, j));
                e2 += std::norm(d);
            }
            err = std::max(err, std::sqrt(e2));
        }
    cx.le(err, bound, key + ":value", S() << "rank=" << c << " ref=" << fn);
    cx.check(log->errors == 0, key + ":reported-as-error", log->last_error());
    cx.count("thin_blocks");
    if (huge) cx.count("thin_blocks_beyond_2^31_entries");
    cx.sig(S() << key << huge << (ra == 0) << (rb == 0) << (rc <= 0) << (be == T(0)) << (al == T(0)));
}
void vf_case(Ctx &cx) {
    if (cx.rng.p(0.02)) return thin(cx);
    Rng &r   = cx.rng;
    auto log = logrec();
    int mx   = cx.thorough ? 40 : 24;
    auto dim = [&]() { return r.p(0.2) ? r.i(1, 3) : r.i(1, mx); };
    for (int trial = 0; trial < 12; trial++) {
        fclass.clear();
        log->clear();
        int m = dim(), n = dim(), k = dim();
        double ep = std::pow(10, r.u(sizeof(R) == 4 ? -5 : -11, -0.7));
        auto rk   = [&](int a, int b) { return r.pick({0, 1, 1, 2, 3, 5, std::min(a, b), r.i(0, std::min(a, b) + 4)}); };
        int opn   = r.i(0, 13);
        char ta = r.pick({'N', 'T', 'C'}), tb = r.pick({'N', 'T', 'C'});
        T al = rscal(r), be = rscal(r);
        static const char *names[] = {"lr-vec", "lr-mat-row", "lr-mat>M", "lr-mat>LR", "mat-lr>M", "mat-lr>LR", "lr-lr>M", "lr-lr>LR", "mat-mat>LR", "lr+lr", "scale", "recompress", "recompress-copy", "densify"};
        cx.op(S() << "[" << names[opn] << " " << ta << tb << " m=" << m << " n=" << n << " k=" << k << " al=" << al << " be=" << be << " eps=" << ep << "]");
        std::string key = S() << names[opn] << ":" << ta << tb;
        auto sgn = [&](int ra, int rc) { cx.sig(S() << key << (ra == 0) << (ra > 1) << (rc < 0) << (rc == 0) << (al == T(0)) << (be == T(0)) << (be == T(1)) << (m == 1) << (n == 1) << (k == 1) << fclass); };
        auto dl = [&](char t, int a, int b, int q) { return t == 'N' ? rlr(r, a, b, q, ep) : rlr(r, b, a, q, ep); };
        auto dm = [&](char t, int a, int b) { return t == 'N' ? rmat(r, a, b) : rmat(r, b, a); };
        auto rows = [&](const LR &l) { return l.get_U().nb_rows(); };
        auto cols = [&](const LR &l) { return l.get_V().nb_cols(); };
        auto lrdig = [&](const LR &l) { return digest(l.get_U()) * 31 + digest(l.get_V()); };
        // compares a low-rank result with the reference
        auto lrres = [&](const LR &Cm, const Dense &ref, double mag, double trunc, int depth, int maxrank, bool compressed) {
            const Mat &U = Cm.get_U(), &V = Cm.get_V();
            if (!cx.check(U.nb_rows() == ref.m && V.nb_cols() == ref.n && U.nb_cols() == V.nb_rows() && Cm.rank_of() == U.nb_cols(), key + ":result-dimensions", S() << U.nb_rows() << "x" << U.nb_cols() << " " << V.nb_rows() << "x" << V.nb_cols() << " expected " << ref.m << "x" << ref.n)) return;
            DL c = dens(Cm, ref.m, ref.n);
            double bound = 1.02 * ep * trunc + 30 * eps() * depth * mag + 1e-300;
            cx.le(frodiff(c.M, ref), bound, key + ":value", S() << "rank=" << Cm.rank_of() << " ref=" << fro(ref));
            if (maxrank >= 0) cx.check(Cm.rank_of() <= maxrank, key + ":rank-too-large", S() << Cm.rank_of() << " > " << maxrank);
            if (compressed && fro(ref) > 1e3 * eps() / ep * mag) {
                int km = std::max(1, kmin(ref, 0.5 * ep));
                cx.check(Cm.rank_of() <= km, key + ":redundant-directions-kept", S() << Cm.rank_of() << " needed " << km);
                cx.count("rank_minimality_checked");
            }
            cx.count("lowrank_results");
        };
        auto dres = [&](const Dense &got, const Dense &ref, const Dense &mag, int depth) {
            cx.le(worst(got, ref, mag, 1e-290) / (8 * eps() * (depth + 8)), 1, key + ":value");
            cx.count("dense_results");
        };
        if (opn <= 1) {
            LR A      = rlr(r, m, n, rk(m, n), ep);
            DL a      = dens(A, m, n);
            auto dg   = lrdig(A);
            int mu    = opn == 0 ? 1 : r.pick({1, 2, 5});
            if (cx.tail(53, 7) && opn != 0) mu = 18 + (int)(cx.k / 53 % 50); // many columns in a few cases
            Dense o = op(ta, a.M), oa = absd(op(ta, a.A));
            auto x = rvec(r, (size_t)o.n * mu), y = rvec(r, (size_t)o.m * mu);
            Guard gx(x), gy(y);
            if (opn == 0) htool::add_lrmat_vector_product(ta, al, A, (const T *)gx.data(), be, gy.data());
            else htool::add_lrmat_matrix_product_row_major(ta, 'N', al, A, (const T *)gx.data(), be, gy.data(), mu);
            cx.check(gx.vec() == x && gx.intact() && lrdig(A) == dg, key + ":input-modified");
            cx.check(gy.intact(), key + ":wrote-outside-output");
            Dense X = fromrm(o.n, mu, x.data()), Y = fromrm(o.m, mu, y.data());
            dres(fromrm(o.m, mu, gy.data()), axpby(up(al), mul(o, X), up(be), Y), axpby(std::abs(up(al)), mul(oa, absd(X)), std::abs(up(be)), absd(Y)), m + n + A.rank_of());
            sgn(A.rank_of(), -1);
        } else if (opn <= 8) {
            // C(m x n) = al op(A)(m x k) op(B)(k x n) + be C
            bool la = opn == 2 || opn == 3 || opn == 6 || opn == 7, lb = opn >= 4 && opn <= 7, lc = opn == 3 || opn == 5 || opn == 7 || opn == 8;
            LR Al(R(0.1)), Bl(R(0.1));
            Mat Am, Bm;
            Dense a, b, aa, ba;
            int ra = -1, rb = -1;
            if (la) {
                ra     = rk(m, k);
                Al     = dl(ta, m, k, ra);
                DL d   = dens(Al, rows(Al), cols(Al));
                a      = op(ta, d.M);
                aa     = absd(op(ta, d.A));
            } else {
                Am = dm(ta, m, k);
                a  = op(ta, frommat(Am));
                aa = absd(a);
            }
            if (lb) {
                rb     = rk(k, n);
                Bl     = dl(tb, k, n, rb);
                DL d   = dens(Bl, rows(Bl), cols(Bl));
                b      = op(tb, d.M);
                ba     = absd(op(tb, d.A));
            } else {
                Bm = dm(tb, k, n);
                b  = op(tb, frommat(Bm));
                ba = absd(b);
            }
            uint64_t da = la ? lrdig(Al) : digest(Am), db = lb ? lrdig(Bl) : digest(Bm);
            Dense ab = mul(a, b), abm = mul(aa, ba);
            int depth = m + n + k + std::max(ra, 0) + std::max(rb, 0);
            if (!lc) {
                Mat Cm  = rmat(r, m, n);
                Dense C0 = frommat(Cm);
                if (opn == 2) htool::add_lrmat_matrix_product(ta, tb, al, Al, Bm, be, Cm);
                else if (opn == 4) htool::add_matrix_lrmat_product(ta, tb, al, Am, Bl, be, Cm);
                else htool::add_lrmat_lrmat_product(ta, tb, al, Al, Bl, be, Cm);
                cx.check(Cm.nb_rows() == m && Cm.nb_cols() == n, key + ":result-dimensions");
                dres(frommat(Cm), axpby(up(al), ab, up(be), C0), axpby(std::abs(up(al)), abm, std::abs(up(be)), absd(C0)), depth);
                sgn(std::min(ra, rb), -1);
            } else {
                int rc = r.p(0.25) ? -1 : rk(m, n);
                LR Cm((R)ep);
                if (rc >= 0) Cm = rlr(r, m, n, rc, ep);
                DL c0 = dens(Cm, m, n);
                bool fresh = rc <= 0 || be == T(0);
                int chain  = r.p(0.2) && !fresh ? r.i(2, 4) : 1;
                Dense ref = c0.M;
                double trunc = 0, mag = c0.fa;
                for (int q = 0; q < chain; q++) {
                    if (opn == 3) htool::add_lrmat_matrix_product(ta, tb, al, Al, Bm, be, Cm);
                    else if (opn == 5) htool::add_matrix_lrmat_product(ta, tb, al, Am, Bl, be, Cm);
                    else if (opn == 7) htool::add_lrmat_lrmat_product(ta, tb, al, Al, Bl, be, Cm);
                    else htool::add_matrix_matrix_product(ta, tb, al, Am, Bm, be, Cm);
                    ref   = axpby(up(al), ab, up(be), ref);
                    trunc = trunc * std::abs(be) + std::abs(al) * fro(ab) * (opn == 8 || fresh) + fro(ref);
                    mag   = std::abs(al) * fro(abm) + std::abs(be) * mag + fro(ref);
                }
                if (opn == 7 && fresh) trunc = 0; // nothing is truncated
                int rank_in = opn == 8 ? std::min(m, n) : opn == 7 ? (tb == 'N' ? rb : rb) : opn == 3 ? ra : rb;
                lrres(Cm, ref, mag, trunc, depth + std::max(rc, 0), (fresh ? 0 : rc) + chain * std::max(rank_in, 0), !fresh && chain == 1 && (al != T(0)) && ra != 0 && rb != 0);
                if (chain > 1) cx.count("chained_updates");
                sgn(opn == 8 ? m : std::min(ra < 0 ? 99 : ra, rb < 0 ? 99 : rb), rc);
            }
            cx.check((la ? lrdig(Al) : digest(Am)) == da && (lb ? lrdig(Bl) : digest(Bm)) == db, key + ":input-modified");
        } else if (opn == 9) {
            int N1 = r.i(8, 60), N2 = r.i(8, 60);
            auto x1 = geometry<C>(r, 0, N1, 2), x2 = geometry<C>(r, 0, N2, 2);
            CluCfg c1 = random_clucfg(r, N1, 2, 3), c2 = random_clucfg(r, N2, 2, 3);
            std::unique_ptr<Clu> k1(make_cluster(c1, N1, 2, x1)), k2(make_cluster(c2, N2, 2, x2));
            auto chain = [&](const Clu *c, const Clu *&big, const Clu *&small) {
                std::vector<const Clu *> path{c};
                while (!path.back()->is_leaf() && r.p(0.8)) path.push_back(path.back()->get_children()[r.i(0, (int)path.back()->get_children().size() - 1)].get());
                int i = r.i(0, (int)path.size() - 1), j = r.i(0, (int)path.size() - 1);
                big   = path[std::min(i, j)];
                small = path[std::max(i, j)];
            };
            const Clu *bt, *st, *bs, *ss;
            chain(k1.get(), bt, st);
            chain(k2.get(), bs, ss);
            bool extend = r.p(0.5); // X small, Y big
            const Clu *xt = extend ? st : bt, *xs = extend ? ss : bs, *yt = extend ? bt : st, *ys = extend ? bs : ss;
            LR X = rlr(r, xt->get_size(), xs->get_size(), rk(xt->get_size(), xs->get_size()), ep);
            LR Y = rlr(r, yt->get_size(), ys->get_size(), rk(yt->get_size(), ys->get_size()), ep);
            DL x = dens(X, xt->get_size(), xs->get_size()), y = dens(Y, yt->get_size(), ys->get_size());
            int ry = Y.rank_of(), rx = X.rank_of();
            auto dg = lrdig(X);
            cx.op(S() << "[" << (extend ? "extend " : "restrict ") << xt->get_size() << "x" << xs->get_size() << " rank " << rx << " into " << yt->get_size() << "x" << ys->get_size() << " rank " << ry << "]");
            htool::add_lrmat_lrmat(X, *xt, *xs, Y, *yt, *ys);
            Dense ref = y.M;
            int ro = xt->get_offset() - yt->get_offset(), co = xs->get_offset() - ys->get_offset();
            double mag = y.fa + x.fa;
            for (int j = 0; j < x.M.n; j++)
                for (int i = 0; i < x.M.m; i++) {
                    int gi = i + ro, gj = j + co;
                    if (gi >= 0 && gj >= 0 && gi < ref.m && gj < ref.n) ref(gi, gj) += x.M(i, j);
                }
            cx.check(lrdig(X) == dg, key + ":input-modified");
            lrres(Y, ref, mag, ry == 0 ? 0 : fro(ref), ref.m + ref.n + rx + ry, rx + ry, ry > 0 && rx > 0);
            cx.check(log->errors == 0, key + ":supported-reported-as-error", log->last_error());
            cx.sig(S() << key << extend << (rx == 0) << (ry == 0) << (bt == st) << (bs == ss) << fclass);
        } else {
            LR A   = rlr(r, m, n, rk(m, n), ep);
            DL a   = dens(A, m, n);
            int ra = A.rank_of();
            if (opn == 10) {
                htool::scale(al, A);
                lrres(A, axpby(up(al), a.M, 0, a.M), a.fa * std::abs(al) + 1e-30, 0, ra + 2, ra, false);
            } else if (opn == 11) {
                htool::recompression(A);
                lrres(A, a.M, a.fa, a.f, m + n + ra, std::min(ra, std::min(m, n)), ra > 0);
            } else if (opn == 12) {
                auto dg = lrdig(A);
                std::unique_ptr<LR> q = htool::recompression((const LR &)A);
                cx.check(lrdig(A) == dg, key + ":input-modified");
                lrres(*q, a.M, a.fa, a.f, m + n + ra, std::min(ra, std::min(m, n)), ra > 0);
                cx.check(q->get_epsilon() == A.get_epsilon(), key + ":epsilon-changed");
            } else {
                Guard g((size_t)m * n);
                A.copy_to_dense(g.data());
                cx.check(g.intact(), key + ":wrote-outside-output");
                dres(fromcm(m, n, g.data()), a.M, a.A, ra);
            }
            sgn(ra, -1);
        }
        cx.check(log->errors == 0, key + ":reported-as-error", log->last_error());
    }
}
} // namespace vf
