// C17: every dense kernel against its textbook definition evaluated with plain loops in reference precision.
#include "common.hpp"
#include <htool/basic_types/vector.hpp>
#include <htool/matrix/linalg/interface.hpp>
#include <htool/matrix/matrix.hpp>
#include <htool/matrix/utils/SVD_truncation.hpp>
using namespace vf;
namespace vf {
typedef htool::Matrix<T> Mat;
// a matrix over a guarded buffer: out-of-range writes by BLAS show up in the guard zones
struct GM {
    Guard g;
    Mat m;
    GM(int r, int c, const std::vector<T> &v) : g(v) { m.assign(r, c, g.data(), false); }
};
static Dense rdense(Rng &r, int m, int n, std::vector<T> &v) {
    v = rvec(r, (size_t)m * n);
    return fromcm(m, n, v.data());
}
static Dense mirror(const Dense &A, char uplo, bool herm) {
    Dense B(A.m, A.n);
    for (int j = 0; j < A.n; j++)
        for (int i = 0; i < A.m; i++) {
            bool st = i == j || (uplo == 'L') == (i > j);
            B(i, j) = st ? A(i, j) : herm ? cj(A(j, i)) : A(j, i);
            if (i == j && herm) B(i, j) = D(std::real(B(i, j)));
        }
    return B;
}
static std::vector<T> rowmajor(const Dense &A) {
    std::vector<T> v;
    for (int i = 0; i < A.m; i++)
        for (int j = 0; j < A.n; j++) v.push_back(T(A(i, j)));
    return v;
}
void vf_case(Ctx &cx) {
    Rng &r  = cx.rng;
    auto sz = [&]() { return cx.tail(97, 13) ? r.i(32, 160) : r.pick({1, 1, 2, 3, 4, 5, 7, 8, 12, 17, 23, 31}); };
    auto pw = [&](int n) { return n * eps() * 4 + 8 * eps(); };
    for (int trial = 0; trial < 12; trial++) {
        int opn = r.i(0, 15), m = sz(), n = sz(), k = sz(), w = r.pick({1, 2, 3, 5, 17});
        char ta = r.pick({'N', 'T', 'C'}), tb = r.pick({'N', 'T', 'C'}), side = r.pick({'L', 'R'}), uplo = r.pick({'L', 'U'}), diag = r.pick({'N', 'U'});
        T al = rscal(r), be = rscal(r);
        bool herm = r.p(0.5);
        static const char *nm[] = {"gemv", "gemm", "symm", "symv", "gemm_rm", "symm_rm", "trsm", "lu", "chol", "svd", "transpose", "scale", "algebra", "argmax", "rows", "vectors"};
        std::string key = nm[opn];
        cx.descr        = S() << "type=" << tname() << " " << nm[opn] << " m=" << m << " n=" << n << " k=" << k << " mu=" << w << " " << ta << tb << side << uplo << diag << " herm=" << herm << " al=" << al << " be=" << be;
        cx.progress();
        std::vector<T> va, vb, vc;
        // reference C := al*X + be*C0, tolerance on the magnitude of the terms
        auto cmp = [&](const std::string &k2, const Dense &got, const Dense &X, const Dense &Xa, const Dense &C0, int depth) {
            Dense ref = axpby(up(al), X, up(be), C0), bd(X.m, X.n);
            for (size_t i = 0; i < bd.a.size(); i++) bd.a[i] = std::abs(up(al)) * std::abs(Xa.a[i]) + std::abs(up(be)) * std::abs(C0.a[i]);
            cx.le(worst(got, ref, bd, 1e-300), pw(depth), k2 + ":value");
        };
        std::string sh = S() << (m == 1) << (n == 1) << (k == 1) << (m < n) << (n < k) << (al == T(0)) << (be == T(0)) << (be == T(1)) << (w == 1);
        switch (opn) {
        case 0: {
            Dense A = rdense(r, m, n, va);
            int ni = ta == 'N' ? n : m, no = ta == 'N' ? m : n;
            Dense x = rdense(r, ni, 1, vb), y = rdense(r, no, 1, vc);
            if (be == T(0) && r.p(0.5)) std::fill(vc.begin(), vc.end(), T(NAN));
            Dense y0 = be == T(0) ? Dense(no, 1) : y;
            GM a(m, n, va);
            Guard gx(vb), gy(vc);
            htool::add_matrix_vector_product(ta, al, (const Mat &)a.m, (const T *)gx.data(), be, gy.data());
            cmp(key, fromcm(no, 1, gy.data()), mul(op(ta, A), x), mul(op('T', ta == 'N' ? op('T', absd(A)) : absd(A)), absd(x)), y0, ni);
            cx.check(gy.intact() && gx.intact() && a.g.intact() && a.g.vec() == va && gx.vec() == vb, key + ":inputs");
            break;
        }
        case 1: {
            Dense A = ta == 'N' ? rdense(r, m, k, va) : rdense(r, k, m, va), B = tb == 'N' ? rdense(r, k, n, vb) : rdense(r, n, k, vb), C0 = rdense(r, m, n, vc);
            if (be == T(0) && r.p(0.5)) {
                std::fill(vc.begin(), vc.end(), T(NAN));
                C0 = Dense(m, n);
            }
            GM a(A.m, A.n, va), b(B.m, B.n, vb), c(m, n, vc);
            htool::add_matrix_matrix_product(ta, tb, al, (const Mat &)a.m, (const Mat &)b.m, be, c.m);
            Dense a_ = op(ta, A), b_ = op(tb, B);
            cmp(key, fromcm(m, n, c.g.data()), mul(a_, b_), mul(absd(a_), absd(b_)), C0, k);
            cx.check(c.g.intact() && a.g.vec() == va && b.g.vec() == vb, key + ":inputs");
            break;
        }
        case 2:
        case 5: {
            int q    = side == 'L' ? m : n;
            Dense A  = rdense(r, q, q, va);
            if (herm) for (int i = 0; i < q; i++) { va[(size_t)i * q + i] = T(std::real(va[(size_t)i * q + i])); A(i, i) = up(va[(size_t)i * q + i]); }
            Dense F  = mirror(A, uplo, herm), B = rdense(r, m, n, vb), C0 = rdense(r, m, n, vc);
            Dense X  = side == 'L' ? mul(F, B) : mul(B, F), Xa = side == 'L' ? mul(absd(F), absd(B)) : mul(absd(B), absd(F));
            GM a(q, q, va);
            key += herm ? ":herm" : ":sym";
            if (opn == 2) {
                GM b(m, n, vb), c(m, n, vc);
                if (herm) {
                    if (CPLX) htool::add_hermitian_matrix_matrix_product(side, uplo, al, (const Mat &)a.m, (const Mat &)b.m, be, c.m);
                    else htool::add_symmetric_matrix_matrix_product(side, uplo, al, (const Mat &)a.m, (const Mat &)b.m, be, c.m);
                } else htool::add_symmetric_matrix_matrix_product(side, uplo, al, (const Mat &)a.m, (const Mat &)b.m, be, c.m);
                cmp(key, fromcm(m, n, c.g.data()), X, Xa, C0, q);
                cx.check(c.g.intact() && a.g.vec() == va && b.g.vec() == vb, key + ":inputs");
            } else {
                std::vector<T> rb = rowmajor(B), rc = rowmajor(C0);
                Guard gb(rb), gc(rc);
                int mu = side == 'L' ? n : m;
                if (herm) htool::add_hermitian_matrix_matrix_product_row_major(side, uplo, al, (const Mat &)a.m, (const T *)gb.data(), be, gc.data(), mu);
                else htool::add_symmetric_matrix_matrix_product_row_major(side, uplo, al, (const Mat &)a.m, (const T *)gb.data(), be, gc.data(), mu);
                cmp(key, fromrm(m, n, gc.data()), X, Xa, C0, q);
                cx.check(gc.intact() && a.g.vec() == va && gb.vec() == rb, key + ":inputs");
            }
            break;
        }
        case 3: {
            Dense A = rdense(r, m, m, va);
            if (herm) for (int i = 0; i < m; i++) { va[(size_t)i * m + i] = T(std::real(va[(size_t)i * m + i])); A(i, i) = up(va[(size_t)i * m + i]); }
            Dense F = mirror(A, uplo, herm), x = rdense(r, m, 1, vb), y = rdense(r, m, 1, vc);
            GM a(m, m, va);
            Guard gx(vb), gy(vc);
            key += herm ? ":herm" : ":sym";
            if (herm) htool::add_hermitian_matrix_vector_product(uplo, al, (const Mat &)a.m, (const T *)gx.data(), be, gy.data());
            else htool::add_symmetric_matrix_vector_product(uplo, al, (const Mat &)a.m, (const T *)gx.data(), be, gy.data());
            cmp(key, fromcm(m, 1, gy.data()), mul(F, x), mul(absd(F), absd(x)), y, m);
            cx.check(gy.intact() && a.g.vec() == va && gx.vec() == vb, key + ":inputs");
            break;
        }
        case 4: {
            Dense A = ta == 'N' ? rdense(r, m, k, va) : rdense(r, k, m, va), B = tb == 'N' ? rdense(r, k, w, vb) : rdense(r, w, k, vb), C0 = rdense(r, m, w, vc);
            GM a(A.m, A.n, va);
            std::vector<T> rb = rowmajor(B), rc = rowmajor(C0);
            Guard gb(rb), gc(rc);
            key += S() << ":" << ta << tb;
            htool::add_matrix_matrix_product_row_major(ta, tb, al, (const Mat &)a.m, (const T *)gb.data(), be, gc.data(), w);
            Dense a_ = op(ta, A), b_ = op(tb, B);
            cmp(key, fromrm(m, w, gc.data()), mul(a_, b_), mul(absd(a_), absd(b_)), C0, k);
            cx.check(gc.intact() && a.g.vec() == va && gb.vec() == rb, key + ":inputs");
            break;
        }
        case 6: {
            int q   = side == 'L' ? m : w;
            int bm = m, bn = w;
            Dense A = rdense(r, q, q, va);
            for (int j = 0; j < q; j++)
                for (int i = 0; i < q; i++) {
                    if (i == j) va[(size_t)j * q + i] += T(R(r.p(0.5) ? 3 : -3));
                    else va[(size_t)j * q + i] *= R(0.5 / q);
                    A(i, j) = up(va[(size_t)j * q + i]);
                }
            Dense Tr(q, q);
            for (int j = 0; j < q; j++)
                for (int i = 0; i < q; i++) Tr(i, j) = i == j ? (diag == 'U' ? D(1) : A(i, j)) : ((uplo == 'L') == (i > j)) ? A(i, j) : D(0);
            Dense B = rdense(r, bm, bn, vb);
            Dense o = op(ta, Tr), oi = gsolve(o, eye(q));
            GM a(q, q, va), b(bm, bn, vb);
            htool::triangular_matrix_matrix_solve(side, uplo, ta, diag, al, (const Mat &)a.m, b.m);
            Dense X = fromcm(bm, bn, b.g.data()), ref = side == 'L' ? mul(oi, B) : mul(B, oi);
            ref = axpby(up(al), ref, 0, ref);
            key += S() << ":" << side << uplo << ta << diag;
            cx.le(frodiff(X, ref), pw(q) * fro(o) * fro(oi) * fro(ref) + 1e-300, key);
            cx.check(b.g.intact() && a.g.vec() == va, key + ":inputs");
            break;
        }
        case 7: { // LU with genuine row interchanges
            Dense A = rdense(r, m, m, va);
            Dense Ai = gsolve(A, eye(m));
            double cond = fro(A) * fro(Ai);
            if (!(cond < 1e4)) { cx.count("skipped_condition"); break; }
            GM a(m, m, va);
            htool::lu_factorization(a.m);
            cx.check(a.g.intact() && (int)a.m.get_pivots().size() == m, key + ":pivots");
            // P*A = L*U
            Dense F = frommat(a.m), L = eye(m), U(m, m), PA = A;
            bool swapped = false;
            for (int j = 0; j < m; j++)
                for (int i = 0; i < m; i++) (i > j ? L : U)(i, j) = F(i, j);
            for (int i = 0; i < m; i++) {
                int p = a.m.get_pivots()[i] - 1;
                if (p != i)
                    for (int j = 0; j < m; j++) std::swap(PA(i, j), PA(p, j));
                swapped = swapped || p != i;
            }
            cx.le(frodiff(mul(L, U), PA), pw(m) * 8 * fro(L) * fro(U), key + ":factors");
            std::vector<T> fac = a.g.vec();
            Dense B = rdense(r, m, w, vb);
            GM b(m, w, vb), b2(m, w, vb);
            htool::lu_solve(ta, (const Mat &)a.m, b.m);
            Dense ref = mul(op(ta, Ai), B);
            double tol = pw(m) * 4 * cond * fro(ref);
            cx.le(frodiff(fromcm(m, w, b.g.data()), ref), tol, key + ":solve" + ta);
            // the same through the two triangular solves, from the left and from the right
            if (ta == 'N') {
                htool::triangular_matrix_matrix_solve('L', 'L', 'N', 'U', T(1), (const Mat &)a.m, b2.m);
                htool::triangular_matrix_matrix_solve('L', 'U', 'N', 'N', T(1), (const Mat &)a.m, b2.m);
            } else {
                htool::triangular_matrix_matrix_solve('L', 'U', ta, 'N', T(1), (const Mat &)a.m, b2.m);
                htool::triangular_matrix_matrix_solve('L', 'L', ta, 'U', T(1), (const Mat &)a.m, b2.m);
            }
            cx.le(frodiff(fromcm(m, w, b2.g.data()), ref), tol, key + ":trsolveL" + ta);
            Dense Br = rdense(r, w, m, vb);
            GM b3(w, m, vb);
            if (ta == 'N') {
                htool::triangular_matrix_matrix_solve('R', 'U', 'N', 'N', T(1), (const Mat &)a.m, b3.m);
                htool::triangular_matrix_matrix_solve('R', 'L', 'N', 'U', T(1), (const Mat &)a.m, b3.m);
            } else {
                htool::triangular_matrix_matrix_solve('R', 'L', ta, 'U', T(1), (const Mat &)a.m, b3.m);
                htool::triangular_matrix_matrix_solve('R', 'U', ta, 'N', T(1), (const Mat &)a.m, b3.m);
            }
            Dense r3 = mul(Br, op(ta, Ai));
            cx.le(frodiff(fromcm(w, m, b3.g.data()), r3), pw(m) * 4 * cond * fro(r3), key + ":trsolveR" + ta);
            cx.check(a.g.vec() == fac && b.g.intact() && b2.g.intact() && b3.g.intact(), key + ":inputs");
            if (swapped) cx.count("row_interchanges");
            break;
        }
        case 8: {
            Dense G = rdense(r, m, m, va), A = mul(G, op('C', G));
            for (int i = 0; i < m; i++) A(i, i) += 1;
            va.clear();
            for (auto &x : A.a) va.push_back(T(x));
            // only the named triangle may be read
            for (int j = 0; j < m; j++)
                for (int i = 0; i < m; i++)
                    if (i != j && ((uplo == 'L') != (i > j))) va[(size_t)j * m + i] = T(NAN);
            for (int i = 0; i < m; i++) va[(size_t)i * m + i] = T(std::real(va[(size_t)i * m + i]));
            Dense Ai = gsolve(A, eye(m));
            GM a(m, m, va);
            htool::cholesky_factorization(uplo, a.m);
            Dense Lf(m, m);
            for (int j = 0; j < m; j++)
                for (int i = 0; i < m; i++)
                    if (i == j || (uplo == 'L') == (i > j)) Lf(i, j) = up(a.m(i, j));
            cx.le(frodiff(uplo == 'L' ? mul(Lf, op('C', Lf)) : mul(op('C', Lf), Lf), A), pw(m) * 8 * fro(A), key + ":factor");
            Dense B = rdense(r, m, w, vb), ref = mul(Ai, B);
            GM b(m, w, vb);
            htool::cholesky_solve(uplo, (const Mat &)a.m, b.m);
            cx.le(frodiff(fromcm(m, w, b.g.data()), ref), pw(m) * 8 * fro(A) * fro(Ai) * fro(ref), key + ":solve");
            cx.check(a.g.intact() && b.g.intact(), key + ":guard");
            break;
        }
        case 9: { // SVD truncation: smallest rank whose relative Frobenius tail is below the tolerance
            int q = std::min(m, n);
            Dense A = rdense(r, m, n, va);
            if (r.p(0.6)) { // decaying
                int rk = r.i(1, q);
                Dense X(m, n);
                for (int p = 0; p < rk; p++) {
                    std::vector<T> u_, v_;
                    Dense u = rdense(r, m, 1, u_), v = rdense(r, 1, n, v_);
                    double s = std::pow(10., -r.u(0.3, 1.5) * p);
                    for (int j = 0; j < n; j++)
                        for (int i = 0; i < m; i++) X(i, j) += s * u(i, 0) * v(0, j);
                }
                va.clear();
                for (auto &x : X.a) va.push_back(T(x));
                A = fromcm(m, n, va.data());
            }
            double tol = std::pow(10., r.u(sizeof(R) == 4 ? -4 : -10, 0));
            Mat M_(m, n), u, vt;
            std::copy(va.begin(), va.end(), M_.data());
            std::vector<R> sv;
            int rk = htool::SVD_truncation(M_, R(tol), u, vt, sv);
            std::vector<double> ref = jsvd(A);
            double nrm              = fro(A);
            if (!(nrm > 0)) break;
            bool okd = (int)sv.size() == q && u.nb_rows() == m && u.nb_cols() == m && vt.nb_rows() == n && vt.nb_cols() == n;
            if (!cx.check(okd, key + ":dims")) break;
            for (int i = 0; i < q; i++) cx.le(std::abs(ref[i] - (double)sv[i]), 40 * pw(m + n) * nrm, key + ":values");
            Dense us(m, q), v(q, n);
            for (int p = 0; p < q; p++) {
                for (int i = 0; i < m; i++) us(i, p) = up(u(i, p)) * (double)sv[p];
                for (int j = 0; j < n; j++) v(p, j) = up(vt(p, j));
            }
            cx.le(frodiff(mul(us, v), A), 40 * pw(m + n) * nrm, key + ":factors");
            cx.le(frodiff(mul(op('C', frommat(u)), frommat(u)), eye(m)), 40 * pw(m) * m, key + ":orthogonal-u");
            cx.le(frodiff(mul(op('C', frommat(vt)), frommat(vt)), eye(n)), 40 * pw(n) * n, key + ":orthogonal-v");
            auto tail = [&](int k_) { double s = 0; for (int i = k_; i < q; i++) s += ref[i] * ref[i]; return std::sqrt(s) / nrm; };
            cx.check(rk >= 1 && rk <= q, key + ":rank-range");
            double sl = 40 * pw(m + n);
            cx.check(tail(rk) <= tol + sl, key + ":rank-too-small", S() << "rank " << rk << " tail " << tail(rk) << " tol " << tol);
            if (rk > 1) cx.check(tail(rk - 1) >= tol - sl - 1e-3 * tol, key + ":rank-not-minimal", S() << "rank " << rk << " tail " << tail(rk - 1) << " tol " << tol);
            break;
        }
        case 10: {
            Dense A = rdense(r, m, n, va);
            GM a(m, n, va), b(n, m, std::vector<T>((size_t)n * m));
            htool::transpose((const Mat &)a.m, b.m);
            cx.check(frodiff(fromcm(n, m, b.g.data()), op('T', A)) == 0 && b.g.intact() && a.g.vec() == va, key + ":value");
            break;
        }
        case 11: {
            Dense A = rdense(r, m, n, va);
            GM a(m, n, va);
            htool::scale(al, a.m);
            cx.le(worst(fromcm(m, n, a.g.data()), axpby(up(al), A, 0, A), axpby(up(al), A, 0, A), 1e-300), pw(2), key + ":value");
            cx.check(a.g.intact(), key + ":guard");
            break;
        }
        case 12: {
            Dense A = rdense(r, m, n, va), B = rdense(r, m, n, vb);
            GM a(m, n, va), b(m, n, vb);
            std::vector<T> vx;
            Dense Xk = rdense(r, n, k, vx);
            GM x(n, k, vx);
            Mat s = a.m + b.m, d = a.m - b.m, p = a.m * al, p2 = al * a.m, q = a.m * x.m;
            std::vector<T> y = a.m * std::vector<T>(vx.begin(), vx.begin() + n);
            cx.le(worst(frommat(s), axpby(1, A, 1, B), axpby(1, absd(A), 1, absd(B)), 1e-300), 2 * eps(), key + ":plus");
            cx.le(worst(frommat(d), axpby(1, A, -1, B), axpby(1, absd(A), 1, absd(B)), 1e-300), 2 * eps(), key + ":minus");
            cx.le(worst(frommat(p), axpby(up(al), A, 0, A), axpby(std::abs(up(al)), absd(A), 0, A), 1e-300), 8 * eps(), key + ":times-scalar");
            cx.le(worst(frommat(p2), axpby(up(al), A, 0, A), axpby(std::abs(up(al)), absd(A), 0, A), 1e-300), 8 * eps(), key + ":scalar-times");
            cx.le(worst(frommat(q), mul(A, Xk), mul(absd(A), absd(Xk)), 1e-300), pw(n), key + ":times-matrix");
            Dense x1 = fromcm(n, 1, vx.data());
            cx.check((int)y.size() == m, key + ":times-vector-size");
            cx.le(worst(fromcm(m, 1, y.data()), mul(A, x1), mul(absd(A), absd(x1)), 1e-300), pw(n), key + ":times-vector");
            cx.le(std::abs(htool::normFrob(a.m) - fro(A)), pw(m * n) * fro(A), key + ":norm");
            break;
        }
        case 13: {
            Dense A = rdense(r, m, n, va);
            if (r.p(0.5)) {
                size_t p = r.i(0, m * n - 1);
                va[p]    = T(R(-50));
                if (CPLX && r.p(0.5)) va[p] *= T(R(0.6));
                A = fromcm(m, n, va.data());
            }
            GM a(m, n, va);
            auto p = argmax((const Mat &)a.m);
            bool in = p.first >= 0 && p.first < m && p.second >= 0 && p.second < n;
            double best = 0;
            for (auto &x : A.a) best = std::max(best, std::abs(x));
            if (cx.check(in, key + ":range")) cx.le(best - std::abs(A(p.first, p.second)), 4 * eps() * best, key + ":value");
            int pv = htool::argmax(va);
            cx.le(best - std::abs(up(va.at(pv))), 4 * eps() * best, key + ":vector");
            break;
        }
        case 14: {
            Dense A = rdense(r, m, n, va);
            GM a(m, n, va);
            int i = r.i(0, m - 1), j = r.i(0, n - 1);
            std::vector<T> row = a.m.get_row(i), col = a.m.get_col(j);
            bool ok = (int)row.size() == n && (int)col.size() == m;
            for (int q = 0; ok && q < n; q++) ok = row[q] == va[(size_t)q * m + i];
            for (int q = 0; ok && q < m; q++) ok = col[q] == va[(size_t)j * m + q];
            cx.check(ok, key + ":get");
            std::vector<T> nr = rvec(r, n), nc = rvec(r, m);
            a.m.set_row(i, nr);
            for (int q = 0; q < n; q++) va[(size_t)q * m + i] = nr[q];
            cx.check(a.g.vec() == va && a.g.intact(), key + ":set-row");
            a.m.set_col(j, nc);
            for (int q = 0; q < m; q++) va[(size_t)j * m + q] = nc[q];
            cx.check(a.g.vec() == va && a.g.intact(), key + ":set-col");
            { // any slice with a stride
                Rng q(r.s ^ 0x51edull);
                int total = m * n, start = q.i(0, total - 1), stride = q.i(1, m + 2), len = q.i(0, (total - 1 - start) / stride + 1);
                std::vector<T> sl = a.m.get_stridedslice(start, len, stride), ns = rvec(q, len);
                bool good = (int)sl.size() == len;
                for (int c = 0; good && c < len; c++) good = sl[c] == va[(size_t)start + (size_t)c * stride];
                cx.check(good, key + ":get-slice");
                a.m.set_stridedslice(start, len, stride, ns);
                for (int c = 0; c < len; c++) va[(size_t)start + (size_t)c * stride] = ns[c];
                cx.check(a.g.vec() == va && a.g.intact(), key + ":set-slice");
            }
            break;
        }
        case 15: {
            using htool::operator+;
            using htool::operator-;
            using htool::operator/;
            using htool::operator*=;
            using htool::operator/=;
            std::vector<T> a = rvec(r, n), b = rvec(r, n);
            D dp(0), sm(0);
            double n2 = 0;
            bool ok = true;
            std::vector<T> s = a + b, d = a - b, mu = htool::mult(al, a), dv = a / T(R(4)), c1 = a, c2 = a;
            c1 *= al;
            c2 /= T(R(4));
            for (int i = 0; i < n; i++) {
                dp += up(a[i]) * cj(up(b[i]));
                sm += up(a[i]);
                n2 += std::norm(up(a[i]));
                ok = ok && s[i] == a[i] + b[i] && d[i] == a[i] - b[i] && std::abs(mu[i] - a[i] * al) <= 8 * eps() * std::abs(a[i] * al) && dv[i] == a[i] / T(R(4)) && std::abs(c1[i] - a[i] * al) <= 8 * eps() * std::abs(a[i] * al) && c2[i] == dv[i];
            }
            cx.check(ok, key + ":elementwise");
            cx.le(std::abs(up(htool::dprod(a, b)) - dp), pw(n) * n * 60, key + ":dprod");
            cx.le(std::abs(htool::norm2(a) - std::sqrt(n2)), pw(n) * (std::sqrt(n2) + 1), key + ":norm2");
            cx.le(std::abs(up(htool::mean(a)) - sm / double(n)), pw(n) * 10, key + ":mean");
            double bx = 0, bn = 1e300;
            for (auto &x : a) bx = std::max(bx, std::abs(up(x))), bn = std::min(bn, std::abs(up(x)));
            cx.le(std::abs(bx - std::abs(up(htool::max(a)))), 4 * eps() * bx, key + ":max");
            cx.le(std::abs(bn - std::abs(up(htool::min(a)))), 4 * eps() * bx, key + ":min");
            break;
        }
        }
        cx.count(S() << "op_" << nm[opn]);
        cx.sig(S() << opn << sh << ta << tb << side << uplo << diag << herm);
    }
}
} // namespace vf
