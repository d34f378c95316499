// C11: H-matrix by multi-vector products (row-major, column-major, left and right).
#include "hmx.hpp"
using namespace vf;
namespace vf {
// more rows and columns than fit into the square root of an int
static void huge(Ctx &cx) {
    Rng &r = cx.rng;
    HugeLine k(r);
    cx.desc(k.desc());
    auto log = logrec();
    for (int trial = 0; trial < 3; trial++) {
        char tr = k.sym == 'H' ? r.pick({'N', 'C'}) : k.sym == 'S' ? r.pick({'N', 'T'}) : r.pick({'N', 'T', 'C'});
        T al = rscal(r), be = rscal(r);
        int entry = k.sym == 'N' ? r.i(0, 3) : r.i(0, 2), mu = r.pick({1, 2, 3}), ni = tr == 'N' ? k.ns : k.nt, no = tr == 'N' ? k.nt : k.ns, thr = r.i(1, 4);
        std::vector<T> x = rvec(r, (size_t)ni * mu), y = rvec(r, (size_t)no * mu);
        Dense ref, mag, X = entry == 3 ? fromcm(ni, mu, x.data()) : fromrm(ni, mu, x.data()), Y = entry == 3 ? fromcm(no, mu, y.data()) : fromrm(no, mu, y.data());
        k.product(tr, X, ref, mag);
        ref = axpby(up(al), ref, up(be), Y);
        mag = axpby(std::abs(up(al)), mag, std::abs(up(be)), absd(Y));
        cx.op(S() << "[huge entry " << entry << " " << tr << " mu=" << mu << " al=" << al << " be=" << be << " threads " << thr << "]");
        omp_set_num_threads(thr);
        Dense got;
        if (entry == 3) {
            Mat B(ni, mu), Cm(no, mu);
            std::copy(x.begin(), x.end(), B.data());
            std::copy(y.begin(), y.end(), Cm.data());
            htool::internal_add_hmatrix_matrix_product(tr, 'N', al, *k.h, (const Mat &)B, be, Cm);
            got = frommat(Cm);
        } else {
            Guard gx(x), gy(y);
            if (entry == 0) htool::sequential_internal_add_hmatrix_matrix_product_row_major(tr, 'N', al, *k.h, (const T *)gx.data(), be, gy.data(), mu);
            else if (entry == 1) htool::openmp_internal_add_hmatrix_matrix_product_row_major(tr, 'N', al, *k.h, (const T *)gx.data(), be, gy.data(), mu);
            else htool::internal_add_hmatrix_matrix_product_row_major(tr, 'N', al, *k.h, (const T *)gx.data(), be, gy.data(), mu);
            cx.check(gx.vec() == x && gx.intact() && gy.intact(), "huge:guards");
            got = fromrm(no, mu, gy.data());
        }
        cx.le(worst(got, ref, mag, 1e-290) / (100 * eps() * std::sqrt((double)ni)), 1, S() << "huge-product:" << entry << tr << k.sym);
        cx.check(log->errors == 0, "huge:reported-as-error", log->last_error());
        cx.count("huge_products");
        cx.sig(S() << "huge" << entry << tr << k.sym << k.uplo << (k.nt == k.ns) << mu);
    }
}
void vf_case(Ctx &cx) {
    Rng &r   = cx.rng;
    if (cx.tail(1500, 57)) return huge(cx);
    auto log = logrec();
    Opts o;
    o.nmax = cx.thorough ? 160 : 100;
    if (cx.tail(97, 13)) o.nmin = 250, o.nmax = 500; // a few larger problems among the cases
    auto p = random_prob(r, o);
    cx.desc(p->d);
    HM h = p->build();
    Rep rep = represented(h, *p);
    std::vector<const HM *> nodes;
    walk_nodes(h, [&](const HM &q) { nodes.push_back(&q); });
    uint64_t dg = digest(h);
    for (int trial = 0; trial < (cx.thorough ? 14 : 8); trial++) {
        const HM *A = &h;
        Rep rq;
        const Rep *rp = &rep;
        char sym      = p->sym;
        if (p->sym == 'N' && r.p(0.3)) { // a sub-block as operand
            A  = nodes[r.i(0, (int)nodes.size() - 1)];
            rq = represented(*A, 'N', 0, 0);
            rp = &rq;
        }
        int m = A->nb_rows(), n = A->nb_cols();
        int entry  = r.i(0, 4); // 0 seq row-major, 1 omp row-major, 2 internal row-major, 3 left column-major, 4 right column-major
        if (entry == 2 && A->is_low_rank() && A->get_rank() == 0) cx.count("rank_zero_blocks_alone");
        int mu     = r.pick({1, 1, 2, 3, 5, 8, 17});
        if (cx.tail(53, 7)) mu = 18 + (int)(cx.k / 53 % 50); // many columns in a few cases
        char ta = r.pick({'N', 'N', 'T', 'C'}), tb = entry >= 3 ? r.pick({'N', 'T', 'C'}) : 'N';
        T al = rscal(r), be = rscal(r);
        int thr = r.i(1, 4);
        if (cx.tail(29, 3)) thr = 5 + (int)(cx.k / 29 % 12);
        omp_set_num_threads(thr);
        const char *en[] = {"seq-row", "omp-row", "internal-row", "left-col", "right-col"};
        bool real        = !CPLX;
        // transposition applied to the H-matrix
        char th     = entry == 4 ? tb : ta;
        bool unsupp = entry == 4 ? false : !real && ((th == 'T' && sym == 'H') || (th == 'C' && sym == 'S'));
        bool grey   = real && sym == 'S' && th == 'C';
        if (unsupp && r.p(0.8)) continue;
        if (entry == 2 && unsupp) entry = 0;
        cx.op(S() << "[" << en[entry] << " " << ta << tb << " mu=" << mu << " al=" << al << " be=" << be << " block " << m << "x" << n << "]");
        Dense opH = op(th, rp->M), opA = absd(op(th, rp->A));
        Dense ref, mag, B0, C0, got;
        std::string key = S() << "product:" << en[entry] << ":" << ta << tb << ":" << sym;
        log->clear();
        if (entry <= 2) {
            int ni = opH.n, no = opH.m;
            std::vector<T> x = rvec(r, (size_t)ni * mu), y = rvec(r, (size_t)no * mu);
            int loud = -1;
            if (mu > 1 && r.p(0.3)) { // other columns must not matter
                loud = r.i(0, mu - 1);
                for (int i = 0; i < ni; i++) x[(size_t)i * mu + loud] *= R(1e8);
            }
            B0  = fromrm(ni, mu, x.data());
            C0  = fromrm(no, mu, y.data());
            ref = axpby(up(al), mul(opH, B0), up(be), C0);
            mag = axpby(std::abs(up(al)), mul(opA, absd(B0)), std::abs(up(be)), absd(C0));
            Guard gx(x), gy(y);
            if (entry == 0) htool::sequential_internal_add_hmatrix_matrix_product_row_major(ta, 'N', al, *A, (const T *)gx.data(), be, gy.data(), mu);
            else if (entry == 1) htool::openmp_internal_add_hmatrix_matrix_product_row_major(ta, 'N', al, *A, (const T *)gx.data(), be, gy.data(), mu);
            else htool::internal_add_hmatrix_matrix_product_row_major(ta, 'N', al, *A, (const T *)gx.data(), be, gy.data(), mu);
            cx.check(gx.vec() == x && gx.intact(), "input-modified");
            cx.check(gy.intact(), "wrote-outside-output");
            got = fromrm(no, mu, gy.data());
        } else {
            // C (rows x cols)
            int br, bc, cr, cc;
            if (entry == 3) {
                br = opH.n;
                bc = mu;
                cr = opH.m;
                cc = mu;
            } else {
                br = mu;
                bc = opH.m;
                cr = mu;
                cc = opH.n;
            }
            char td = entry == 3 ? tb : ta;
            Mat B(td == 'N' ? br : bc, td == 'N' ? bc : br), Cm(cr, cc);
            for (int i = 0; i < B.nb_rows() * B.nb_cols(); i++) B.data()[i] = rnd(r);
            for (int i = 0; i < cr * cc; i++) Cm.data()[i] = rnd(r);
            B0          = frommat(B);
            C0          = frommat(Cm);
            Dense opB   = op(td, B0);
            ref         = entry == 3 ? mul(opH, opB) : mul(opB, opH);
            mag         = entry == 3 ? mul(opA, absd(opB)) : mul(absd(opB), opA);
            ref         = axpby(up(al), ref, up(be), C0);
            mag         = axpby(std::abs(up(al)), mag, std::abs(up(be)), absd(C0));
            if (entry == 3) htool::internal_add_hmatrix_matrix_product(ta, tb, al, *A, (const Mat &)B, be, Cm);
            else htool::internal_add_matrix_hmatrix_product(ta, tb, al, (const Mat &)B, *A, be, Cm);
            cx.check(frodiff(frommat(B), B0) == 0, "input-modified");
            cx.check(Cm.nb_rows() == cr && Cm.nb_cols() == cc, "output-dimensions-changed");
            got = frommat(Cm);
        }
        cx.count("products");
        cx.count("right_hand_sides", mu);
        double tol = 8 * eps() * (opH.n + opH.m + rp->maxrank + thr + 10);
        double w   = worst(got, ref, mag, 1e-290) / tol;
        if (unsupp) {
            cx.count("unsupported");
            cx.check(log->errors > 0 || w <= 1, S() << "unsupported-combination-answered-wrongly:" << en[entry] << ":" << th << sym, S() << w * tol);
        } else {
            cx.le(w, 1, key, S() << "mu=" << mu);
            if (!grey) cx.check(log->errors == 0, "supported-combination-reported-as-error", log->last_error());
            if (nodes.size() > 1) cx.sig(S() << key << (mu == 1) << (al == T(0)) << (be == T(0)) << (be == T(1)) << A->is_hierarchical() << (rp->nlr > 0) << (rp->mirrored > 0) << p->uplo << p->mode);
        }
        cx.count("mirrored_leaves", rp->mirrored);
    }
    cx.check(digest(h) == dg, "hmatrix-modified-by-product");
}
} // namespace vf
