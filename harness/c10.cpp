// C10: H-matrix by vector products equal the product with the represented matrix.
#include "hmx.hpp"
using namespace vf;
namespace vf {
struct NodeRef {
    const HM *h;
    char sym;
    int lo, hi;
};
// symmetry under which a node of the block tree represents its part of the matrix
static NodeRef noderef(const Prob &p, const HM &root, const HM &q) {
    if (&q == &root) return {&q, p.sym, p.diag_lo, p.diag_hi};
    int t0 = q.get_target_cluster().get_offset(), t1 = t0 + q.get_target_cluster().get_size(), s0 = q.get_source_cluster().get_offset(), s1 = s0 + q.get_source_cluster().get_size();
    bool inside = t0 >= p.diag_lo && t1 <= p.diag_hi && s0 >= p.diag_lo && s1 <= p.diag_hi;
    if (p.sym == 'N' || (inside && !(t0 == s0 && t1 == s1))) return {&q, 'N', 0, 0};
    return {&q, p.sym, p.diag_lo, p.diag_hi};
}
// more rows and columns than fit into the square root of an int
static void huge(Ctx &cx) {
    Rng &r = cx.rng;
    HugeLine k(r);
    cx.desc(k.desc());
    auto log = logrec();
    for (int trial = 0; trial < 4; trial++) {
        char tr = k.sym == 'H' ? r.pick({'N', 'C'}) : k.sym == 'S' ? r.pick({'N', 'T'}) : r.pick({'N', 'T', 'C'});
        T al = rscal(r), be = rscal(r);
        int ni = tr == 'N' ? k.ns : k.nt, no = tr == 'N' ? k.nt : k.ns, entry = r.i(0, 2), thr = r.i(1, 4);
        std::vector<T> x = rvec(r, ni), y = rvec(r, no);
        Dense ref, mag, X = fromcm(ni, 1, x.data()), Y = fromcm(no, 1, y.data());
        k.product(tr, X, ref, mag);
        ref = axpby(up(al), ref, up(be), Y);
        mag = axpby(std::abs(up(al)), mag, std::abs(up(be)), absd(Y));
        cx.op(S() << "[huge entry " << entry << " " << tr << " al=" << al << " be=" << be << " threads " << thr << "]");
        Guard gx(x), gy(y);
        omp_set_num_threads(thr);
        if (entry == 0) htool::sequential_internal_add_hmatrix_vector_product(tr, al, *k.h, (const T *)gx.data(), be, gy.data());
        else if (entry == 1) htool::openmp_internal_add_hmatrix_vector_product(tr, al, *k.h, (const T *)gx.data(), be, gy.data());
        else htool::internal_add_hmatrix_vector_product(tr, al, *k.h, (const T *)gx.data(), be, gy.data());
        cx.check(gx.vec() == x && gx.intact() && gy.intact(), "huge:guards");
        cx.le(worst(fromcm(no, 1, gy.data()), ref, mag, 1e-290) / (100 * eps() * std::sqrt((double)ni)), 1, S() << "huge-product:" << entry << tr << k.sym);
        cx.check(log->errors == 0, "huge:reported-as-error", log->last_error());
        cx.count("huge_products");
        cx.sig(S() << "huge" << entry << tr << k.sym << k.uplo << (k.nt == k.ns));
    }
}
void vf_case(Ctx &cx) {
    Rng &r = cx.rng;
    if (cx.tail(1500, 57)) return huge(cx);
    auto log = logrec();
    Opts o;
    o.nmax = cx.thorough ? 200 : 120;
    if (cx.tail(97, 13)) o.nmin = 250, o.nmax = 600; // a few larger problems among the cases
    auto p = random_prob(r, o);
    cx.desc(p->d);
    HM h = p->build();
    std::vector<NodeRef> ops{noderef(*p, h, h)};
    std::vector<const HM *> nodes;
    walk_nodes(h, [&](const HM &q) { nodes.push_back(&q); });
    for (int i = 0; i < 3; i++) ops.push_back(noderef(*p, h, *nodes[r.i(0, (int)nodes.size() - 1)]));
    uint64_t dg = digest(h);
    bool nontriv = nodes.size() > 1;
    for (auto &nr : ops) {
        const HM &A = *nr.h;
        Rep rep     = represented(A, nr.sym, nr.lo, nr.hi);
        bool issym  = A.get_symmetry_for_leaves() != 'N';
        for (int trial = 0; trial < (cx.thorough ? 6 : 4); trial++) {
            char tr     = r.pick({'N', 'N', 'T', 'C'});
            T al        = rscal(r), be = rscal(r);
            bool unsupp = nr.sym != 'N' && ((tr == 'T' && nr.sym == 'H') || (tr == 'C' && nr.sym == 'S'));
            bool grey   = !unsupp && issym && ((tr == 'T' && p->sym == 'H') || (tr == 'C' && p->sym == 'S')); // off-diagonal sub-block of a symmetric matrix: answered, may also be reported
            if (!CPLX && unsupp) { // for real scalars the conjugate transpose is the transpose: must be right, may be reported
                unsupp = false;
                grey   = true;
            }
            int ni = tr == 'N' ? A.nb_cols() : A.nb_rows(), no = tr == 'N' ? A.nb_rows() : A.nb_cols();
            std::vector<T> x = rvec(r, ni), y = rvec(r, no);
            if (r.p(0.2))
                for (auto &v : x)
                    if (r.p(0.6)) v = 0;
            if (r.p(0.15))
                for (auto &v : y) v *= R(1e6);
            Dense ref = mul(op(tr, rep.M), fromcm(ni, 1, x.data())), mag = mul(absd(op(tr, rep.A)), absd(fromcm(ni, 1, x.data())));
            Dense Y = fromcm(no, 1, y.data());
            ref     = axpby(up(al), ref, up(be), Y);
            mag     = axpby(std::abs(up(al)), mag, std::abs(up(be)), absd(Y));
            int entry = r.i(0, 2);
            if (entry == 2 && unsupp) entry = r.i(0, 1);
            if (entry == 2 && A.is_low_rank() && A.get_rank() == 0 && be != T(1)) cx.count("rank_zero_blocks_alone");
            const char *en[] = {"sequential", "openmp", "internal"};
            cx.op(S() << "[" << en[entry] << " " << tr << " al=" << al << " be=" << be << " block " << A.get_target_cluster().get_offset() << "+" << A.nb_rows() << "," << A.get_source_cluster().get_offset() << "+" << A.nb_cols() << (A.is_hierarchical() ? " hier" : A.is_dense() ? " dense" : " lr") << nr.sym << "]");
            Guard gx(x), gy(y);
            log->clear();
            int thr = r.i(1, 4);
            if (cx.tail(29, 3)) thr = 5 + (int)(cx.k / 29 % 12);
            omp_set_num_threads(thr);
            if (entry == 0) htool::sequential_internal_add_hmatrix_vector_product(tr, al, A, (const T *)gx.data(), be, gy.data());
            else if (entry == 1) htool::openmp_internal_add_hmatrix_vector_product(tr, al, A, (const T *)gx.data(), be, gy.data());
            else htool::internal_add_hmatrix_vector_product(tr, al, A, (const T *)gx.data(), be, gy.data());
            cx.count("products");
            cx.check(gx.vec() == x && gx.intact(), "input-modified");
            cx.check(gy.intact(), "wrote-outside-output");
            Dense got = fromcm(no, 1, gy.data());
            double tol = 8 * eps() * (ni + rep.maxrank + thr + 10);
            double w   = worst(got, ref, mag, 1e-290) / tol;
            std::string key = S() << "product:" << en[entry] << ":" << tr << ":" << (nr.sym == 'N' ? 'N' : nr.sym);
            if (unsupp) {
                cx.count("unsupported");
                cx.check(log->errors > 0 || w <= 1, S() << "unsupported-combination-answered-wrongly:" << en[entry] << ":" << tr << nr.sym, S() << "relative error " << w * tol);
            } else {
                cx.le(w, 1, key, S() << "n=" << no);
                if (!grey) cx.check(log->errors == 0, "supported-combination-reported-as-error", log->last_error());
            }
            if (nontriv && !unsupp) cx.sig(S() << key << (al == T(0)) << (be == T(0)) << (be == T(1)) << A.is_hierarchical() << A.is_dense() << (rep.nlr > 0) << (rep.ndense > 0) << (rep.mirrored > 0) << p->uplo << p->mode << (&A == &h) << thr);
            cx.count("leaves_applied", rep.nleaf);
            cx.count("mirrored_leaves", rep.mirrored);
        }
    }
    cx.check(digest(h) == dg, "hmatrix-modified-by-product");
}
} // namespace vf
