// C19: distributed products against the gathered global matrix, on sub-communicators of every size.
#include "mpix.hpp"
using namespace vf;
namespace vf {
typedef htool::underlying_type<T> UT;
void vf_case(Ctx &cx) {
    Rng &r   = cx.rng;
    auto log = logrec();
    int np   = World::get().size;
    int P    = r.p(0.5) ? np : r.i(1, np);
    Sub sub(r, P);
    if (sub.comm == MPI_COMM_NULL) return;
    Opts o;
    o.nmin = std::max(P, 2);
    o.nmax = cx.thorough ? 160 : 90;
    if (cx.tail(43, 13)) o.nmin = 200, o.nmax = 400; // a few larger problems among the cases
    o.parts = P;
    o.given = r.p(0.6) ? 1 : -1;
    o.allow_part = o.allow_local = o.allow_incons = false;
    auto p = random_prob(r, o);
    int kind = r.i(0, 5);
    if (p->eta > 3 && r.p(0.5)) p->eta = r.pick({0.5, 1., 2.});
    p->tpart = sub.rank;
    if (p->sym != 'N' || r.p(0.5)) p->spart = sub.rank;
    if (kind == 3 || kind <= 1) p->spart = sub.rank;
    cx.desc(S() << "P=" << P << " kind=" << kind << " " << p->d);
    omp_set_num_threads(p->threads);
    const Clu &tc = *p->tc, &sc = *p->sc;
    const Clu &tl = *tc.get_clusters_on_partition()[sub.rank], &sl = *sc.get_clusters_on_partition()[sub.rank];
    p->diag_lo = tl.get_offset();
    p->diag_hi = tl.get_offset() + tl.get_size();
    bool sym   = p->sym != 'N';
    KGen gen(p->ker);
    htool::InternalGeneratorWithPermutation<T> igen(gen, tc.get_permutation().data(), sc.get_permutation().data());
    // ---- build
    log->clear();
    std::unique_ptr<htool::DefaultApproximationBuilder<T, C>> b0;
    std::unique_ptr<htool::DistributedOperatorFromHMatrix<T, C>> b2;
    std::unique_ptr<htool::DefaultLocalApproximationBuilder<T, C>> b3;
    std::unique_ptr<htool::CustomApproximationBuilder<T, C>> b4;
    std::unique_ptr<Mat> dense;
    std::unique_ptr<htool::LocalDenseMatrix<T, C>> ld;
    DO *A       = nullptr;
    const HM *h = nullptr, *diag = nullptr;
    if (kind == 0) b0.reset(new htool::DefaultApproximationBuilder<T, C>(gen, tc, sc, R(p->epsilon), C(p->eta), p->sym, p->uplo, sub.comm));
    if (kind == 1) b0.reset(new htool::DefaultApproximationBuilder<T, C>(igen, tc, sc, R(p->epsilon), C(p->eta), p->sym, p->uplo, sub.comm));
    if (kind == 2) {
        auto bb = p->builder();
        if (r.p(0.5)) b2.reset(new htool::DistributedOperatorFromHMatrix<T, C>(gen, tc, sc, *bb, sub.comm));
        else b2.reset(new htool::DistributedOperatorFromHMatrix<T, C>(igen, tc, sc, *bb, sub.comm));
    }
    if (kind == 3) b3.reset(new htool::DefaultLocalApproximationBuilder<T, C>(gen, tc, sc, R(p->epsilon), C(p->eta), p->sym, p->uplo, sub.comm));
    if (kind >= 4) {
        dense.reset(new Mat(tl.get_size(), sc.get_size()));
        gen.copy_submatrix(tl.get_size(), sc.get_size(), tc.get_permutation().data() + tl.get_offset(), sc.get_permutation().data() + sc.get_offset(), dense->data());
        ld.reset(new htool::LocalDenseMatrix<T, C>(*dense, tl, sc, 'N', 'N'));
        b4.reset(new htool::CustomApproximationBuilder<T, C>(tc, sc, p->sym, p->uplo, sub.comm, *ld));
    }
    if (b0) A = &b0->distributed_operator, h = &b0->hmatrix, diag = b0->block_diagonal_hmatrix;
    if (b2) A = &b2->distributed_operator, h = &b2->hmatrix, diag = b2->block_diagonal_hmatrix;
    if (b3) A = &b3->distributed_operator, h = &b3->hmatrix, diag = b3->block_diagonal_hmatrix;
    if (b4) A = &b4->distributed_operator;
    cx.check(A->get_symmetry_type() == p->sym && A->get_storage_type() == p->uplo && A->get_comm() == sub.comm, "operator-properties");
    cx.check(log->errors == 0, "error-while-building", log->last_error());
    // ---- global reference in cluster numbering
    Dense M(p->nt, p->ns), Am(p->nt, p->ns);
    int maxrank = 0;
    {
        Dense m, a;
        int co = 0;
        if (h) {
            Rep rep = represented(*h, p->sym, p->diag_lo, p->diag_hi);
            cx.check(rep.holes == 0 && rep.multi == 0, "local-hmatrix-coverage", S() << rep.holes << "/" << rep.multi);
            cx.check(h->get_target_cluster().get_offset() == tl.get_offset() && h->nb_rows() == tl.get_size(), "local-rows");
            cx.check(diag && &diag->get_target_cluster() == &tl && &diag->get_source_cluster() == &sl, "block-diagonal-hmatrix");
            m       = rep.M;
            a       = rep.A;
            co      = h->get_source_cluster().get_offset();
            maxrank = rep.maxrank;
            cx.count("lowrank_leaves", rep.nlr);
            cx.count("mirrored_leaves", rep.mirrored);
        } else m = frommat(*dense), a = absd(m);
        for (int j = 0; j < m.n; j++)
            for (int i = 0; i < m.m; i++) {
                M(i + tl.get_offset(), j + co)  = m(i, j);
                Am(i + tl.get_offset(), j + co) = a(i, j);
            }
        M  = allsum(M, sub.comm);
        Am = allsum(Am, sub.comm);
        MPI_Allreduce(MPI_IN_PLACE, &maxrank, 1, MPI_INT, MPI_MAX, sub.comm);
    }
    if (kind != 3 && kind <= 2) { // the gathered matrix approximates the kernel
        Prob q2;
        Dense ex(p->nt, p->ns);
        for (int j = 0; j < ex.n; j++)
            for (int i = 0; i < ex.m; i++) ex(i, j) = up(p->ker(tc.get_permutation()[i], sc.get_permutation()[j]));
        bool svd = kind == 2 && p->lrk >= 2, judge = (svd || (p->eta <= 2 && p->gt != 5 && p->gs != 5 && p->ker.d0 >= 0.05 * p->ker.L)) && p->reqrank < 0;
        double n = fro(ex);
        if (judge && p->ker.diag == 0 && p->epsilon > (sizeof(R) == 4 ? 1e-4 : 1e-9)) {
            cx.le(frodiff(M, ex), (svd ? 1.001 : 100) * p->epsilon * n + 200 * eps() * std::sqrt((double)(ex.m + ex.n)) * std::max(n, fro(Am)), "global-error");
            cx.count("global_errors");
        }
    }
    drive_products(cx, r, A, sub, tc, sc, M, Am, maxrank, p->threads, cx.thorough ? 16 : 9, kind == 3 ? ":block-diagonal" : kind >= 4 ? ":dense" : kind == 2 ? ":custom" : "");
}
} // namespace vf
