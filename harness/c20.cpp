// C20: a distributed operator is the sum of its local operators (dense, hierarchical, user-defined).
#include "mpix.hpp"
using namespace vf;
namespace vf {
// E: rows of the rank x all columns, partition numbering. Counts and checks what it receives.
struct UserOp : htool::VirtualLocalOperator<T> {
    Dense E;
    int coff = 0, csize = 0;
    mutable long calls[5] = {0, 0, 0, 0, 0};
    void apply(char t, T al, const T *in, T be, T *out, int mu) const {
        // plain: in has all columns, out the rank's rows; transposed: the other way, own column range only
        int nr = E.m;
        if (t == 'N') {
            for (int c = 0; c < mu; c++)
                for (int i = 0; i < nr; i++) {
                    D s(0);
                    for (int j = coff; j < coff + csize; j++) s += E(i, j) * up(in[(size_t)j * mu + c]);
                    out[(size_t)i * mu + c] = al * conv(s) + be * out[(size_t)i * mu + c];
                }
        } else {
            for (int c = 0; c < mu; c++)
                for (int j = coff; j < coff + csize; j++) {
                    D s(0);
                    for (int i = 0; i < nr; i++) s += E(i, j) * up(in[(size_t)i * mu + c]);
                    out[(size_t)j * mu + c] = al * conv(s) + be * out[(size_t)j * mu + c];
                }
        }
    }
    static double conv1(double x, double *) { return x; }
    template <class X>
    static X cv(double x, X *) { return X(x); }
    template <class X>
    static std::complex<X> cv(std::complex<double> x, std::complex<X> *) { return std::complex<X>(X(x.real()), X(x.imag())); }
    static T conv(D x) { return cv(x, (T *)nullptr); }
    void add_vector_product_global_to_local(T al, const T *const in, T be, T *const out) const override { calls[0]++, apply('N', al, in, be, out, 1); }
    void add_matrix_product_global_to_local(T al, const T *const in, T be, T *const out, int mu) const override { calls[1]++, apply('N', al, in, be, out, mu); }
    void add_vector_product_transp_local_to_global(T al, const T *const in, T be, T *const out) const override { calls[2]++, apply('T', al, in, be, out, 1); }
    void add_matrix_product_transp_local_to_global(T al, const T *const in, T be, T *const out, int mu) const override { calls[3]++, apply('T', al, in, be, out, mu); }
    void sub_matrix_product_to_local(const T *const in, T *const out, int mu, int offset, int size) const override {
        calls[4]++;
        for (int c = 0; c < mu; c++)
            for (int i = 0; i < E.m; i++) {
                D s(0);
                for (int j = std::max(offset, coff); j < std::min(offset + size, coff + csize); j++) s += E(i, j) * up(in[(size_t)(j - offset) * mu + c]);
                out[(size_t)i * mu + c] = conv(s);
            }
    }
};
// user operator written against the LocalOperator base: receives its own ranges in the numbering it declared
struct UserLocal : htool::LocalOperator<T, C> {
    Dense B; // full matrix, cluster numbering
    mutable long calls = 0, bad = 0;
    UserLocal(const Dense &b, const Clu &t, const Clu &s, char sym, char uplo, bool tp, bool sp) : htool::LocalOperator<T, C>(t, s, sym, uplo, tp, sp), B(b) {}
    void apply(char t, T al, const T *in, T be, T *out, int mu) const {
        calls++;
        Dense O = op(t, B);
        for (int c = 0; c < mu; c++)
            for (int i = 0; i < O.m; i++) {
                D s(0);
                for (int j = 0; j < O.n; j++) s += O(i, j) * up(in[(size_t)j * mu + c]);
                out[(size_t)i * mu + c] = al * UserOp::conv(s) + be * out[(size_t)i * mu + c];
            }
    }
    void local_add_vector_product(char t, T al, const T *in, T be, T *out) const override { bad += this->m_symmetry != 'N', apply(t, al, in, be, out, 1); }
    void local_add_vector_product_symmetric(char t, T al, const T *in, T be, T *out, char u, char s) const override { bad += s != this->m_symmetry || u != this->m_UPLO || s == 'N', apply(t, al, in, be, out, 1); }
    void local_add_matrix_product_row_major(char t, T al, const T *in, T be, T *out, int mu) const override { bad += this->m_symmetry != 'N', apply(t, al, in, be, out, mu); }
    void local_add_matrix_product_symmetric_row_major(char t, T al, const T *in, T be, T *out, int mu, char u, char s) const override { bad += s != this->m_symmetry || u != this->m_UPLO || s == 'N', apply(t, al, in, be, out, mu); }
};
struct Item {
    int kind;
    std::string d;
    std::unique_ptr<Clu> own_t, own_s;
    std::unique_ptr<Mat> mat;
    std::unique_ptr<HM> hm;
    std::vector<C> xt, xs;
    Kernel ker;
    std::unique_ptr<htool::VirtualLocalOperator<T>> op;
    UserOp *uo    = nullptr;
    UserLocal *ul = nullptr;
    Dense E, A; // rank rows x all columns, partition numbering
    int coff = 0, csize = 0, maxrank = 0;
    char sym = 'N';
};
static std::vector<C> permuted(const std::vector<C> &x, int dim, const Clu &c) {
    std::vector<C> y((size_t)c.get_size() * dim);
    for (int i = 0; i < c.get_size(); i++)
        for (int d = 0; d < dim; d++) y[(size_t)i * dim + d] = x[(size_t)c.get_permutation()[c.get_offset() + i] * dim + d];
    return y;
}
static Clu *given_tree(Rng &r, int dim, const std::vector<C> &x, int parts) {
    int n = (int)x.size() / dim;
    htool::ClusterTreeBuilder<C> b;
    b.set_minclustersize(r.pick({1, 3, 8}));
    parts                 = std::min(parts, n);
    std::vector<int> part = make_partition(r, n, parts, 0);
    return new Clu(b.create_cluster_tree(n, dim, x.data(), 2, parts, part.data()));
}
void vf_case(Ctx &cx) {
    Rng &r   = cx.rng;
    auto log = logrec();
    int np   = World::get().size;
    int P    = r.p(0.6) ? np : r.i(1, np);
    Sub sub(r, P);
    if (sub.comm == MPI_COMM_NULL) return;
    Opts o;
    o.nmin = std::max(P, 2);
    o.nmax = cx.thorough ? 120 : 70;
    if (cx.tail(43, 13)) o.nmin = 150, o.nmax = 350; // a few larger problems among the cases
    o.parts = P;
    o.given = r.p(0.8) ? 1 : -1;
    o.allow_part = o.allow_local = o.allow_incons = o.allow_sym = o.allow_reqrank = false;
    auto p = random_prob(r, o);
    cx.desc(S() << "P=" << P << " " << p->d);
    omp_set_num_threads(p->threads);
    const Clu &tc = *p->tc, &sc = *p->sc;
    const Clu &tl = *tc.get_clusters_on_partition()[sub.rank], &sl = *sc.get_clusters_on_partition()[sub.rank];
    int nr = tl.get_size(), nc = sc.get_size();
    // global mode: 0 plain sum, 1 every rank holds symmetric diagonal blocks and the sum is declared symmetric
    bool symmode = p->same && r.p(0.3);
    char dsym    = symmode ? (CPLX ? r.pick({'S', 'H'}) : 'S') : 'N', dup = symmode ? r.pick({'L', 'U'}) : 'N';
    bool anynum = r.p(0.7); // use user-numbering flags at all
    Rng lr(cx.seed * 7919 + cx.k * 104729 + sub.rank * 31 + 5);
    int nops = symmode ? lr.i(1, 2) : lr.i(lr.p(0.1) ? 0 : 1, 4);
    std::vector<std::unique_ptr<Item>> items;
    Dense M(tc.get_size(), nc), Am(tc.get_size(), nc);
    int maxrank = 0;
    log->clear();
    for (int q = 0; q < nops; q++) {
        items.emplace_back(new Item);
        Item &it = *items.back();
        it.kind  = lr.i(0, 3);
        // clusters of the operator
        const Clu *ot = &tl, *os = &sl;
        int where = symmode ? 1 : lr.i(0, 3); // 0 all columns, 1 own part, 2 another part, 3 own tree over a range of columns
        if (it.kind == 2) where = symmode ? 1 : where;
        bool own_t = !symmode && lr.p(0.25);
        bool tp = anynum && lr.p(0.4), sp = anynum && lr.p(0.5);
        if (where == 0) os = &sc;
        if (where == 2) os = sc.get_clusters_on_partition()[lr.i(0, P - 1)];
        if (where == 3) {
            it.xs = permuted(p->xs, p->dim, sc);
            it.own_s.reset(given_tree(lr, p->dim, it.xs, lr.i(1, 4)));
            auto cl = it.own_s->get_clusters_on_partition();
            os      = cl[lr.i(0, (int)cl.size() - 1)];
            if (lr.p(0.2)) os = it.own_s.get();
        } else it.xs = p->xs;
        if (own_t) {
            it.xt = permuted(p->xt, p->dim, tl);
            it.own_t.reset(given_tree(lr, p->dim, it.xt, lr.i(1, 2)));
            ot = it.own_t.get();
        } else it.xt = p->xt;
        auto stable = [](const Clu &c) { return c.is_root() || c.is_permutation_local(); };
        if (!stable(*ot)) tp = false;
        if (!stable(*os)) sp = false;
        if (symmode) sp = tp;
        it.coff = os->get_offset();
        it.csize = os->get_size();
        bool square = nr == it.csize;
        if (symmode) it.sym = dsym;
        else if (square && lr.p(0.5) && (it.kind != 1 || (where == 1 && p->same && !own_t))) it.sym = CPLX ? lr.pick({'S', 'H'}) : 'S';
        char uplo = it.sym == 'N' ? 'N' : lr.pick({'L', 'U'});
        Dense B(nr, it.csize), BA;
        if (it.kind == 1) {
            it.ker      = p->ker;
            it.ker.sym  = it.sym;
            it.ker.xt   = &it.xt;
            it.ker.xs   = &it.xs;
            it.ker.same = p->same && !own_t && where != 3;
            KGen g(it.ker);
            htool::HMatrixTreeBuilder<T, C> hb(*ot, *os, R(p->epsilon), C(p->eta), it.sym, uplo, -1, -1, -1);
            hb.set_low_rank_generator(lrgen(lr.i(0, 3)));
            it.hm.reset(new HM(hb.build(g)));
            Rep rep    = represented(*it.hm, it.sym, ot->get_offset(), ot->get_offset() + ot->get_size());
            B          = rep.M;
            BA         = rep.A;
            it.maxrank = rep.maxrank;
            cx.count("lowrank_leaves", rep.nlr);
            {
                if (it.sym == 'N' && !tp && !sp) it.op.reset(new htool::LocalHMatrix<T, C>(*it.hm, *ot, *os)); // default arguments
                else if (!tp && !sp) it.op.reset(new htool::LocalHMatrix<T, C>(*it.hm, *ot, *os, it.sym, uplo));
                else it.op.reset(new htool::LocalHMatrix<T, C>(*it.hm, *ot, *os, it.sym, uplo, tp, sp));
            }
        } else {
            it.mat.reset(new Mat(nr, it.csize));
            for (int j = 0; j < it.csize; j++)
                for (int i = 0; i < nr; i++) (*it.mat)(i, j) = rnd(lr);
            if (it.sym != 'N')
                for (int j = 0; j < it.csize; j++)
                    for (int i = 0; i < nr; i++) {
                        bool st = uplo == 'L' ? i >= j : i <= j;
                        T v     = st ? (*it.mat)(i, j) : it.sym == 'H' ? T(cj((*it.mat)(j, i))) : (*it.mat)(j, i);
                        if (i == j && it.sym == 'H') v = T(std::real(v));
                        B(i, j) = up(v);
                    }
            else B = frommat(*it.mat);
            BA = absd(B);
            if (it.sym != 'N') // the triangle that is not stored must not be read
                for (int j = 0; j < it.csize; j++)
                    for (int i = 0; i < nr; i++) {
                        if (uplo == 'L' ? i < j : i > j) (*it.mat)(i, j) = T(std::numeric_limits<R>::quiet_NaN());
                        if (i == j && it.sym == 'H') (*it.mat)(i, j) = T(std::real((*it.mat)(i, j)));
                    }
            if (it.kind == 0) {
                if (it.sym == 'N' && !tp && !sp) it.op.reset(new htool::LocalDenseMatrix<T, C>(*it.mat, *ot, *os)); // default arguments
                else if (!tp && !sp) it.op.reset(new htool::LocalDenseMatrix<T, C>(*it.mat, *ot, *os, it.sym, uplo));
                else it.op.reset(new htool::LocalDenseMatrix<T, C>(*it.mat, *ot, *os, it.sym, uplo, tp, sp));
            }
            else if (it.kind == 3) it.op.reset(it.ul = new UserLocal(B, *ot, *os, it.sym, uplo, tp, sp));
        }
        // effective matrix, partition numbering
        it.E = Dense(nr, nc);
        it.A = Dense(nr, nc);
        for (int j = 0; j < it.csize; j++)
            for (int i = 0; i < nr; i++) {
                int gi = tp && it.kind != 2 ? ot->get_permutation()[ot->get_offset() + i] - ot->get_offset() : i;
                int gj = it.coff + (sp && it.kind != 2 ? os->get_permutation()[os->get_offset() + j] - os->get_offset() : j);
                it.E(gi, gj) = B(i, j);
                it.A(gi, gj) = BA(i, j);
            }
        if (it.kind == 2) {
            it.op.reset(it.uo = new UserOp);
            it.uo->E     = it.E;
            it.uo->coff  = it.coff;
            it.uo->csize = it.csize;
        }
        it.d = S() << "(" << "DHVL"[it.kind] << " cols " << it.coff << "+" << it.csize << " where=" << where << own_t << " " << it.sym << uplo << (tp ? " tuser" : "") << (sp ? " suser" : "") << ")";
        cx.desc(it.d);
        cx.count(S() << "kind_" << "DHVL"[it.kind]);
        if (tp || sp) cx.count("user_numbered_operators");
        if (it.sym != 'N') cx.count("symmetric_operators");
        maxrank = std::max(maxrank, it.maxrank);
        for (int j = 0; j < nc; j++)
            for (int i = 0; i < nr; i++) {
                M(tl.get_offset() + i, j) += it.E(i, j);
                Am(tl.get_offset() + i, j) += it.A(i, j);
            }
    }
    cx.check(log->errors == 0, "error-while-building", log->last_error());
    if (nops > 1) cx.count("sums");
    // ---- each operator alone, with alpha and beta
    for (auto &pi : items) {
        Item &it = *pi;
        for (int rep = 0; rep < 3; rep++) {
            int e  = lr.i(0, 4);
            int mu = e == 0 || e == 2 ? 1 : lr.pick({1, 2, 3, 6});
            if (cx.tail(23, 7) && e != 0 && e != 2) mu = 18 + (int)(cx.k / 23 % 50); // many columns in a few cases
            T al = rscal(lr), be = rscal(lr);
            bool tr  = e == 2 || e == 3;
            int soff = 0, ssz = nc;
            if (e == 4) {
                al = T(1), be = T(0);
                soff = lr.i(0, nc - 1);
                ssz  = lr.i(1, nc - soff);
                if (lr.p(0.3)) soff = it.coff, ssz = it.csize;
            }
            const char *nm[] = {"vec", "mat", "vecT", "matT", "sub"};
            cx.op(S() << "[alone " << "DHVL"[it.kind] << " " << nm[e] << " mu=" << mu << " al=" << al << " be=" << be << (e == 4 ? std::string(S() << " range " << soff << "+" << ssz) : std::string()) << "]");
            int ni = tr ? nr : ssz, no = tr ? nc : nr;
            std::vector<T> x = rvec(lr, (size_t)ni * mu), y = rvec(lr, (size_t)no * mu);
            Dense Ein(nr, ssz), Ain(nr, ssz);
            for (int j = 0; j < ssz; j++)
                for (int i = 0; i < nr; i++) Ein(i, j) = it.E(i, soff + j), Ain(i, j) = it.A(i, soff + j);
            Dense X = fromrm(ni, mu, x.data()), Y = fromrm(no, mu, y.data());
            bool overlap = e != 4 || !(soff + ssz <= it.coff || it.coff + it.csize <= soff);
            if (e == 4 && !overlap) continue; // nothing to do: whether zero is written is left open
            Dense ref = axpby(up(al), mul(op(tr ? 'T' : 'N', Ein), X), up(be), Y), mag = axpby(std::abs(up(al)), mul(op(tr ? 'T' : 'N', Ain), absd(X)), std::abs(up(be)), absd(Y));
            if (tr) // only its own columns are touched
                for (int j = 0; j < nc; j++)
                    if (j < it.coff || j >= it.coff + it.csize)
                        for (int c = 0; c < mu; c++) ref(j, c) = Y(j, c), mag(j, c) = std::abs(Y(j, c));
            Guard gx(x), gy(y);
            log->clear();
            switch (e) {
            case 0: it.op->add_vector_product_global_to_local(al, gx.data(), be, gy.data()); break;
            case 1: it.op->add_matrix_product_global_to_local(al, gx.data(), be, gy.data(), mu); break;
            case 2: it.op->add_vector_product_transp_local_to_global(al, gx.data(), be, gy.data()); break;
            case 3: it.op->add_matrix_product_transp_local_to_global(al, gx.data(), be, gy.data(), mu); break;
            case 4: it.op->sub_matrix_product_to_local(gx.data(), gy.data(), mu, soff, ssz); break;
            }
            std::string key = S() << "alone:" << nm[e] << ":" << "DHVL"[it.kind] << ":" << it.sym;
            cx.check(log->errors == 0, S() << "error-reported:" << key, log->last_error());
            cx.check(gy.intact() && gx.intact() && gx.vec() == x, S() << "buffers:" << key);
            double tol = 8 * eps() * (nr + nc + it.maxrank + p->threads + 10);
            cx.le(worst(fromrm(no, mu, gy.data()), ref, mag, 1e-290) / tol, 1, key);
            cx.count("single_products");
        }
        if (it.ul) cx.check(it.ul->bad == 0, "user-operator-called-with-wrong-symmetry", S() << it.ul->bad);
    }
    // ---- the sum
    MPI_Allreduce(MPI_IN_PLACE, &maxrank, 1, MPI_INT, MPI_MAX, sub.comm);
    M  = allsum(M, sub.comm);
    Am = allsum(Am, sub.comm);
    htool::PartitionFromCluster<T, C> pt(tc), ps(sc);
    DO A(pt, ps, dsym, dup, sub.comm);
    for (auto &it : items) A.add_local_operator(it->op.get());
    auto sumcalls = [](const Item &it) { return it.uo ? it.uo->calls[0] + it.uo->calls[1] + it.uo->calls[2] + it.uo->calls[3] + it.uo->calls[4] : it.ul->calls; };
    std::map<const Item *, long> before;
    for (auto &it : items)
        if (it->uo || it->ul) before[it.get()] = sumcalls(*it);
    drive_products(cx, r, &A, sub, tc, sc, M, Am, maxrank, p->threads, cx.thorough ? 12 : 8, symmode ? ":symmetric-sum" : ":sum", [&](int e) {
        for (auto &it : items)
            if (it->uo || it->ul) {
                long now = sumcalls(*it), d = now - before[it.get()];
                before[it.get()] = now;
                bool ok = e == 16 || e == 17 ? d == 0 : e == 18 && it->ul ? d <= 1 : d == 1;
                cx.check(ok, "user-operator-not-applied-exactly-once", S() << EN[e] << ": " << d << " calls");
                cx.count("user_operator_calls", d);
            }
    });
}
} // namespace vf
