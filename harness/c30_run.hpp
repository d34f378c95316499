// One scenario: clusters, assembly, products, scaling, arithmetic, factorisation (included once per variant).
#include "c30.hpp"
#include "hmx.hpp"
#include <htool/hmatrix/hmatrix_output.hpp>
#include <htool/hmatrix/linalg/add_hmatrix_hmatrix_product.hpp>
#include <htool/hmatrix/linalg/factorization.hpp>
#include <htool/hmatrix/linalg/interface.hpp>
#include <set>
#include <thread>
using namespace vf;
namespace vf {
struct Seen {
    std::thread::id owner = std::this_thread::get_id();
    std::atomic<long> calls{0}, foreign{0}, concurrent{0}, active{0};
    std::mutex m;
    std::set<std::thread::id> ids;
};
struct Call { // life time of one call of user code
    Seen &s;
    explicit Call(Seen &q) : s(q) {
        s.calls++;
        if (s.active++ > 0) s.concurrent++;
        if (std::this_thread::get_id() != s.owner) s.foreign++;
        std::lock_guard<std::mutex> l(s.m);
        s.ids.insert(std::this_thread::get_id());
    }
    ~Call() { s.active--; }
};
struct UGen : htool::VirtualGenerator<T> {
    const Kernel &k;
    Seen &s;
    UGen(const Kernel &q, Seen &w) : k(q), s(w) {}
    void copy_submatrix(int M, int N, const int *rows, const int *cols, T *ptr) const override {
        Call c(s);
        for (int j = 0; j < N; j++)
            for (int i = 0; i < M; i++) ptr[i + (size_t)M * j] = k(rows[i], cols[j]);
    }
};
struct UDense : htool::VirtualDenseBlocksGenerator<T> {
    const Prob &p;
    Seen &s;
    UDense(const Prob &q, Seen &w) : p(q), s(w) {}
    void copy_dense_blocks(const std::vector<int> &M, const std::vector<int> &N, const std::vector<int> &ro, const std::vector<int> &co, std::vector<T *> &ptr) const override {
        Call c(s);
        for (size_t b = 0; b < M.size(); b++)
            for (int j = 0; j < N[b]; j++)
                for (int i = 0; i < M[b]; i++) ptr[b][i + (size_t)M[b] * j] = p.ker(p.tc->get_permutation()[i + ro[b]], p.sc->get_permutation()[j + co[b]]);
    }
};
struct UAdm : htool::VirtualAdmissibilityCondition<C> {
    Seen &s;
    htool::RjasanowSteinbach<C> inner;
    explicit UAdm(Seen &w) : s(w) {}
    bool ComputeAdmissibility(const htool::Cluster<C> &a, const htool::Cluster<C> &b, double eta) const override {
        Call c(s);
        return inner.ComputeAdmissibility(a, b, eta);
    }
};
static uint64_t clu_digest(const Clu &root) {
    uint64_t d = fnvb(root.get_permutation().data(), sizeof(int) * root.get_permutation().size());
    std::function<void(const Clu &)> walk = [&](const Clu &c) {
        int v[6] = {c.get_offset(), c.get_size(), c.get_depth(), c.get_rank(), c.get_counter(), (int)c.get_children().size()};
        d        = fnvb(v, sizeof v, d);
        C rad    = c.get_radius();
        d        = fnvb(&rad, sizeof rad, d);
        d        = fnvb(c.get_center().data(), sizeof(C) * c.get_center().size(), d);
        for (auto &q : c.get_children()) walk(*q);
    };
    walk(root);
    return d;
}
} // namespace vf
V30 V30_RUN(uint64_t seed, int threads, bool thorough) {
    V30 out;
    Rng r(seed);
    Opts o;
    o.nmax  = thorough ? 150 : 100;
    o.solve = r.p(0.4);
    if (o.solve) o.square = true;
    auto p         = random_prob(r, o);
    bool dense_gen = r.p(0.25);
    out.desc       = p->d + (dense_gen ? " densegen" : "");
    out.tree       = clu_digest(*p->tc);
    if (p->sc != p->tc) out.tree ^= 3 * clu_digest(*p->sc);
    Seen seen;
    p->threads = threads;
    p->adm     = std::make_shared<UAdm>(seen);
    UGen g(p->ker, seen);
    auto b = p->builder();
    if (dense_gen) b->set_dense_blocks_generator(std::make_shared<UDense>(*p, seen));
#ifdef _OPENMP
    omp_set_num_threads(threads);
#endif
    HM h         = b->build(g);
    out.calls    = seen.calls;
    out.foreign  = seen.foreign;
    out.concurrent   = seen.concurrent;
    out.user_threads = (int)seen.ids.size();
    out.assembled    = digest(h);
    out.info         = htool::get_hmatrix_information(h);
    Rep rep          = represented(h, *p);
    out.leaves       = rep.nleaf;
    walk_leaves(h, [&](const HM &l) { out.lowrank += l.is_low_rank(); });
    auto add = [&](const std::string &w, const std::vector<T> &v, const Dense *mag, double tol) {
        V30::Res q;
        q.what = w;
        q.bytes.assign((const unsigned char *)v.data(), (const unsigned char *)(v.data() + v.size()));
        for (auto &z : v) {
            q.val.push_back(std::real(up(z)));
            q.val.push_back(std::imag(up(z)));
        }
        if (mag)
            for (auto &z : mag->a) q.mag.push_back(std::abs(z));
        q.tol = tol;
        out.res.push_back(q);
    };
    int m = h.nb_rows(), n = h.nb_cols();
    for (int k = 0; k < 5; k++) {
        char tr = r.pick({'N', 'N', 'T', 'C'});
        if ((tr == 'T' && p->sym == 'H') || (tr == 'C' && p->sym == 'S')) tr = 'N';
        T al = rscal(r), be = rscal(r);
        int mu = k < 2 ? 1 : r.i(1, 5);
        int ni = tr == 'N' ? n : m, no = tr == 'N' ? m : n;
        std::vector<T> x = rvec(r, (size_t)ni * mu), y = rvec(r, (size_t)no * mu), y1 = y;
        int e = r.i(0, 2);
        if (mu == 1 && k < 2) {
            if (e == 0) htool::openmp_internal_add_hmatrix_vector_product(tr, al, h, (const T *)x.data(), be, y.data());
            else if (e == 1) htool::internal_add_hmatrix_vector_product(tr, al, h, (const T *)x.data(), be, y.data());
            else htool::sequential_internal_add_hmatrix_vector_product(tr, al, h, (const T *)x.data(), be, y.data());
        } else {
            if (e == 0) htool::openmp_internal_add_hmatrix_matrix_product_row_major(tr, 'N', al, h, (const T *)x.data(), be, y.data(), mu);
            else if (e == 1) htool::internal_add_hmatrix_matrix_product_row_major(tr, 'N', al, h, (const T *)x.data(), be, y.data(), mu);
            else htool::sequential_internal_add_hmatrix_matrix_product_row_major(tr, 'N', al, h, (const T *)x.data(), be, y.data(), mu);
        }
        Dense B = fromrm(ni, mu, x.data()), C0 = fromrm(no, mu, y1.data());
        Dense mg = axpby(std::abs(up(al)), mul(absd(op(tr, rep.A)), absd(B)), std::abs(up(be)), absd(C0));
        std::vector<T> yc((size_t)no * mu); // column-major like mg
        for (int i = 0; i < no; i++)
            for (int q = 0; q < mu; q++) yc[i + (size_t)no * q] = y[q + (size_t)mu * i];
        add(S() << "product" << k << tr << e << " mu=" << mu, yc, &mg, 8 * eps() * (ni + rep.maxrank + threads + 10));
    }
    {
        Mat D(m, n);
        if (p->sym == 'N') htool::copy_to_dense(h, D.data());
        add("dense", std::vector<T>(D.data(), D.data() + (size_t)m * n), nullptr, 0);
    }
    T da = rnd(r);
    if (r.p(0.5)) htool::openmp_scale(da, h);
    else htool::sequential_scale(da, h);
    if (o.solve && m == n && p->sym == 'N' && p->mode == 0 && p->consistent) {
        htool::lu_factorization(h);
        int mu = r.i(1, 3);
        Mat X(n, mu);
        for (int i = 0; i < n * mu; i++) X.data()[i] = rnd(r);
        htool::internal_lu_solve('N', h, X);
        add("solve", std::vector<T>(X.data(), X.data() + (size_t)n * mu), nullptr, 0);
    }
    out.after = digest(h);
    return out;
}
