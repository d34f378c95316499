// Random H-matrix problems over htool's public API and an independent densifier.
#ifndef VF_HMX_HPP
#define VF_HMX_HPP
#include "common.hpp"
#include <htool/clustering/clustering.hpp>
#include <htool/hmatrix/hmatrix.hpp>
#include <htool/hmatrix/hmatrix_output.hpp>
#include <htool/hmatrix/linalg/interface.hpp>
#include <htool/hmatrix/lrmat/SVD.hpp>
#include <htool/hmatrix/lrmat/fullACA.hpp>
#include <htool/hmatrix/lrmat/linalg/interface.hpp>
#include <htool/hmatrix/lrmat/partialACA.hpp>
#include <htool/hmatrix/lrmat/sympartialACA.hpp>
#include <htool/hmatrix/tree_builder/tree_builder.hpp>
#include <htool/matrix/linalg/interface.hpp>

namespace vf {
typedef R C; // coordinate precision used together with T
typedef htool::Cluster<C> Clu;
typedef htool::HMatrix<T, C> HM;
typedef htool::LowRankMatrix<T, C> LR;
typedef htool::Matrix<T> Mat;

// ---- log monitor --------------------------------------------------------------
struct LogRec : htool::IObjectWriter {
    std::mutex m;
    std::vector<std::pair<htool::LogLevel, std::string>> msgs;
    long errors = 0;
    void set_log_level(htool::LogLevel) override {}
    void write(htool::LogLevel l, const std::string &s) override {
        std::lock_guard<std::mutex> g(m);
        if (msgs.size() < 1000) msgs.emplace_back(l, s);
        if (l <= htool::LogLevel::ERROR) errors++;
    }
    void clear() {
        std::lock_guard<std::mutex> g(m);
        msgs.clear();
        errors = 0;
    }
    std::string last_error() {
        std::lock_guard<std::mutex> g(m);
        for (size_t i = msgs.size(); i-- > 0;)
            if (msgs[i].first <= htool::LogLevel::ERROR) return msgs[i].second;
        return "";
    }
};
inline std::shared_ptr<LogRec> logrec() {
    static std::shared_ptr<LogRec> l = [] {
        auto p     = std::make_shared<LogRec>();
        case_end() = [] {
            logrec()->clear();
            std::vector<std::pair<htool::LogLevel, std::string>>().swap(logrec()->msgs);
        };
        htool::Logger::get_instance().set_current_writer(p);
        return p;
    }();
    return l;
}

// ---- kernel -------------------------------------------------------------------
struct Kernel {
    int kind = 0, dim = 3;
    char sym = 'N';
    double d0 = 0.1, L = 1, k = 1, amp = 1;
    double scale = 1;
    double diag  = 0; // added when i==j and both clouds are the same
    double cutoff = -1; // compactly supported kernels vanish beyond it
    bool same    = true;
    const std::vector<C> *xt = nullptr, *xs = nullptr;
    T operator()(int i, int j) const { return eval(i, j, std::integral_constant<bool, CPLX>()); }
    double g(int i, int j, double &r, double &dx) const {
        double s = 0;
        for (int d = 0; d < dim; d++) {
            double e = (double)(*xt)[(size_t)i * dim + d] - (double)(*xs)[(size_t)j * dim + d];
            s += e * e;
        }
        r  = std::sqrt(s);
        dx = (double)(*xt)[(size_t)i * dim] - (double)(*xs)[(size_t)j * dim];
        if (cutoff >= 0 && r > cutoff) return 0;
        double v;
        switch (kind) {
        case 0: v = 1 / (d0 + r); break;
        case 1: v = std::exp(-r / L); break;
        case 2: v = std::log(d0 + r); break;
        default: v = 1 / (d0 * d0 + r * r); break;
        }
        if (sym == 'N') v *= (1 + 0.3 * std::sin((double)(*xt)[(size_t)i * dim] / L)) * (1 + 0.2 * std::cos((double)(*xs)[(size_t)j * dim + 1] / L));
        return v * amp;
    }
    R eval(int i, int j, std::false_type) const {
        double r, dx;
        double v = g(i, j, r, dx);
        if (same && i == j) v += diag;
        return R(v * scale);
    }
    std::complex<R> eval(int i, int j, std::true_type) const {
        double r, dx;
        double v = g(i, j, r, dx);
        double ph = sym == 'H' ? k * dx / L : k * r / L;
        std::complex<double> z = v * std::exp(std::complex<double>(0, ph));
        if (same && i == j) z += diag * (sym == 'H' ? std::complex<double>(1, 0) : std::complex<double>(1, 0.1));
        z *= scale;
        return std::complex<R>(R(z.real()), R(z.imag()));
    }
};
struct KGen : htool::VirtualGenerator<T> {
    const Kernel &k;
    mutable std::atomic<long> calls{0};
    explicit KGen(const Kernel &k_) : k(k_) {}
    void copy_submatrix(int M, int N, const int *rows, const int *cols, T *ptr) const override {
        calls++;
        for (int j = 0; j < N; j++)
            for (int i = 0; i < M; i++) ptr[i + (size_t)M * j] = k(rows[i], cols[j]);
    }
};

inline std::shared_ptr<htool::VirtualLowRankGenerator<T, C>> lrgen(int kind) {
    switch (kind) {
    case 0: return std::make_shared<htool::sympartialACA<T, C>>();
    case 1: return std::make_shared<htool::partialACA<T, C>>();
    case 2: return std::make_shared<htool::fullACA<T, C>>();
    default: return std::make_shared<htool::SVD<T, C>>();
    }
}
static const char *LRN[] = {"sympartialACA", "partialACA", "fullACA", "SVD"};

// ---- random problem -----------------------------------------------------------
struct Opts {
    int nmin = 1, nmax = 160;
    bool square   = false; // same cluster for target and source
    bool allow_sym = true, allow_part = true, allow_local = true, allow_incons = true, allow_depths = true, allow_reqrank = true, allow_dups = true;
    bool force_sym = false;
    bool solve     = false; // diagonally dominant / positive definite
    double epslo = 1e-12, epshi = 1e-1;
    int maxpart = 5;
    int parts = -1, given = -1; // fixed number of partition pieces; given / geometric partition (-1: any)
};
struct Prob {
    int nt = 0, ns = 0, dim = 3, gt = 0, gs = 0;
    std::vector<C> xt, xs;
    std::unique_ptr<Clu> ct, cs;
    bool same = true;
    const Clu *tc = nullptr, *sc = nullptr; // root clusters given to the builder
    int spt = 1, sps = 1;                   // partition sizes
    Kernel ker;
    double epsilon = 1e-3, eta = 10;
    char sym = 'N', uplo = 'N';
    int reqrank = -1, tpart = -1, spart = -1, mode = 0, lrk = 0, mint = 0, mins = 0, threads = 1;
    int minsize_t = 10, minsize_s = 10; // minimal cluster sizes the trees were built with
    bool consistent = true, localt = false, locals = false;
    int diag_lo = 0, diag_hi = 0; // range of the symmetric diagonal block (cluster numbering)
    std::string d;

    std::shared_ptr<htool::VirtualAdmissibilityCondition<C>> adm;
    std::unique_ptr<htool::HMatrixTreeBuilder<T, C>> builder() const {
        std::unique_ptr<htool::HMatrixTreeBuilder<T, C>> b(new htool::HMatrixTreeBuilder<T, C>(*tc, *sc, R(epsilon), C(eta), sym, uplo, reqrank, tpart, spart));
        b->set_low_rank_generator(lrgen(lrk));
        if (adm) b->set_admissibility_condition(adm);
        if (mint) b->set_minimal_target_depth(mint);
        if (mins) b->set_minimal_source_depth(mins);
        if (!consistent) b->set_block_tree_consistency(false);
        return b;
    }
    HM build(const htool::VirtualGenerator<T> &g) const {
#ifdef _OPENMP
        omp_set_num_threads(threads);
#endif
        return builder()->build(g);
    }
    HM build() const {
        KGen g(ker);
        return build(g);
    }
    int rows_lo() const { return tpart >= 0 ? tc->get_clusters_on_partition()[tpart]->get_offset() : tc->get_offset(); }
    int nrows() const { return tpart >= 0 ? tc->get_clusters_on_partition()[tpart]->get_size() : tc->get_size(); }
    int cols_lo() const { return sc->get_offset(); }
    int ncols() const { return sc->get_size(); }
    // exact matrix in cluster numbering
    Dense exact() const {
        Dense M(nrows(), ncols());
        const auto &pt = tc->get_permutation();
        const auto &ps = sc->get_permutation();
        for (int j = 0; j < M.n; j++)
            for (int i = 0; i < M.m; i++) M(i, j) = up(ker(pt[i + rows_lo()], ps[j + cols_lo()]));
        return M;
    }
};
template <class X>
std::vector<int> make_partition(Rng &r, int n, int p, X) {
    // p contiguous pieces, uneven on purpose, each of size >= 1
    std::vector<int> cuts;
    std::set<int> s;
    while ((int)s.size() < p - 1) s.insert(r.i(1, n - 1));
    cuts.push_back(0);
    for (int c : s) cuts.push_back(c);
    cuts.push_back(n);
    std::vector<int> out;
    for (int i = 0; i < p; i++) {
        out.push_back(cuts[i]);
        out.push_back(cuts[i + 1] - cuts[i]);
    }
    return out;
}
struct CluCfg {
    int nchild = 2, size_part = 1, minsize = 10, dir = 0, split = 0;
    bool given = false, radii = false, weights = false;
    std::vector<int> part;
    std::vector<C> rad, wei;
};
// can the builder reach the partition level with regular splitting?
inline int partition_depth(int nc, int sp) {
    int d = 0;
    for (long q = nc; q <= sp; q *= nc) d++;
    return std::max(1, d);
}
inline bool feasible_node(int size, int depth, bool last, int nc, int sp, int pd, int extra, int minsize) {
    if (depth == pd) return true;
    int k = depth == pd - 1 ? (sp >= nc ? nc : sp) + (last ? extra : 0) : nc;
    int cs = size / k;
    if (!(cs > minsize)) return false;
    if (depth + 1 == pd) return true;
    if (!feasible_node(cs, depth + 1, k == 1 && last, nc, sp, pd, extra, minsize)) return false;
    return feasible_node(size - cs * (k - 1), depth + 1, last, nc, sp, pd, extra, minsize);
}
inline bool partition_feasible(int n, int nc, int sp, int minsize) {
    int pd = partition_depth(nc, sp);
    int extra = sp >= nc ? sp - (int)std::lround(std::pow(nc, pd)) : 0;
    return feasible_node(n, 0, true, nc, sp, pd, extra, minsize);
}
inline CluCfg random_clucfg(Rng &r, int n, int dim, int maxpart, int sp = -1) {
    CluCfg c;
    c.nchild    = r.pick({2, 2, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 5, 7, 12});
    c.minsize   = r.pick({1, 1, 2, 3, 5, 10, 10, 20});
    Rng rare(r.s ^ 0x51f15e5ull); // rare values, without disturbing the other draws
    if (rare.p(0.04)) c.minsize = rare.pick({33, 50, 64, 100, 150});
    if (rare.p(0.02)) c.nchild = rare.i(8, 20);
    c.dir       = r.i(0, 1);
    c.split     = r.p(0.3) ? 1 : 0;
    c.size_part = sp > 0 ? sp : r.i(1, maxpart);
    c.given     = r.p(0.35);
    c.size_part = std::min(c.size_part, n);
    if (!c.given) {
        while (c.minsize > 1 && !partition_feasible(n, c.nchild, c.size_part, c.minsize)) c.minsize--;
        if (!partition_feasible(n, c.nchild, c.size_part, c.minsize)) c.given = true;
    }
    if (c.given) c.part = make_partition(r, n, c.size_part, 0);
    else if (partition_depth(c.nchild, c.size_part) > 1) c.split = 0;
    (void)dim;
    return c;
}
inline std::string cdesc(const CluCfg &c) {
    return S() << "nchild=" << c.nchild << " part=" << c.size_part << (c.given ? "(given)" : "") << " min=" << c.minsize << " dir=" << c.dir << " split=" << c.split << (c.radii ? " radii" : "") << (c.weights ? " weights" : "");
}
inline void configure(htool::ClusterTreeBuilder<C> &b, const CluCfg &c) {
    b.set_minclustersize(c.minsize);
    if (c.dir) b.set_direction_computation_strategy(std::make_shared<htool::ComputeBoundingBox<C>>());
    if (c.split) b.set_splitting_strategy(std::make_shared<htool::GeometricSplitting<C>>());
}
inline Clu *make_cluster(const CluCfg &c, int n, int dim, const std::vector<C> &x) {
    htool::ClusterTreeBuilder<C> b;
    configure(b, c);
    // the cluster tree keeps a pointer to its root: built in place through guaranteed elision (NRVO of the builder)
    return new Clu(b.create_cluster_tree(n, dim, x.data(), c.radii ? c.rad.data() : nullptr, c.weights ? c.wei.data() : nullptr, c.nchild, c.size_part, c.given ? c.part.data() : nullptr));
}

inline int pick_geom(Rng &r, bool dups) {
    int k;
    do k = r.i(0, NGEOM);
    while (!dups && (k == 5));
    return k;
}
inline double diameter(const std::vector<C> &x, int dim, const std::vector<C> &y) {
    double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
    for (auto *v : {&x, &y})
        for (size_t i = 0; i < v->size(); i++) {
            int q = i % dim;
            lo[q] = std::min(lo[q], (double)(*v)[i]);
            hi[q] = std::max(hi[q], (double)(*v)[i]);
        }
    double s = 0;
    for (int q = 0; q < dim; q++) s += (hi[q] - lo[q]) * (hi[q] - lo[q]);
    return std::sqrt(s) + 1e-30;
}

inline std::unique_ptr<Prob> random_prob(Rng &r, const Opts &o) {
    std::unique_ptr<Prob> p(new Prob);
    p->threads = r.i(1, 3);
    p->dim     = r.i(2, 3);
    auto size  = [&]() {
        if (r.p(0.12)) return r.i(o.nmin, std::min(o.nmax, o.nmin + 6));
        return r.i(std::min(o.nmax, std::max(o.nmin, o.nmax / 5)), o.nmax);
    };
    p->nt = size();
    bool wantsym = o.force_sym || (o.allow_sym && r.p(0.45));
    p->same      = o.square || wantsym || r.p(0.4);
    p->gt        = pick_geom(r, o.allow_dups);
    p->xt        = geometry<C>(r, p->gt, p->nt, p->dim);
    auto clucfg  = [&](int n) {
        CluCfg c;
        for (int q = 0; q < 50; q++) {
            c = random_clucfg(r, n, p->dim, o.maxpart, o.parts);
            if (o.given < 0 || c.given == (o.given == 1)) break;
        }
        return c;
    };
    CluCfg c1    = clucfg(p->nt);
    p->ct.reset(make_cluster(c1, p->nt, p->dim, p->xt));
    p->spt = c1.size_part;
    p->minsize_t = p->minsize_s = c1.minsize;
    CluCfg c2;
    if (p->same) {
        p->ns  = p->nt;
        p->gs  = p->gt;
        p->xs  = p->xt;
        p->sps = p->spt;
    } else {
        p->ns = size();
        p->gs = pick_geom(r, o.allow_dups);
        p->xs = geometry<C>(r, p->gs, p->ns, p->dim, r.pick({0., 0.5, 3.0}));
        c2    = clucfg(p->ns);
        if (c2.size_part != c1.size_part && r.p(0.5)) c2 = random_clucfg(r, p->ns, p->dim, o.maxpart, std::min(c1.size_part, p->ns));
        p->cs.reset(make_cluster(c2, p->ns, p->dim, p->xs));
        p->sps = c2.size_part;
        p->minsize_s = c2.minsize;
    }
    p->tc = p->ct.get();
    p->sc = p->same ? p->ct.get() : p->cs.get();
    // symmetry
    if (wantsym) {
        p->sym  = CPLX ? r.pick({'S', 'H'}) : 'S';
        p->uplo = r.pick({'L', 'U'});
    }
    // mode
    p->mode = 0;
    if (o.allow_part && r.p(0.3)) p->mode = 1;
    else if (o.allow_local && r.p(0.25)) p->mode = 2;
    if (p->mode == 1) {
        p->tpart = r.i(0, p->spt - 1);
        if (p->sym != 'N') p->spart = p->tpart;
    } else if (p->mode == 2) {
        int a = r.i(0, p->spt - 1), b = p->same && (wantsym || o.square || r.p(0.4)) ? a : r.i(0, p->sps - 1);
        p->tc = p->ct->get_clusters_on_partition()[a];
        p->sc = (p->same ? p->ct.get() : p->cs.get())->get_clusters_on_partition()[b];
    }
    p->epsilon = std::pow(10, r.u(std::log10(o.epslo), std::log10(o.epshi)));
    p->eta     = r.pick({10., 10., 3., 1., 1., 0.5, 100., 0.01});
    p->lrk     = r.i(0, 3);
    if (o.allow_reqrank && r.p(0.15)) p->reqrank = r.i(0, 6);
    if (p->sym == 'N' && o.allow_incons && r.p(0.2)) p->consistent = false;
    if (o.allow_depths && r.p(0.2)) p->mint = r.i(1, 4);
    if (o.allow_depths && r.p(0.2)) p->mins = r.i(1, 4);
    Rng rare(r.s ^ 0x7a11e5ull); // rare values, without disturbing the other draws
    if (rare.p(0.04)) p->threads = rare.i(4, 12);
    if (o.allow_reqrank && rare.p(0.02)) p->reqrank = rare.i(7, 40);
    if (rare.p(0.02)) p->eta = rare.pick({0., 1e3, 1e5});
    // kernel
    double dia   = diameter(p->xt, p->dim, p->xs);
    p->ker.dim   = p->dim;
    p->ker.kind  = r.i(0, 3);
    p->ker.sym   = p->sym;
    if (p->sym == 'N' && r.p(0.3)) p->ker.sym = 'S';
    p->ker.d0    = dia * r.pick({0.3, 0.05, 0.01});
    p->ker.L     = dia * r.pick({1., 0.5});
    p->ker.k     = r.pick({0.5, 2., 5.});
    p->ker.same  = p->same;
    // normalised amplitude
    switch (p->ker.kind) {
    case 0: p->ker.amp = p->ker.d0; break;
    case 3: p->ker.amp = p->ker.d0 * p->ker.d0; break;
    default: p->ker.amp = 1;
    }
    p->ker.scale = r.pick({1., 1., 1., 1e3, 1e-3});
    p->ker.xt    = &p->xt;
    p->ker.xs    = &p->xs;
    if (o.solve) {
        p->ker.kind = r.pick({0, 1, 3});
        p->ker.amp  = p->ker.kind == 0 ? p->ker.d0 : p->ker.kind == 3 ? p->ker.d0 * p->ker.d0 : 1;
        p->ker.diag = 0.6 * p->nt + 2;
    } else if (r.p(0.3)) p->ker.diag = r.u(0.5, 3);
    // symmetric diagonal range
    if (p->sym != 'N') {
        const Clu *q = p->tpart >= 0 ? p->tc->get_clusters_on_partition()[p->tpart] : p->tc;
        p->diag_lo   = q->get_offset();
        p->diag_hi   = p->diag_lo + q->get_size();
    }
    p->d = S() << "nt=" << p->nt << " ns=" << p->ns << " dim=" << p->dim << " geom=" << GEOM[p->gt] << "/" << (p->same ? "same" : GEOM[p->gs]) << " ct[" << cdesc(c1) << "]" << (p->same ? std::string() : std::string(S() << " cs[" << cdesc(c2) << "]"))
               << " mode=" << p->mode << " tpart=" << p->tpart << " spart=" << p->spart << " toff=" << p->tc->get_offset() << " soff=" << p->sc->get_offset() << " sym=" << p->sym << p->uplo << " eps=" << p->epsilon << " eta=" << p->eta << " lr=" << LRN[p->lrk] << " reqrank=" << p->reqrank << " cons=" << p->consistent << " mind=" << p->mint << "/" << p->mins << " kernel=" << p->ker.kind << p->ker.sym << " scale=" << p->ker.scale << " thr=" << p->threads;
    return p;
}

// ---- independent leaf walk -----------------------------------------------------
template <class F>
void walk_leaves(const HM &h, F f) {
    if (h.get_children().empty()) {
        f(h);
        return;
    }
    for (const auto &c : h.get_children()) walk_leaves(*c, f);
}
template <class F>
void walk_nodes(const HM &h, F f) {
    f(h);
    for (const auto &c : h.get_children()) walk_nodes(*c, f);
}
// represented matrix of a leaf and its magnitude bound (|U||V| for low-rank)
inline void leaf_dense(const HM &l, Dense &M, Dense &A) {
    int m = l.get_target_cluster().get_size(), n = l.get_source_cluster().get_size();
    M = Dense(m, n);
    A = Dense(m, n);
    if (l.get_dense_data()) {
        const Mat &d = *l.get_dense_data();
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++) {
                M(i, j) = up(d(i, j));
                A(i, j) = std::abs(M(i, j));
            }
    } else if (l.get_low_rank_data()) {
        const Mat &U = l.get_low_rank_data()->get_U();
        const Mat &V = l.get_low_rank_data()->get_V();
        for (int q = 0; q < U.nb_cols(); q++)
            for (int j = 0; j < n; j++)
                for (int i = 0; i < m; i++) {
                    D t = up(U(i, q)) * up(V(q, j));
                    M(i, j) += t;
                    A(i, j) += std::abs(t);
                }
    }
}
struct Rep {
    Dense M, A;
    int nleaf = 0, ndense = 0, nlr = 0, rank0 = 0, mirrored = 0, maxrank = 0, holes = 0, multi = 0;
};
// whole represented matrix, mirrored for declared symmetry inside [lo,hi) (cluster numbering)
inline Rep represented(const HM &h, char sym, int lo, int hi) {
    Rep r;
    int ro = h.get_target_cluster().get_offset(), co = h.get_source_cluster().get_offset();
    r.M = Dense(h.nb_rows(), h.nb_cols());
    r.A = Dense(h.nb_rows(), h.nb_cols());
    std::vector<int> cov((size_t)r.M.m * r.M.n, 0);
    walk_leaves(h, [&](const HM &l) {
        Dense m, a;
        leaf_dense(l, m, a);
        int i0 = l.get_target_cluster().get_offset() - ro, j0 = l.get_source_cluster().get_offset() - co;
        r.nleaf++;
        if (l.is_dense()) r.ndense++;
        if (l.is_low_rank()) {
            r.nlr++;
            r.maxrank = std::max(r.maxrank, l.get_rank());
            if (l.get_rank() == 0) r.rank0++;
        }
        for (int j = 0; j < m.n; j++)
            for (int i = 0; i < m.m; i++) {
                int gi = i0 + i, gj = j0 + j;
                if (gi < 0 || gj < 0 || gi >= r.M.m || gj >= r.M.n) {
                    r.holes += 1000000;
                    continue;
                }
                r.M(gi, gj) = m(i, j);
                r.A(gi, gj) = a(i, j);
                cov[(size_t)gj * r.M.m + gi]++;
            }
        int ti = l.get_target_cluster().get_offset(), tn = l.get_target_cluster().get_size(), si = l.get_source_cluster().get_offset(), sn = l.get_source_cluster().get_size();
        if (sym != 'N' && ti >= lo && ti + tn <= hi && si >= lo && si + sn <= hi && !(ti == si)) {
            r.mirrored++;
            for (int j = 0; j < m.n; j++)
                for (int i = 0; i < m.m; i++) {
                    int gi = si + j - ro, gj = ti + i - co;
                    if (gi < 0 || gj < 0 || gi >= r.M.m || gj >= r.M.n) {
                        r.holes += 1000000;
                        continue;
                    }
                    r.M(gi, gj) = sym == 'H' ? cj(m(i, j)) : m(i, j);
                    r.A(gi, gj) = a(i, j);
                    cov[(size_t)gj * r.M.m + gi]++;
                }
        }
    });
    for (int c : cov) {
        if (c == 0) r.holes++;
        if (c > 1) r.multi++;
    }
    return r;
}
inline Rep represented(const HM &h, const Prob &p) { return represented(h, p.sym, p.diag_lo, p.diag_hi); }

// digest of structure and contents of an H-matrix (for "unchanged" checks)
inline uint64_t digest(const HM &h) {
    uint64_t d = 1469598103934665603ull;
    walk_nodes(h, [&](const HM &l) {
        int v[7] = {l.get_target_cluster().get_offset(), l.get_target_cluster().get_size(), l.get_source_cluster().get_offset(), l.get_source_cluster().get_size(), (int)l.get_storage_type(), l.get_symmetry(), l.get_UPLO()};
        d        = fnvb(v, sizeof v, d);
        if (l.get_dense_data()) d = fnvb(l.get_dense_data()->data(), sizeof(T) * l.get_dense_data()->nb_rows() * l.get_dense_data()->nb_cols(), d);
        if (l.get_low_rank_data()) {
            const Mat &U = l.get_low_rank_data()->get_U(), &V = l.get_low_rank_data()->get_V();
            int w[4] = {U.nb_rows(), U.nb_cols(), V.nb_rows(), V.nb_cols()};
            d        = fnvb(w, sizeof w, d);
            d        = fnvb(U.data(), sizeof(T) * U.nb_rows() * U.nb_cols(), d);
            d        = fnvb(V.data(), sizeof(T) * V.nb_rows() * V.nb_cols(), d);
        }
    });
    return d;
}
inline uint64_t digest(const Mat &m) { return fnvb(m.data(), sizeof(T) * m.nb_rows() * m.nb_cols()); }
inline std::string repdesc(const Rep &r) { return S() << "leaves=" << r.nleaf << " dense=" << r.ndense << " lr=" << r.nlr << " rank0=" << r.rank0 << " maxrank=" << r.maxrank << " mirrored=" << r.mirrored; }
inline std::string repclass(const Rep &r, const Prob &p) { return S() << p.mode << p.sym << p.uplo << (p.same ? 's' : 'd') << p.consistent << (r.nlr > 0) << (r.ndense > 0) << (r.rank0 > 0) << (r.nleaf > 1) << (p.nt > p.ns) << p.lrk << (r.nleaf > 20); }
// H-matrix with more rows than the square root of the largest int, over points on a line, of a kernel of rank one: the
// represented matrix has more entries than an int can count and its products are known in closed form
struct HugeLine : htool::VirtualGenerator<T> {
    int nt = 0, ns = 0;
    char sym = 'N', uplo = 'N';
    std::vector<C> xt, xs;
    std::vector<T> a, b; // K(i,j) = a_i b_j in user numbering
    std::unique_ptr<Clu> ct, cs;
    std::unique_ptr<HM> h;
    const Clu &sc() const { return cs ? *cs : *ct; }
    void copy_submatrix(int M, int N, const int *rows, const int *cols, T *ptr) const override {
        for (int j = 0; j < N; j++)
            for (int i = 0; i < M; i++) ptr[i + (size_t)M * j] = a[rows[i]] * b[cols[j]];
    }
    explicit HugeLine(Rng &r, double eta = 0) {
        auto line = [&](int n) {
            std::vector<C> x(2 * (size_t)n);
            for (int i = 0; i < n; i++) {
                x[2 * (size_t)i]     = C(r.u(0, 1));
                x[2 * (size_t)i + 1] = C(0.001 * r.u(0, 1) / n);
            }
            return x;
        };
        auto clu = [&](int n, const std::vector<C> &x) {
            CluCfg c;
            c.nchild    = r.pick({2, 3, 4});
            c.minsize   = r.pick({8, 12, 20});
            c.size_part = r.i(1, 5);
            if (c.size_part > 1 && (c.nchild == 3 || c.nchild == 4)) c.size_part = c.nchild;
            return make_cluster(c, n, 2, x);
        };
        auto dim = [&]() { return r.i(46342, 56000); };
        nt = ns = dim();
        xt = line(nt);
        ct.reset(clu(nt, xt));
        if (r.p(0.5)) {
            sym  = CPLX ? r.pick({'S', 'H'}) : 'S';
            uplo = r.pick({'L', 'U'});
        } else if (r.p(0.5)) {
            ns = dim();
            xs = line(ns);
            cs.reset(clu(ns, xs));
        }
        auto coef = [&](int n) {
            std::vector<T> v(n);
            for (auto &z : v) z = T(R(1)) + T(R(0.5)) * rnd(r);
            return v;
        };
        a = coef(nt);
        b = sym == 'N' ? coef(ns) : a;
        if (sym == 'H')
            for (auto &z : b) z = T(cj(z));
        htool::HMatrixTreeBuilder<T, C> hb(*ct, sc(), R(1e-3), C(eta > 0 ? eta : r.pick({10., 100., 2.})), sym, uplo, 1, -1, -1); // the blocks have rank one
        hb.set_low_rank_generator(lrgen(r.i(0, 1)));
        h.reset(new HM(hb.build(*this)));
    }
    std::string desc() const { return S() << "huge line " << nt << "x" << ns << " " << sym << uplo << " leaves=" << htool::get_leaves_from(*h).first.size(); }
    // op(K) X and its magnitude, both in cluster numbering, X given column by column in cluster numbering
    void product(char tr, const Dense &X, Dense &Y, Dense &M) const {
        bool n = tr == 'N';
        const std::vector<T> &l = n ? a : b, &q = n ? b : a;
        const std::vector<int> &pl = n ? ct->get_permutation() : sc().get_permutation(), &pq = n ? sc().get_permutation() : ct->get_permutation();
        Y = Dense((int)l.size(), X.n);
        M = Y;
        for (int c = 0; c < X.n; c++) {
            D s      = 0;
            double m = 0;
            for (int j = 0; j < X.m; j++) {
                D v = up(q[pq[j]]);
                if (tr == 'C') v = cj(v);
                s += v * X(j, c);
                m += std::abs(v) * std::abs(X(j, c));
            }
            for (int i = 0; i < Y.m; i++) {
                D v = up(l[pl[i]]);
                if (tr == 'C') v = cj(v);
                Y(i, c) = v * s;
                M(i, c) = std::abs(v) * m;
            }
        }
    }
};
} // namespace vf
#endif
