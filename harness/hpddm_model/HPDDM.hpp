// Functional model of the part of HPDDM that htool's domain decomposition solvers use (the library itself is not available
// offline). It keeps HPDDM's conventions: overlapping unknowns listed per neighbour in the same order on both sides, exchange
// adds the neighbours' values (after scaling by the partition of unity when asked to), right-preconditioned Krylov iterations on
// vectors that hold the values of the overlapping subdomain. Everything handed over by htool can be observed through hook().
#ifndef VF_HPDDM_MODEL
#define VF_HPDDM_MODEL
#include <cmath>
#include <complex>
#include <functional>
#include <map>
#include <mpi.h>
#include <string>
#include <utility>
#include <vector>
#define HPDDM_SCHWARZ_METHOD_RAS 0
#define HPDDM_SCHWARZ_METHOD_ASM 3
#define HPDDM_SCHWARZ_METHOD_NONE 5
#define HPDDM_SCHWARZ_COARSE_CORRECTION_DEFLATED 0
#define HPDDM_SCHWARZ_COARSE_CORRECTION_ADDITIVE 1
#define HPDDM_SCHWARZ_COARSE_CORRECTION_BALANCED 2
#define HPDDM_KRYLOV_METHOD_GMRES 0
#define HPDDM_KRYLOV_METHOD_BGMRES 1
#define HPDDM_KRYLOV_METHOD_CG 2
#define HPDDM_KRYLOV_METHOD_BCG 3
#define HPDDM_KRYLOV_METHOD_GCRODR 4
#define HPDDM_KRYLOV_METHOD_BGCRODR 5
#define HPDDM_KRYLOV_METHOD_BFBCG 6
#define HPDDM_KRYLOV_METHOD_RICHARDSON 7
#define HPDDM_KRYLOV_METHOD_NONE 8
namespace HPDDM {
template <class K>
struct real_of {
    typedef K type;
};
template <class K>
struct real_of<std::complex<K>> {
    typedef K type;
};
template <class K>
inline K cj(K x) { return x; }
template <class K>
inline std::complex<K> cj(std::complex<K> x) { return std::conj(x); }
template <class K>
inline void allreduce_sum(K *p, int n, MPI_Comm c) {
    if (sizeof(typename real_of<K>::type) == 8) MPI_Allreduce(MPI_IN_PLACE, p, n * (int)(sizeof(K) / 8), MPI_DOUBLE, MPI_SUM, c);
    else MPI_Allreduce(MPI_IN_PLACE, p, n * (int)(sizeof(K) / 4), MPI_FLOAT, MPI_SUM, c);
    MPI_Bcast(p, n * (int)sizeof(K), MPI_BYTE, 0, c); // bitwise the same everywhere: the ranks take the same decisions
}

class Option {
    std::map<std::string, double> o;

  public:
    static Option *get() {
        static Option x;
        return &x;
    }
    double &operator[](const std::string &k) { return o[k]; }
    void remove(const std::string &k) { o.erase(k); }
    void clear() { o.clear(); }
    bool set(const std::string &k) const { return o.count(k) > 0; }
    template <class N = double>
    N val(const std::string &k, N d = N()) const {
        auto i = o.find(k);
        return i == o.end() ? d : N(i->second);
    }
};

template <class K>
class MatrixCSR {
  public:
    int n;
    bool sym;
    K *a;
    MatrixCSR(int n_, bool s, K *p) : n(n_), sym(s), a(p) {}
};
template <class K>
class LapackTR {};
// dense local solver; a symmetric matrix is given by its lower triangle and taken as Hermitian
template <class K>
class LapackTRSub {
    int n = 0;
    std::vector<K> f;
    std::vector<int> piv;

  public:
    long factorisations = 0;
    static constexpr char numbering_ = 'F';
    void dtor() { f.clear(); }
    template <char N = 'F'>
    void numfact(MatrixCSR<K> *const &A, bool = false, K *const & = nullptr) {
        n = A->n;
        f.assign((size_t)n * n, K(0));
        piv.resize(n);
        for (int j = 0; j < n; j++)
            for (int i = 0; i < n; i++) f[i + (size_t)j * n] = A->sym && i < j ? cj(A->a[j + (size_t)i * n]) : A->a[i + (size_t)j * n];
        for (int k = 0; k < n; k++) {
            int p = k;
            for (int i = k + 1; i < n; i++)
                if (std::abs(f[i + (size_t)k * n]) > std::abs(f[p + (size_t)k * n])) p = i;
            piv[k] = p;
            if (p != k)
                for (int j = 0; j < n; j++) std::swap(f[k + (size_t)j * n], f[p + (size_t)j * n]);
            for (int i = k + 1; i < n; i++) {
                f[i + (size_t)k * n] /= f[k + (size_t)k * n];
                for (int j = k + 1; j < n; j++) f[i + (size_t)j * n] -= f[i + (size_t)k * n] * f[k + (size_t)j * n];
            }
        }
        factorisations++;
    }
    void solve(K *const x, const unsigned short &mu = 1) const {
        for (int c = 0; c < mu; c++) {
            K *v = x + (size_t)c * n;
            for (int k = 0; k < n; k++) std::swap(v[k], v[piv[k]]);
            for (int j = 0; j < n; j++)
                for (int i = j + 1; i < n; i++) v[i] -= f[i + (size_t)j * n] * v[j];
            for (int j = n - 1; j >= 0; j--) {
                v[j] /= f[j + (size_t)j * n];
                for (int i = 0; i < j; i++) v[i] -= f[i + (size_t)j * n] * v[j];
            }
        }
    }
    void solve(const K *const b, K *const x, const unsigned short &mu = 1) const {
        std::copy_n(b, (size_t)n * mu, x);
        solve(x, mu);
    }
};

template <class K>
class Subdomain {
  protected:
    typedef typename real_of<K>::type R;
    MatrixCSR<K> *_a = nullptr;
    int _dof         = 0;
    std::vector<std::pair<int, std::vector<int>>> _map;
    mutable std::vector<K *> _buff;
    R *_d = nullptr;
    MPI_Comm _comm = MPI_COMM_WORLD;

  public:
    virtual ~Subdomain() {
        clearBuffer(true);
        delete _a;
    }
    Subdomain() : _buff(1, nullptr) {}
    Subdomain(const Subdomain &) = delete;
    int getDof() const { return _dof; }
    const std::vector<std::pair<int, std::vector<int>>> &getMap() const { return _map; }
    K **getBuffer() const { return _buff.data(); }
    const R *getScaling() const { return _d; }
    MatrixCSR<K> *getMatrix() const { return _a; }
    bool setBuffer() const {
        if (_buff[0]) return false;
        _buff[0] = new K[1];
        return true;
    }
    void clearBuffer(bool free) const {
        if (free && _buff[0]) {
            delete[] _buff[0];
            _buff[0] = nullptr;
        }
    }
    template <bool scaled = false>
    void exchange(K *const v, const int &mu = 1) const {
        for (int c = 0; c < mu; c++)
            if (scaled)
                for (int i = 0; i < _dof; i++) v[(size_t)c * _dof + i] *= K(_d[i]);
        std::vector<std::vector<K>> s(_map.size()), r(_map.size());
        std::vector<MPI_Request> q(2 * _map.size());
        for (size_t k = 0; k < _map.size(); k++) {
            size_t l = _map[k].second.size();
            s[k].resize(l * mu + 1);
            r[k].resize(l * mu + 1);
            for (int c = 0; c < mu; c++)
                for (size_t i = 0; i < l; i++) s[k][c * l + i] = v[(size_t)c * _dof + _map[k].second[i]];
            MPI_Irecv(r[k].data(), (int)(l * mu * sizeof(K)), MPI_BYTE, _map[k].first, 77, _comm, &q[2 * k]);
            MPI_Isend(s[k].data(), (int)(l * mu * sizeof(K)), MPI_BYTE, _map[k].first, 77, _comm, &q[2 * k + 1]);
        }
        MPI_Waitall((int)q.size(), q.data(), MPI_STATUSES_IGNORE);
        for (size_t k = 0; k < _map.size(); k++) {
            size_t l = _map[k].second.size();
            for (int c = 0; c < mu; c++)
                for (size_t i = 0; i < l; i++) v[(size_t)c * _dof + _map[k].second[i]] += r[k][c * l + i];
        }
    }
};

// what one call of the Krylov solver was given
template <class K>
struct View {
    int dof = 0, mu = 0, prec = 0;
    const K *b = nullptr;
    K *x       = nullptr;
    MPI_Comm comm;
    const typename real_of<K>::type *d = nullptr;
    std::vector<std::pair<int, std::vector<int>>> map;
    std::function<void(const K *, K *, int)> gmv, local, local_inplace, apply;
    K **ev           = nullptr;
    const K *matrix  = nullptr; // dense local matrix (null with other local solvers)
    bool sym         = false;
    std::vector<K> E;
};
template <class K>
inline std::function<void(View<K> &)> &hook() {
    static std::function<void(View<K> &)> h;
    return h;
}

template <template <class> class Solver, template <class> class Coarse, char S, class K>
class Schwarz : public Subdomain<K> {
  public:
    typedef typename real_of<K>::type R;
    enum class Prcndtnr : char { NO, SY, GE };

  protected:
    Solver<K> _s;
    K **_ev        = nullptr;
    Prcndtnr type_ = Prcndtnr::GE;
    bool _coarse   = false;

  public:
    std::vector<K> coarse_matrix;
    int coarse_built = 0;
    virtual ~Schwarz() {
        if (_ev) {
            delete[] *_ev;
            delete[] _ev;
        }
    }
    void initialize(R *const &d) { this->_d = d; }
    Solver<K> &getSolver() { return _s; }
    const Solver<K> &getSolver() const { return _s; }
    Prcndtnr getType() const { return type_; }
    K **getVectors() const { return _ev; }
    void setVectors(K **const &ev) {
        if (_ev) {
            delete[] *_ev;
            delete[] _ev;
        }
        _ev = ev;
    }
    void callNumfact() { _s.template numfact<'F'>(this->_a); }
    virtual int GMV(const K *const in, K *const out, const int &mu = 1) const = 0;
    void apply(const K *const in, K *const out, const int &mu) const {
        if (type_ == Prcndtnr::NO) std::copy_n(in, (size_t)mu * this->_dof, out);
        else {
            _s.solve(in, out, (unsigned short)mu);
            if (type_ == Prcndtnr::GE) this->template exchange<true>(out, mu);
            else this->template exchange<false>(out, mu);
        }
    }
};
template <template <class> class Solver, template <class> class Coarse, char S, class K>
class Dense : public Schwarz<Solver, Coarse, S, K> {
  public:
    typedef Schwarz<Solver, Coarse, S, K> super;
    template <class Nb, class Map>
    void initialize(int n, bool sym, K *const &p, const Nb &o, const Map &r) {
        delete this->_a;
        this->_a   = new MatrixCSR<K>(n, sym, p);
        this->_dof = n;
        this->_map.clear();
        auto it = r.begin();
        for (const auto &i : o) this->_map.emplace_back(i, std::vector<int>(it->begin(), it->end())), ++it;
    }
    // E: sum of the numbers of vectors, squared; meaningful on the first rank
    void buildTwo(const MPI_Comm &c, K *const E) {
        int nu = Option::get()->val("geneo_nu", 0), total = 0, rk = 0;
        MPI_Allreduce(&nu, &total, 1, MPI_INT, MPI_SUM, c);
        MPI_Comm_rank(c, &rk);
        this->coarse_matrix.assign(E, E + (rk == 0 ? (size_t)total * total : 0));
        this->coarse_built++;
    }
};
template <class Op>
struct hpddm_method_id {
    static constexpr char value = 1;
};

class IterativeMethod {
    // columns of the preconditioned operator handled together; full orthogonalisation (classical Gram-Schmidt applied twice)
    template <class Op, class K>
    static int gmres(const Op &A, const K *b, K *x, int mu, MPI_Comm comm) {
        typedef typename real_of<K>::type R;
        typedef typename std::conditional<std::is_same<K, R>::value, double, std::complex<double>>::type W;
        int n    = A.getDof();
        size_t N = (size_t)n * mu;
        auto dots = [&](const std::vector<const K *> &u, const std::vector<const K *> &v) {
            std::vector<W> s(u.size(), W(0));
            for (size_t q = 0; q < u.size(); q++)
                for (int i = 0; i < n; i++) s[q] += W(double(A.getScaling()[i])) * cj(W(u[q][i])) * W(v[q][i]);
            if (!s.empty()) allreduce_sum(s.data(), (int)s.size(), comm);
            return s;
        };
        auto norms = [&](const K *u) {
            std::vector<const K *> p;
            for (int c = 0; c < mu; c++) p.push_back(u + (size_t)c * n);
            std::vector<double> r;
            for (auto &z : dots(p, p)) r.push_back(std::sqrt(std::abs(z)));
            return r;
        };
        std::vector<double> nb = norms(b);
        double tol             = sizeof(R) == 8 ? 1e-13 : 1e-6;
        std::vector<K> r(N), w(N), z(N);
        int total = 0;
        int gn    = 0;
        {
            int own = 0;
            for (int i = 0; i < n; i++) own += A.getScaling()[i] > 0.5;
            MPI_Allreduce(&own, &gn, 1, MPI_INT, MPI_SUM, comm);
        }
        for (int cycle = 0; cycle < 3; cycle++) {
            A.GMV(x, w.data(), mu);
            for (size_t i = 0; i < N; i++) r[i] = b[i] - w[i];
            std::vector<double> beta = norms(r.data());
            bool done = true;
            std::vector<char> on(mu, 1);
            for (int c = 0; c < mu; c++) {
                if (beta[c] > tol * nb[c]) done = false;
                else on[c] = 0;
            }
            if (done) break;
            std::vector<std::vector<K>> V(1, r);
            for (int c = 0; c < mu; c++)
                for (int i = 0; i < n; i++) V[0][(size_t)c * n + i] = on[c] ? K(W(V[0][(size_t)c * n + i]) / beta[c]) : K(0);
            std::vector<std::vector<std::vector<W>>> H(mu);
            std::vector<int> dim(mu, 0);
            std::vector<std::vector<W>> g(mu, std::vector<W>(1)), cs(mu), sn(mu);
            for (int c = 0; c < mu; c++) g[c][0] = beta[c];
            for (int m = 0; m < gn; m++) {
                A.apply(V[m].data(), z.data(), mu);
                A.GMV(z.data(), w.data(), mu);
                total++;
                std::vector<std::vector<W>> h(mu, std::vector<W>(m + 2, W(0)));
                for (int pass = 0; pass < 2; pass++) {
                    std::vector<const K *> u, v;
                    for (int c = 0; c < mu; c++)
                        for (int k = 0; k <= m; k++) u.push_back(V[k].data() + (size_t)c * n), v.push_back(w.data() + (size_t)c * n);
                    auto s = dots(u, v);
                    for (int c = 0; c < mu; c++)
                        for (int k = 0; k <= m; k++) {
                            W a = s[(size_t)c * (m + 1) + k];
                            h[c][k] += a;
                            for (int i = 0; i < n; i++) w[(size_t)c * n + i] = K(W(w[(size_t)c * n + i]) - a * W(V[k][(size_t)c * n + i]));
                        }
                }
                auto nw = norms(w.data());
                V.push_back(std::vector<K>(N, K(0)));
                bool any = false;
                for (int c = 0; c < mu; c++) {
                    if (!on[c]) continue;
                    h[c][m + 1] = nw[c];
                    double hn   = 0;
                    for (auto &e : h[c]) hn = std::max(hn, std::abs(e));
                    for (int k = 0; k < m; k++) {
                        W t         = cj(cs[c][k]) * h[c][k] + cj(sn[c][k]) * h[c][k + 1];
                        h[c][k + 1] = -sn[c][k] * h[c][k] + cs[c][k] * h[c][k + 1];
                        h[c][k]     = t;
                    }
                    double q = std::sqrt(std::norm(h[c][m]) + nw[c] * nw[c]);
                    if (!(q > 0)) { // nothing left to add
                        on[c] = 0;
                        continue;
                    }
                    cs[c].push_back(h[c][m] / q);
                    sn[c].push_back(nw[c] / q);
                    h[c][m] = q;
                    g[c].push_back(-sn[c][m] * g[c][m]);
                    g[c][m] = cj(cs[c][m]) * g[c][m];
                    H[c].push_back(h[c]);
                    dim[c] = m + 1;
                    if (std::abs(g[c][m + 1]) <= 0.1 * tol * nb[c] || nw[c] <= 1e-15 * hn) on[c] = 0;
                    else {
                        any = true;
                        for (int i = 0; i < n; i++) V[m + 1][(size_t)c * n + i] = K(W(w[(size_t)c * n + i]) / nw[c]);
                    }
                }
                if (!any) break;
            }
            std::fill(w.begin(), w.end(), K(0));
            for (int c = 0; c < mu; c++) {
                std::vector<W> y(dim[c]);
                for (int k = dim[c] - 1; k >= 0; k--) {
                    y[k] = g[c][k];
                    for (int l = k + 1; l < dim[c]; l++) y[k] -= H[c][l][k] * y[l];
                    y[k] /= H[c][k][k];
                }
                for (int k = 0; k < dim[c]; k++)
                    for (int i = 0; i < n; i++) w[(size_t)c * n + i] = K(W(w[(size_t)c * n + i]) + y[k] * W(V[k][(size_t)c * n + i]));
            }
            A.apply(w.data(), z.data(), mu);
            for (size_t i = 0; i < N; i++) x[i] += z[i];
        }
        return total;
    }

  public:
    template <class Op, class K>
    static int solve(const Op &A, const K *const b, K *const x, const int &mu, const MPI_Comm &comm) {
        if (hook<K>()) {
            View<K> v;
            v.dof  = A.getDof();
            v.mu   = mu;
            v.prec = (int)A.getType();
            v.b    = b;
            v.x    = x;
            v.comm = comm;
            v.d    = A.getScaling();
            v.map  = A.getMap();
            v.gmv  = [&A](const K *i, K *o, int m) { A.GMV(i, o, m); };
            v.apply = [&A](const K *i, K *o, int m) { A.apply(i, o, m); };
            v.local = [&A](const K *i, K *o, int m) { A.getSolver().solve(i, o, (unsigned short)m); };
            v.local_inplace = [&A](const K *, K *o, int m) { A.getSolver().solve(o, (unsigned short)m); };
            v.ev     = A.getVectors();
            v.matrix = A.getMatrix()->a;
            v.sym    = A.getMatrix()->sym;
            v.E      = A.coarse_matrix;
            hook<K>()(v);
        }
        return gmres(A, b, x, mu, comm);
    }
};
} // namespace HPDDM
#endif
