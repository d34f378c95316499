// Common runtime-monitoring harness: case driver, verdict recording, random inputs,
// kernel generators and reference oracles that are independent of htool's own algorithms.
#ifndef VF_COMMON_HPP
#define VF_COMMON_HPP
#include <algorithm>
#include <atomic>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
#ifdef _OPENMP
#    include <omp.h>
#endif

#ifndef VT
#    define VT double
#endif

extern "C" const char *__asan_default_options();

namespace vf {
typedef VT T;
template <class X>
struct real_of {
    typedef X type;
};
template <class X>
struct real_of<std::complex<X>> {
    typedef X type;
};
typedef real_of<T>::type R;
template <class X>
struct is_cplx : std::false_type {};
template <class X>
struct is_cplx<std::complex<X>> : std::true_type {};
static const bool CPLX = is_cplx<T>::value;
// reference arithmetic: always double precision or better
typedef std::conditional<is_cplx<T>::value, std::complex<double>, double>::type D;
inline const char *tname() { return CPLX ? (sizeof(R) == 8 ? "z" : "c") : (sizeof(R) == 8 ? "d" : "s"); }
inline double eps() { return std::numeric_limits<R>::epsilon(); }

inline double cj(double x) { return x; }
inline float cj(float x) { return x; }
template <class X>
std::complex<X> cj(std::complex<X> x) { return std::conj(x); }
inline D up(const T &x) { return D(x); }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double u(double a, double b) { return a + (b - a) * u(); }
    double n() { // approx normal
        double x = 0;
        for (int i = 0; i < 6; i++) x += u();
        return (x - 3) * 1.4142;
    }
    int i(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); } // inclusive
    bool p(double q) { return u() < q; }
    template <class V>
    typename V::value_type pick(const V &v) { return v[next() % v.size()]; }
    template <class X>
    X pick(std::initializer_list<X> v) { return *(v.begin() + next() % v.size()); }
};

template <class X>
struct Rand {
    static X get(Rng &r) { return X(r.u(-1, 1)); }
};
template <class X>
struct Rand<std::complex<X>> {
    static std::complex<X> get(Rng &r) {
        X a = X(r.u(-1, 1));
        X b = X(r.u(-1, 1));
        return {a, b};
    }
};
inline T rnd(Rng &r) { return Rand<T>::get(r); }
inline std::vector<T> rvec(Rng &r, size_t n) {
    std::vector<T> v(n);
    for (auto &x : v) x = rnd(r);
    return v;
}
// interesting scalars for alpha / beta
template <class U>
U special_cplx(U v, int) { return v; }
template <class U>
std::complex<U> special_cplx(std::complex<U> v, int k) {
    switch (k) {
    case 0: return {U(0), U(1)};
    case 1: return {U(0), v.imag()};
    case 2: return {U(1), v.imag()};
    case 3: return {v.real(), U(0)};
    default: return {U(0.6), U(-0.8)};
    }
}
inline T rscal(Rng &r) {
    switch (r.i(0, 13)) {
    case 0:
    case 1: return T(0);
    case 2:
    case 3: return T(1);
    case 4: return T(-1);
    case 5: return T(r.pick({2, 2, -2, 3, 10}));
    case 6: return T(r.pick({0.5, 0.25, -0.5, 1.5}));
    case 7: { // complex scalars that agree with a special real one in one component or in modulus
        T v = rnd(r);
        return special_cplx(v, r.i(0, 4));
    }
    default: return rnd(r);
    }
}

inline std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, 8, "\\u%04x", c);
            o += b;
        } else o += c;
    }
    return o;
}
inline uint64_t fnv(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ull;
    }
    return h;
}
inline uint64_t fnvb(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) {
        h ^= c[i];
        h *= 1099511628211ull;
    }
    return h;
}

// a file name of any shape, the same one for the same index
inline std::string file_name(long k, int i) {
    static const char *odd[] = {"", "", "", ".x.y", " with spaces", ",a;b", "_cluster_tree", "'q'", "\xc3\xa9"};
    std::string s = odd[(size_t)k % 9];
    if (k % 41 == 3) s += std::string(180, 'n');
    return std::to_string(i) + s;
}
struct Ctx {
    long k = 0;
    bool small = getenv("VF_BALANCE") || getenv("VF_SMALL"); // workloads re-run with slow instrumentation
    bool tail(long mod, long at) const { return !small && k % mod == at; } // the few cases of a regime, without disturbing the others
    bool thorough = false;
    uint64_t seed = 1;
    Rng rng{1};
    std::string descr;
    std::string scratch;
    // accumulated
    std::map<std::string, long> counters;
    std::map<std::string, double> maxima;
    std::set<uint64_t> sigs;
    std::vector<std::string> samples;
    long evals = 0, viol = 0;
    std::map<std::string, int> perkey;
    FILE *out = nullptr;
    int progfd = -1;
    std::mutex mu;
    int mpi_rank = 0;

    void progress() {
        if (progfd < 0) return;
        char b[4096];
        int n = snprintf(b, sizeof b, "%ld\n%s\n", k, descr.c_str());
        if (n > (int)sizeof b) n = sizeof b;
        if (ftruncate(progfd, 0)) {}
        if (pwrite(progfd, b, n, 0)) {}
    }
    // describe the case; call before running the code under test
    void desc(const std::string &s) {
        descr += (descr.empty() ? "" : " ") + s;
        progress();
    }
    void op(const std::string &s) { desc(s); }
    void count(const std::string &n, long d = 1) {
        std::lock_guard<std::mutex> g(mu);
        counters[n] += d;
    }
    void maxi(const std::string &n, double d) {
        std::lock_guard<std::mutex> g(mu);
        auto it = maxima.find(n);
        if (it == maxima.end() || d > it->second || d != d) maxima[n] = d;
    }
    void sig(const std::string &s) {
        std::lock_guard<std::mutex> g(mu);
        sigs.insert(fnv(s));
    }
    bool fail(const std::string &key, const std::string &msg) {
        std::lock_guard<std::mutex> g(mu);
        viol++;
        if (perkey[key]++ < 3 && out) {
            fprintf(out, "{\"v\":1,\"case\":%ld,\"type\":\"%s\",\"rank\":%d,\"key\":\"%s\",\"msg\":\"%s\",\"desc\":\"%s\"}\n", k, tname(), mpi_rank, jesc(key).c_str(), jesc(msg).c_str(), jesc(descr).c_str());
            fflush(out);
        }
        return false;
    }
    bool check(bool ok, const std::string &key, const std::string &msg = "") {
        if (!ok) fail(key, msg);
        return ok;
    }
    // |got-ref| <= tol elementwise sense: err is the measured value, bound allowed. NaN fails.
    bool le(double err, double bound, const std::string &key, const std::string &what = "") {
        if (bound > 0 && err == err) maxi("ratio:" + key, err / bound);
        if (!(err <= bound)) {
            std::ostringstream o;
            o << std::setprecision(6) << what << " err=" << err << " bound=" << bound;
            return fail(key, o.str());
        }
        return true;
    }
};

inline std::string str(double x) {
    std::ostringstream o;
    o << x;
    return o.str();
}
template <class X>
std::string strc(X x) {
    std::ostringstream o;
    o << x;
    return o.str();
}
struct S { // stream helper
    std::ostringstream o;
    template <class X>
    S &operator<<(const X &x) {
        o << x;
        return *this;
    }
    operator std::string() const { return o.str(); }
};

void vf_case(Ctx &cx); // supplied by each harness

// ---- geometry ---------------------------------------------------------------
// kinds of point clouds; many are degenerate on purpose
static const char *GEOM[] = {"cube", "sphere", "linex", "diag", "grid", "dups", "blobs", "neg", "far", "aniso", "spiral", "disk", "graded"};
static const int NGEOM    = 12;
template <class C>
std::vector<C> geometry(Rng &r, int kind, int n, int dim, double shift = 0) {
    std::vector<C> x((size_t)n * dim);
    int g = std::max(1, (int)std::ceil(std::pow((double)n, 1.0 / dim)));
    int nd = std::max(1, n / 4);
    std::vector<double> dup((size_t)nd * dim);
    for (auto &d : dup) d = r.u();
    double cz[4][3];
    for (auto &a : cz)
        for (auto &b : a) b = r.u(-3, 3);
    double gsign = 1, gbase = 2;
    int gper = 1;
    if (kind == NGEOM) {
        gsign = r.p(0.5) ? 1 : -1;
        gbase = r.pick({1.5, 2.0, 3.0, 5.0, 12.0});
        gper  = std::max(r.i(2, 30), (int)std::ceil(n * std::log(gbase) / ((sizeof(C) == 4 ? 14 : 28) * std::log(10.0)))); // the finest scale is 1e-28, squares do not underflow
    }
    for (int i = 0; i < n; i++) {
        double p[3] = {0, 0, 0};
        switch (kind) {
        case 0:
            for (int d = 0; d < dim; d++) p[d] = r.u();
            break;
        case 1: {
            double s = 0;
            for (int d = 0; d < dim; d++) {
                p[d] = r.n() + 1e-3;
                s += p[d] * p[d];
            }
            s = std::sqrt(s);
            for (int d = 0; d < dim; d++) p[d] /= s;
            break;
        }
        case 2: p[0] = r.u(); break;
        case 3: {
            double t = r.u();
            for (int d = 0; d < dim; d++) p[d] = t * (d + 1);
            break;
        }
        case 4: {
            int q = i;
            for (int d = 0; d < dim; d++) {
                p[d] = q % g;
                q /= g;
            }
            break;
        }
        case 5: {
            int q = r.i(0, nd - 1);
            for (int d = 0; d < dim; d++) p[d] = dup[(size_t)q * dim + d];
            break;
        }
        case 6: {
            int q = r.i(0, 3);
            for (int d = 0; d < dim; d++) p[d] = cz[q][d] + std::pow(0.2, q) * r.u(-1, 1);
            break;
        }
        case 7:
            for (int d = 0; d < dim; d++) p[d] = -5 + r.u();
            break;
        case 8:
            for (int d = 0; d < dim; d++) p[d] = 1000 * (d + 1) + r.u();
            break;
        case 9:
            for (int d = 0; d < dim; d++) p[d] = r.u(-1, 1) * std::pow(0.03, d);
            break;
        case 10: {
            double t = 12.0 * i / n;
            p[0]     = t * std::cos(t);
            p[1]     = t * std::sin(t);
            p[2]     = t;
            break;
        }
        case NGEOM: { // strongly graded towards one point (only on request)
            double t = gsign * std::pow(gbase, -(i / gper + 0.3 * r.u()));
            p[0]     = t;
            for (int d = 1; d < dim; d++) p[d] = 0.1 * t * r.u(-1, 1);
            break;
        }
        default: {
            double rr = std::sqrt(r.u()), t = 6.283185307179586 * r.u();
            p[0] = rr * std::cos(t);
            p[1] = rr * std::sin(t);
            p[2] = 1;
        }
        }
        for (int d = 0; d < dim; d++) x[(size_t)i * dim + d] = C(p[d] + (d == 0 ? shift : 0));
    }
    return x;
}

// ---- dense reference --------------------------------------------------------
struct Dense { // column major, reference precision
    int m = 0, n = 0;
    std::vector<D> a;
    Dense() {}
    Dense(int m_, int n_) : m(m_), n(n_), a((size_t)m_ * n_, D(0)) {}
    D &operator()(int i, int j) { return a[(size_t)j * m + i]; }
    const D &operator()(int i, int j) const { return a[(size_t)j * m + i]; }
};
inline double fro(const Dense &A) {
    double s = 0;
    for (auto &x : A.a) s += std::norm(x);
    return std::sqrt(s);
}
inline double frodiff(const Dense &A, const Dense &B) {
    if (A.m != B.m || A.n != B.n) return std::numeric_limits<double>::infinity();
    double s = 0;
    for (size_t i = 0; i < A.a.size(); i++) s += std::norm(A.a[i] - B.a[i]);
    return std::sqrt(s);
}
inline Dense op(char t, const Dense &A) {
    if (t == 'N') return A;
    Dense B(A.n, A.m);
    for (int j = 0; j < A.n; j++)
        for (int i = 0; i < A.m; i++) B(j, i) = t == 'C' ? cj(A(i, j)) : A(i, j);
    return B;
}
inline Dense absd(const Dense &A) {
    Dense B(A.m, A.n);
    for (size_t i = 0; i < A.a.size(); i++) B.a[i] = std::abs(A.a[i]);
    return B;
}
inline Dense mul(const Dense &A, const Dense &B) {
    Dense C(A.m, B.n);
    if (A.n != B.m) {
        fprintf(stderr, "harness bug: mul dims\n");
        abort();
    }
    for (int j = 0; j < B.n; j++)
        for (int l = 0; l < A.n; l++) {
            D b = B(l, j);
            if (b != D(0))
                for (int i = 0; i < A.m; i++) C(i, j) += A(i, l) * b;
        }
    return C;
}
inline Dense axpby(D al, const Dense &A, D be, const Dense &B) {
    Dense C(A.m, A.n);
    for (size_t i = 0; i < A.a.size(); i++) C.a[i] = al * A.a[i] + (be == D(0) ? D(0) : be * B.a[i]);
    return C;
}
template <class X>
Dense fromcm(int m, int n, const X *p) {
    Dense A(m, n);
    for (size_t i = 0; i < A.a.size(); i++) A.a[i] = D(p[i]);
    return A;
}
template <class X>
Dense fromrm(int m, int n, const X *p) {
    Dense A(m, n);
    for (int i = 0; i < m; i++)
        for (int j = 0; j < n; j++) A(i, j) = D(p[(size_t)i * n + j]);
    return A;
}
template <class M>
Dense frommat(const M &A) { // htool::Matrix
    Dense B(A.nb_rows(), A.nb_cols());
    for (int j = 0; j < B.n; j++)
        for (int i = 0; i < B.m; i++) B(i, j) = D(A(i, j));
    return B;
}
// Gaussian elimination with partial pivoting; returns X = A^{-1} B. cond: rough growth indicator.
inline Dense gsolve(Dense A, Dense B) {
    int n = A.m;
    for (int k = 0; k < n; k++) {
        int p = k;
        for (int i = k + 1; i < n; i++)
            if (std::abs(A(i, k)) > std::abs(A(p, k))) p = i;
        if (p != k) {
            for (int j = 0; j < n; j++) std::swap(A(k, j), A(p, j));
            for (int j = 0; j < B.n; j++) std::swap(B(k, j), B(p, j));
        }
        for (int i = k + 1; i < n; i++) {
            D f = A(i, k) / A(k, k);
            if (f == D(0)) continue;
            for (int j = k; j < n; j++) A(i, j) -= f * A(k, j);
            for (int j = 0; j < B.n; j++) B(i, j) -= f * B(k, j);
        }
    }
    for (int j = 0; j < B.n; j++)
        for (int k = n - 1; k >= 0; k--) {
            D s = B(k, j);
            for (int l = k + 1; l < n; l++) s -= A(k, l) * B(l, j);
            B(k, j) = s / A(k, k);
        }
    return B;
}
inline Dense eye(int n) {
    Dense I(n, n);
    for (int i = 0; i < n; i++) I(i, i) = 1;
    return I;
}
inline double cond_fro(const Dense &A) { return fro(A) * fro(gsolve(A, eye(A.m))); }

// one-sided Jacobi: singular values of A, reference precision, descending
inline std::vector<double> jsvd(Dense A) {
    if (A.m < A.n) A = op('C', A);
    for (int sweep = 0; sweep < 60; sweep++) {
        double off = 0;
        for (int p = 0; p < A.n; p++)
            for (int q = p + 1; q < A.n; q++) {
                double a = 0, b = 0;
                D g(0);
                for (int i = 0; i < A.m; i++) {
                    a += std::norm(A(i, p));
                    b += std::norm(A(i, q));
                    g += cj(A(i, p)) * A(i, q);
                }
                double ag = std::abs(g);
                if (ag <= 1e-300 || ag <= 1e-17 * std::sqrt(a * b)) continue;
                off      = std::max(off, ag / std::sqrt(a * b));
                double z = (b - a) / (2 * ag), t = (z >= 0 ? 1 : -1) / (std::abs(z) + std::sqrt(1 + z * z)), c = 1 / std::sqrt(1 + t * t), s = c * t;
                D ph = g / ag;
                for (int i = 0; i < A.m; i++) {
                    D x = A(i, p), y = A(i, q) * cj(ph);
                    A(i, p) = c * x - s * y;
                    A(i, q) = s * x + c * y;
                }
            }
        if (off < 1e-15) break;
    }
    std::vector<double> s;
    for (int q = 0; q < A.n; q++) {
        double a = 0;
        for (int i = 0; i < A.m; i++) a += std::norm(A(i, q));
        s.push_back(std::sqrt(a));
    }
    std::sort(s.rbegin(), s.rend());
    return s;
}
// elementwise comparison of T data with a reference and an elementwise magnitude bound
inline double worst(const Dense &got, const Dense &ref, const Dense &bound, double floor_) {
    double w = 0;
    if (got.m != ref.m || got.n != ref.n) return std::numeric_limits<double>::infinity();
    for (size_t i = 0; i < ref.a.size(); i++) {
        double e = std::abs(got.a[i] - ref.a[i]);
        double b = std::abs(bound.a[i]) + floor_;
        double q = e / b;
        if (!(q == q)) return std::numeric_limits<double>::infinity();
        w = std::max(w, q);
    }
    return w;
}

// Guarded buffer: detects writes outside [0,n) by value (BLAS is not instrumented by ASan itself)
struct Guard {
    static const int G = 24;
    std::vector<T> b;
    size_t n;
    T mark;
    explicit Guard(size_t n_) : b(n_ + 2 * G), n(n_), mark(T(R(-77.125))) { std::fill(b.begin(), b.end(), mark); }
    Guard(const std::vector<T> &v) : Guard(v.size()) { std::copy(v.begin(), v.end(), data()); }
    T *data() { return b.data() + G; }
    bool intact() const {
        for (int i = 0; i < G; i++)
            if (b[i] != mark || b[b.size() - 1 - i] != mark) return false;
        return true;
    }
    std::vector<T> vec() const { return std::vector<T>(b.begin() + G, b.begin() + G + n); }
};

// ---- allocation balance (AddressSanitizer builds) -----------------------------------
// Every block allocated while tracking is on and not freed when it is switched off.
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) __attribute__((weak));
extern "C" size_t __asan_get_alloc_stack(void *, void **, size_t, int *) __attribute__((weak));
extern "C" void __sanitizer_symbolize_pc(void *, const char *, char *, size_t) __attribute__((weak));
struct Balance {
    static const size_t N = 1 << 16;
    struct Cell {
        std::atomic<uintptr_t> p;
        size_t size;
    };
    static Cell *tab() {
        static Cell t[N];
        return t;
    }
    static std::atomic<bool> &on() {
        static std::atomic<bool> b{false};
        return b;
    }
    static std::atomic<long> &seen() {
        static std::atomic<long> b{0};
        return b;
    }
    static void add(const volatile void *q, size_t n) {
        if (!on().load(std::memory_order_relaxed) || !q) return;
        seen()++;
        size_t h = ((uintptr_t)q >> 4) * 0x9E3779B97F4A7C15ull >> 48;
        for (size_t i = 0; i < N; i++) {
            Cell &c     = tab()[(h + i) & (N - 1)];
            uintptr_t z = 0;
            if (c.p.load(std::memory_order_relaxed) <= 1) {
                z = c.p.load();
                if (z <= 1 && c.p.compare_exchange_strong(z, (uintptr_t)q)) {
                    c.size = n;
                    return;
                }
            }
        }
    }
    static void del(const volatile void *q) {
        if (!on().load(std::memory_order_relaxed) || !q) return;
        size_t h = ((uintptr_t)q >> 4) * 0x9E3779B97F4A7C15ull >> 48;
        for (size_t i = 0; i < N; i++) {
            Cell &c     = tab()[(h + i) & (N - 1)];
            uintptr_t z = c.p.load();
            if (z == (uintptr_t)q) {
                c.p.store(1);
                return;
            }
            if (z == 0) return;
        }
    }
    static bool &busy() {
        static bool b = false;
        return b;
    }
    // is the block allocated by the code under test or the C++ library on its behalf (not by MPI, OpenMP or the C library)?
    static bool ours(void *q) {
        if (!__asan_get_alloc_stack || !__sanitizer_symbolize_pc) return true;
        void *st[12];
        size_t n = __asan_get_alloc_stack(q, st, 12, nullptr);
        for (size_t i = 0; i < n; i++) {
            char b[400];
            __sanitizer_symbolize_pc(st[i], "%M", b, sizeof b);
            if (strstr(b, "libasan") || strstr(b, "libstdc++") || strstr(b, "libubsan")) continue;
            return strstr(b, ".exe") || strchr(b, '.') == nullptr || !strstr(b, ".so");
        }
        return n == 0;
    }
    static bool available() { return __sanitizer_install_malloc_and_free_hooks != nullptr; }
    static void start() {
        static bool once = false;
        if (!once) {
            once = true;
            if (available()) __sanitizer_install_malloc_and_free_hooks(add, del);
        }
        for (size_t i = 0; i < N; i++) tab()[i].p.store(0);
        seen() = 0;
        on()   = true;
    }
    struct Result {
        long live = 0, bytes = 0, seen = 0;
        std::string first;
    };
    static Result stop() {
        on() = false;
        Result r;
        r.seen = seen();
        for (size_t i = 0; i < N; i++) {
            uintptr_t z = tab()[i].p.load();
            if (z > 1 && ours((void *)z)) {
                r.live++;
                r.bytes += tab()[i].size;
                if (r.first.size() < 1500 && __asan_get_alloc_stack && __sanitizer_symbolize_pc) {
                    void *st[12];
                    size_t n = __asan_get_alloc_stack((void *)z, st, 12, nullptr);
                    r.first += "[" + std::to_string(tab()[i].size) + " bytes:";
                    for (size_t q = 0; q < n; q++) {
                        char b[300];
                        __sanitizer_symbolize_pc(st[q], "%f %S", b, sizeof b);
                        std::string w(b);
                        if (w.size() > 160) w = w.substr(0, 90) + ".." + w.substr(w.size() - 60);
                        r.first += " <- " + w;
                    }
                    r.first += "]";
                }
            }
        }
        return r;
    }
};
// runs f (a pure function of its generator state) three times; blocks still alive after the 2nd and 3rd run are leaks
// (one-time allocations of runtime libraries appear in the first run only)
inline void (*&case_end())() {
    static void (*f)() = nullptr;
    return f;
}
template <class F>
void leak_check(Ctx &cx, const std::string &key, F f) {
    Rng r0 = cx.rng;
    if (!Balance::available() || Balance::busy()) {
        f();
        return;
    }
    Balance::busy() = true;
    std::string d0 = cx.descr, d1;
    d1.reserve(1 << 16);
    f();
    Balance::Result x, y;
    for (int rep = 0; rep < 2; rep++) {
        cx.rng   = r0;
        cx.descr = d0;
        cx.descr.reserve(1 << 16);
        Balance::start();
        f();
        std::string dd;
        dd.swap(cx.descr); // a description assigned in f is not a leak
        d1.assign(dd.c_str());
        { std::string gone; gone.swap(dd); }
        (rep ? y : x) = Balance::stop();
    }
    Balance::busy() = false;
    cx.descr        = d1;
    cx.count("balance_scopes");
    cx.count("allocations_tracked", y.seen);
    if (x.live > 0 && y.live > 0) cx.fail(key, S() << y.live << " blocks, " << y.bytes << " bytes: " << y.first);
}

inline int vf_main(int argc, char **argv, bool (*sync)(bool) = nullptr, int mpi_rank = 0) {
    Ctx cx;
    long from = 0, to = 1;
    std::string out, prog;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx       = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--from") from = atol(nx().c_str());
        else if (a == "--to") to = atol(nx().c_str());
        else if (a == "--seed") cx.seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--tier") cx.thorough = nx() == "thorough";
        else if (a == "--out") out = nx();
        else if (a == "--prog") prog = nx();
        else if (a == "--scratch") cx.scratch = nx();
    }
    cx.mpi_rank = mpi_rank;
    if (!out.empty()) {
        if (mpi_rank) out += ".r" + strc(mpi_rank);
        cx.out = fopen(out.c_str(), "a");
    } else cx.out = stdout;
    if (!prog.empty() && mpi_rank == 0) cx.progfd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
    const char *us = getenv("VF_UNTIL");
    long until     = us ? atol(us) : 0;
    bool balance   = getenv("VF_BALANCE") != nullptr;
    for (long k = from; k < to; k++) {
        bool late = until && k > from && time(nullptr) > until;
        if (sync && until) late = sync(late);
        if (late) {
            cx.count("stopped_by_time_budget");
            break;
        }
        cx.k = k;
        cx.descr.clear();
        cx.rng = Rng(cx.seed * 1000003ull + (uint64_t)k * 7919ull + 17);
        cx.desc(S() << "type=" << tname());
        cx.evals++;
        if (balance) // every block a case allocates has to be released when its objects are gone
            leak_check(cx, "leak", [&] {
                vf_case(cx);
                if (case_end()) case_end()();
            });
        else vf_case(cx);
        if (cx.samples.size() < 3) cx.samples.push_back(cx.descr);
    }
    if (cx.out) {
        fprintf(cx.out, "{\"summary\":1,\"evals\":%ld,\"type\":\"%s\",\"rank\":%d,\"viol\":%ld,\"counters\":{", cx.evals, tname(), mpi_rank, cx.viol);
        bool f = true;
        for (auto &c : cx.counters) {
            fprintf(cx.out, "%s\"%s\":%ld", f ? "" : ",", jesc(c.first).c_str(), c.second);
            f = false;
        }
        fprintf(cx.out, "},\"maxima\":{");
        f = true;
        for (auto &c : cx.maxima) {
            if (!(std::abs(c.second) < 1e300)) continue;
            fprintf(cx.out, "%s\"%s\":%.4g", f ? "" : ",", jesc(c.first).c_str(), c.second);
            f = false;
        }
        fprintf(cx.out, "},\"sigs\":[");
        f = true;
        for (auto s : cx.sigs) {
            fprintf(cx.out, "%s%llu", f ? "" : ",", (unsigned long long)(s >> 12));
            f = false;
        }
        fprintf(cx.out, "],\"samples\":[");
        f = true;
        for (auto &s : cx.samples) {
            fprintf(cx.out, "%s\"%s\"", f ? "" : ",", jesc(s.substr(0, 600)).c_str());
            f = false;
        }
        fprintf(cx.out, "]}\n");
        fflush(cx.out);
    }
    (void)sync;
    return 0;
}
} // namespace vf

#ifndef VF_NO_MAIN
#    ifndef VF_MPI
int main(int argc, char **argv) { return vf::vf_main(argc, argv); }
#    endif
#endif
#endif
