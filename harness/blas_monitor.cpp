// Link-time monitor for BLAS/LAPACK calls made by htool: the backend libraries are not
// instrumented, so every buffer handed to them is checked here (AddressSanitizer shadow)
// against the dimensions and leading dimensions passed, and XERBLA (invalid argument) is fatal.
#include <complex>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" void *__asan_region_is_poisoned(void *beg, size_t size);
#else
static void *__asan_region_is_poisoned(void *, size_t) { return nullptr; }
#endif
extern "C" void __sanitizer_print_stack_trace() __attribute__((weak));
typedef std::complex<float> cfl;
typedef std::complex<double> zdb;
static thread_local int depth = 0;
long vf_blas_calls = 0;
[[noreturn]] static void bad(const char *f, const char *what, int a, int b, int ld) {
    fprintf(stderr, "VF-BLAS-MONITOR: %s: operand %s (%d x %d, ld %d) lies outside its buffer or is freed\n", f, what, a, b, ld);
    if (__sanitizer_print_stack_trace) __sanitizer_print_stack_trace();
    fflush(stderr);
    abort();
}
template <class T>
static void mat(const char *f, const char *what, const T *p, int m, int n, int ld) {
    if (m <= 0 || n <= 0) return;
    if (ld < m) {
        fprintf(stderr, "VF-BLAS-MONITOR: %s: operand %s has leading dimension %d < %d rows\n", f, what, ld, m);
        if (__sanitizer_print_stack_trace) __sanitizer_print_stack_trace();
        abort();
    }
    for (int j = 0; j < n; j++)
        if (__asan_region_is_poisoned((void *)(p + (ptrdiff_t)j * ld), sizeof(T) * m)) bad(f, what, m, n, ld);
}
template <class T>
static void vec(const char *f, const char *what, const T *p, int n, int inc) {
    if (n <= 0) return;
    int a = inc < 0 ? -inc : inc;
    if (__asan_region_is_poisoned((void *)p, sizeof(T) * ((size_t)(n - 1) * a + 1))) bad(f, what, n, 1, inc);
}
#if defined(__SANITIZE_THREAD__)
// race detector: report the accesses the uninstrumented backend makes
extern "C" void __tsan_read_range(void *, unsigned long);
extern "C" void __tsan_write_range(void *, unsigned long);
template <class T>
static void touch(const T *p, size_t n) { __tsan_read_range((void *)p, sizeof(T) * n); }
template <class T>
static void touch(T *p, size_t n) { __tsan_write_range((void *)p, sizeof(T) * n); }
#    define TSAN_OVERLOADS(Q)                                                                 \
        template <class T>                                                                    \
        static void tmat(Q T *p, int m, int n, int ld) {                                      \
            for (int j = 0; j < n && m > 0; j++) touch(p + (ptrdiff_t)j * ld, (size_t)m);     \
        }                                                                                     \
        template <class T>                                                                    \
        static void tvec(Q T *p, int n, int inc) {                                            \
            if (n > 0 && inc == 1) touch(p, (size_t)n);                                       \
            else                                                                              \
                for (int i = 0; i < n; i++) touch(p + (ptrdiff_t)i * (inc < 0 ? -inc : inc), 1); \
        }
TSAN_OVERLOADS(const)
TSAN_OVERLOADS()
#    define mat(f, w, p, m, n, ld) tmat(p, m, n, ld)
#    define vec(f, w, p, n, inc) tvec(p, n, inc)
#endif
struct Scope {
    Scope() { depth++; }
    ~Scope() { depth--; }
};
static inline bool N(const char *c) { return *c == 'N' || *c == 'n'; }
static inline bool L(const char *c) { return *c == 'L' || *c == 'l'; }
#define REAL(name, ...)                                            \
    typedef void (*fp)(__VA_ARGS__);                               \
    static fp real = (fp)dlsym(RTLD_NEXT, name);                   \
    bool chk       = depth == 0;                                   \
    if (chk) __atomic_add_fetch(&vf_blas_calls, 1, __ATOMIC_RELAXED); \
    Scope sc;
typedef const int *I;
typedef const char *C;
extern "C" {
void xerbla_(const char *name, const int *info, int len) {
    char b[16] = {0};
    strncpy(b, name, len > 0 && len < 15 ? len : 6);
    fprintf(stderr, "VF-BLAS-MONITOR: invalid argument %d passed to %s\n", *info, b);
    if (__sanitizer_print_stack_trace) __sanitizer_print_stack_trace();
    fflush(stderr);
    abort();
}
#define BLASSET(c, T)                                                                                                                      \
    void c##axpy_(I n, const T *a, const T *x, I ix, T *y, I iy) {                                                                         \
        REAL(#c "axpy_", I, const T *, const T *, I, T *, I)                                                                               \
        if (chk) {                                                                                                                         \
            vec(#c "axpy", "x", x, *n, *ix);                                                                                               \
            vec(#c "axpy", "y", y, *n, *iy);                                                                                               \
        }                                                                                                                                  \
        real(n, a, x, ix, y, iy);                                                                                                          \
    }                                                                                                                                      \
    void c##scal_(I n, const T *a, T *x, I ix) {                                                                                           \
        REAL(#c "scal_", I, const T *, T *, I)                                                                                             \
        if (chk) vec(#c "scal", "x", x, *n, *ix);                                                                                          \
        real(n, a, x, ix);                                                                                                                 \
    }                                                                                                                                      \
    void c##gemv_(C t, I m, I n, const T *al, const T *a, I lda, const T *x, I ix, const T *be, T *y, I iy) {                              \
        REAL(#c "gemv_", C, I, I, const T *, const T *, I, const T *, I, const T *, T *, I)                                                \
        if (chk && *m > 0 && *n > 0) {                                                                                                     \
            mat(#c "gemv", "A", a, *m, *n, *lda);                                                                                          \
            vec(#c "gemv", "x", x, N(t) ? *n : *m, *ix);                                                                                   \
            vec(#c "gemv", "y", y, N(t) ? *m : *n, *iy);                                                                                   \
        }                                                                                                                                  \
        real(t, m, n, al, a, lda, x, ix, be, y, iy);                                                                                       \
    }                                                                                                                                      \
    void c##gemm_(C ta, C tb, I m, I n, I k, const T *al, const T *a, I lda, const T *b, I ldb, const T *be, T *cc, I ldc) {               \
        REAL(#c "gemm_", C, C, I, I, I, const T *, const T *, I, const T *, I, const T *, T *, I)                                          \
        if (chk && *m > 0 && *n > 0) {                                                                                                     \
            if (*k > 0) {                                                                                                                  \
                mat(#c "gemm", "A", a, N(ta) ? *m : *k, N(ta) ? *k : *m, *lda);                                                            \
                mat(#c "gemm", "B", b, N(tb) ? *k : *n, N(tb) ? *n : *k, *ldb);                                                            \
            }                                                                                                                              \
            mat(#c "gemm", "C", cc, *m, *n, *ldc);                                                                                         \
        }                                                                                                                                  \
        real(ta, tb, m, n, k, al, a, lda, b, ldb, be, cc, ldc);                                                                            \
    }                                                                                                                                      \
    void c##symv_(C u, I n, const T *al, const T *a, I lda, const T *x, I ix, const T *be, T *y, I iy) {                                   \
        REAL(#c "symv_", C, I, const T *, const T *, I, const T *, I, const T *, T *, I)                                                   \
        if (chk) {                                                                                                                         \
            mat(#c "symv", "A", a, *n, *n, *lda);                                                                                          \
            vec(#c "symv", "x", x, *n, *ix);                                                                                               \
            vec(#c "symv", "y", y, *n, *iy);                                                                                               \
        }                                                                                                                                  \
        real(u, n, al, a, lda, x, ix, be, y, iy);                                                                                          \
    }                                                                                                                                      \
    void c##symm_(C s, C u, I m, I n, const T *al, const T *a, I lda, const T *b, I ldb, const T *be, T *cc, I ldc) {                      \
        REAL(#c "symm_", C, C, I, I, const T *, const T *, I, const T *, I, const T *, T *, I)                                             \
        if (chk && *m > 0 && *n > 0) {                                                                                                     \
            int q = L(s) ? *m : *n;                                                                                                        \
            mat(#c "symm", "A", a, q, q, *lda);                                                                                            \
            mat(#c "symm", "B", b, *m, *n, *ldb);                                                                                          \
            mat(#c "symm", "C", cc, *m, *n, *ldc);                                                                                         \
        }                                                                                                                                  \
        real(s, u, m, n, al, a, lda, b, ldb, be, cc, ldc);                                                                                 \
    }                                                                                                                                      \
    void c##trsm_(C s, C u, C t, C d, I m, I n, const T *al, const T *a, I lda, T *b, I ldb) {                                             \
        REAL(#c "trsm_", C, C, C, C, I, I, const T *, const T *, I, T *, I)                                                                \
        if (chk && *m > 0 && *n > 0) {                                                                                                     \
            int q = L(s) ? *m : *n;                                                                                                        \
            mat(#c "trsm", "A", a, q, q, *lda);                                                                                            \
            mat(#c "trsm", "B", b, *m, *n, *ldb);                                                                                          \
        }                                                                                                                                  \
        real(s, u, t, d, m, n, al, a, lda, b, ldb);                                                                                        \
    }                                                                                                                                      \
    void c##laswp_(I n, T *a, I lda, I k1, I k2, I ipiv, I incx) {                                                                         \
        REAL(#c "laswp_", I, T *, I, I, I, I, I)                                                                                           \
        if (chk && *n > 0) {                                                                                                               \
            vec(#c "laswp", "ipiv", ipiv + (*k1 - 1), *k2 - *k1 + 1, 1);                                                                   \
            for (int i = *k1 - 1; i < *k2; i++)                                                                                            \
                if (ipiv[i] < 1 || ipiv[i] > *lda) bad(#c "laswp", "ipiv value", ipiv[i], i, *lda);                                        \
            mat(#c "laswp", "A", a, *k2, *n, *lda);                                                                                        \
        }                                                                                                                                  \
        real(n, a, lda, k1, k2, ipiv, incx);                                                                                               \
    }                                                                                                                                      \
    void c##geqrf_(I m, I n, T *a, I lda, T *tau, T *w, I lw, int *info) {                                                                 \
        REAL(#c "geqrf_", I, I, T *, I, T *, T *, I, int *)                                                                                \
        if (chk && *lw != -1) {                                                                                                            \
            mat(#c "geqrf", "A", a, *m, *n, *lda);                                                                                         \
            vec(#c "geqrf", "tau", tau, *m < *n ? *m : *n, 1);                                                                             \
            vec(#c "geqrf", "work", w, *lw, 1);                                                                                            \
        }                                                                                                                                  \
        real(m, n, a, lda, tau, w, lw, info);                                                                                              \
    }                                                                                                                                      \
    void c##gelqf_(I m, I n, T *a, I lda, T *tau, T *w, I lw, int *info) {                                                                 \
        REAL(#c "gelqf_", I, I, T *, I, T *, T *, I, int *)                                                                                \
        if (chk && *lw != -1) {                                                                                                            \
            mat(#c "gelqf", "A", a, *m, *n, *lda);                                                                                         \
            vec(#c "gelqf", "tau", tau, *m < *n ? *m : *n, 1);                                                                             \
            vec(#c "gelqf", "work", w, *lw, 1);                                                                                            \
        }                                                                                                                                  \
        real(m, n, a, lda, tau, w, lw, info);                                                                                              \
    }                                                                                                                                      \
    void c##getrf_(I m, I n, T *a, I lda, int *ipiv, int *info) {                                                                          \
        REAL(#c "getrf_", I, I, T *, I, int *, int *)                                                                                      \
        if (chk) {                                                                                                                         \
            mat(#c "getrf", "A", a, *m, *n, *lda);                                                                                         \
            vec(#c "getrf", "ipiv", ipiv, *m < *n ? *m : *n, 1);                                                                           \
        }                                                                                                                                  \
        real(m, n, a, lda, ipiv, info);                                                                                                    \
    }                                                                                                                                      \
    void c##getrs_(C t, I n, I nr, const T *a, I lda, I ipiv, T *b, I ldb, int *info) {                                                    \
        REAL(#c "getrs_", C, I, I, const T *, I, I, T *, I, int *)                                                                         \
        if (chk) {                                                                                                                         \
            mat(#c "getrs", "A", a, *n, *n, *lda);                                                                                         \
            vec(#c "getrs", "ipiv", ipiv, *n, 1);                                                                                          \
            mat(#c "getrs", "B", b, *n, *nr, *ldb);                                                                                        \
        }                                                                                                                                  \
        real(t, n, nr, a, lda, ipiv, b, ldb, info);                                                                                        \
    }                                                                                                                                      \
    void c##potrf_(C u, I n, T *a, I lda, int *info) {                                                                                     \
        REAL(#c "potrf_", C, I, T *, I, int *)                                                                                             \
        if (chk) mat(#c "potrf", "A", a, *n, *n, *lda);                                                                                    \
        real(u, n, a, lda, info);                                                                                                          \
    }                                                                                                                                      \
    void c##potrs_(C u, I n, I nr, const T *a, I lda, T *b, I ldb, int *info) {                                                            \
        REAL(#c "potrs_", C, I, I, const T *, I, T *, I, int *)                                                                            \
        if (chk) {                                                                                                                         \
            mat(#c "potrs", "A", a, *n, *n, *lda);                                                                                         \
            mat(#c "potrs", "B", b, *n, *nr, *ldb);                                                                                        \
        }                                                                                                                                  \
        real(u, n, nr, a, lda, b, ldb, info);                                                                                              \
    }
BLASSET(s, float)
BLASSET(d, double)
BLASSET(c, cfl)
BLASSET(z, zdb)
#define ORM(name, T)                                                                                                       \
    void name##_(C s, C t, I m, I n, I k, const T *a, I lda, const T *tau, T *c, I ldc, T *w, I lw, int *info) {           \
        REAL(#name "_", C, C, I, I, I, const T *, I, const T *, T *, I, T *, I, int *)                                     \
        if (chk && *lw != -1) {                                                                                            \
            bool lq = strstr(#name, "mlq") != nullptr;                                                                     \
            int q   = L(s) ? *m : *n;                                                                                      \
            mat(#name, "A", a, lq ? *k : q, lq ? q : *k, *lda);                                                            \
            vec(#name, "tau", tau, *k, 1);                                                                                 \
            mat(#name, "C", c, *m, *n, *ldc);                                                                              \
            vec(#name, "work", w, *lw, 1);                                                                                 \
        }                                                                                                                  \
        real(s, t, m, n, k, a, lda, tau, c, ldc, w, lw, info);                                                             \
    }
ORM(sormqr, float)
ORM(dormqr, double)
ORM(cunmqr, cfl)
ORM(zunmqr, zdb)
ORM(sormlq, float)
ORM(dormlq, double)
ORM(cunmlq, cfl)
ORM(zunmlq, zdb)
#define SVDCHK(nm)                                                                                \
    if (chk && *lw != -1) {                                                                       \
        int k = *m < *n ? *m : *n;                                                                \
        mat(nm, "A", a, *m, *n, *lda);                                                            \
        vec(nm, "S", s, k, 1);                                                                    \
        if (*ju == 'A') mat(nm, "U", u, *m, *m, *ldu);                                            \
        if (*ju == 'S') mat(nm, "U", u, *m, k, *ldu);                                             \
        if (*jv == 'A') mat(nm, "VT", vt, *n, *n, *ldvt);                                         \
        if (*jv == 'S') mat(nm, "VT", vt, k, *n, *ldvt);                                          \
        vec(nm, "work", w, *lw, 1);                                                               \
    }
#define GESVDR(c, T)                                                                                                 \
    void c##gesvd_(C ju, C jv, I m, I n, T *a, I lda, T *s, T *u, I ldu, T *vt, I ldvt, T *w, I lw, int *info) {     \
        REAL(#c "gesvd_", C, C, I, I, T *, I, T *, T *, I, T *, I, T *, I, int *)                                    \
        SVDCHK(#c "gesvd")                                                                                           \
        real(ju, jv, m, n, a, lda, s, u, ldu, vt, ldvt, w, lw, info);                                                \
    }
GESVDR(s, float)
GESVDR(d, double)
#define GESVDC(c, T, U)                                                                                                     \
    void c##gesvd_(C ju, C jv, I m, I n, T *a, I lda, U *s, T *u, I ldu, T *vt, I ldvt, T *w, I lw, U *rw, int *info) {     \
        REAL(#c "gesvd_", C, C, I, I, T *, I, U *, T *, I, T *, I, T *, I, U *, int *)                                      \
        SVDCHK(#c "gesvd")                                                                                                  \
        if (chk && *lw != -1) vec(#c "gesvd", "rwork", rw, 5 * (*m < *n ? *m : *n), 1);                                     \
        real(ju, jv, m, n, a, lda, s, u, ldu, vt, ldvt, w, lw, rw, info);                                                   \
    }
GESVDC(c, cfl, float)
GESVDC(z, zdb, double)
#define HEMX(c, T)                                                                                                               \
    void c##hemv_(C u, I n, const T *al, const T *a, I lda, const T *x, I ix, const T *be, T *y, I iy) {                         \
        REAL(#c "hemv_", C, I, const T *, const T *, I, const T *, I, const T *, T *, I)                                         \
        if (chk) {                                                                                                               \
            mat(#c "hemv", "A", a, *n, *n, *lda);                                                                                \
            vec(#c "hemv", "x", x, *n, *ix);                                                                                     \
            vec(#c "hemv", "y", y, *n, *iy);                                                                                     \
        }                                                                                                                        \
        real(u, n, al, a, lda, x, ix, be, y, iy);                                                                                \
    }                                                                                                                            \
    void c##hemm_(C s, C u, I m, I n, const T *al, const T *a, I lda, const T *b, I ldb, const T *be, T *cc, I ldc) {            \
        REAL(#c "hemm_", C, C, I, I, const T *, const T *, I, const T *, I, const T *, T *, I)                                   \
        if (chk && *m > 0 && *n > 0) {                                                                                           \
            int q = L(s) ? *m : *n;                                                                                              \
            mat(#c "hemm", "A", a, q, q, *lda);                                                                                  \
            mat(#c "hemm", "B", b, *m, *n, *ldb);                                                                                \
            mat(#c "hemm", "C", cc, *m, *n, *ldc);                                                                               \
        }                                                                                                                        \
        real(s, u, m, n, al, a, lda, b, ldb, be, cc, ldc);                                                                       \
    }
HEMX(c, cfl)
HEMX(z, zdb)
}
