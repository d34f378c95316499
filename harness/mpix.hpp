// MPI side of the harness: own main, sub-communicators, gathering of the global reference matrix.
#ifndef VF_MPIX_HPP
#define VF_MPIX_HPP
#define VF_MPI
#include "hmx.hpp"
#include <htool/distributed_operator/distributed_operator.hpp>
#include <htool/distributed_operator/utility.hpp>
#include <htool/local_operators/local_dense_matrix.hpp>
#include <htool/local_operators/local_hmatrix.hpp>
#include <mpi.h>
namespace vf {
struct World {
    int rank = 0, size = 1;
    static World &get() {
        static World w;
        return w;
    }
};
// communicator with p of the ranks of the world in a random order; ranks left out get MPI_COMM_NULL
struct Sub {
    MPI_Comm comm = MPI_COMM_NULL;
    int rank = -1, size = 0;
    Sub(Rng &r, int p) {
        World &w = World::get();
        std::vector<int> ord(w.size);
        for (int i = 0; i < w.size; i++) ord[i] = i;
        if (r.p(0.5))
            for (int i = w.size - 1; i > 0; i--) std::swap(ord[i], ord[r.i(0, i)]);
        int pos = 0;
        for (int i = 0; i < w.size; i++)
            if (ord[i] == w.rank) pos = i;
        MPI_Comm_split(MPI_COMM_WORLD, pos < p ? 0 : MPI_UNDEFINED, pos, &comm);
        if (comm != MPI_COMM_NULL) {
            MPI_Comm_rank(comm, &rank);
            MPI_Comm_size(comm, &size);
        }
    }
    ~Sub() {
        if (comm != MPI_COMM_NULL) MPI_Comm_free(&comm);
    }
};
// sum over ranks of a dense matrix
inline Dense allsum(const Dense &A, MPI_Comm c) {
    Dense B = A;
    MPI_Allreduce(MPI_IN_PLACE, (double *)B.a.data(), (int)(B.a.size() * sizeof(D) / sizeof(double)), MPI_DOUBLE, MPI_SUM, c);
    return B;
}
inline bool same_on_all(const T *p, size_t n, MPI_Comm c) {
    std::vector<T> b(p, p + n);
    MPI_Bcast(b.data(), (int)(n * sizeof(T)), MPI_BYTE, 0, c);
    return n == 0 || memcmp(b.data(), p, n * sizeof(T)) == 0;
}
inline bool any(bool x, MPI_Comm c) {
    int a = x, b = 0;
    MPI_Allreduce(&a, &b, 1, MPI_INT, MPI_MAX, c);
    return b != 0;
}
typedef htool::DistributedOperator<T> DO;
static const char *EN[] = {"vec-g2g", "mat-g2g", "vecT-g2g", "matT-g2g", "vec-l2l", "mat-l2l", "vecT-l2l", "matT-l2l", "ivec-g2l", "imat-g2l", "ivecT-l2g", "imatT-l2g", "ivec-l2l", "imat-l2l", "ivecT-l2l", "imatT-l2l", "l2g-source", "l2g-target", "sub-to-local"};
// random sequence of distributed products, each compared on this rank with the global reference M (cluster numbering, |.| bound Am)
inline void drive_products(Ctx &cx, Rng &r, DO *A, const Sub &sub, const Clu &tc, const Clu &sc, const Dense &M, const Dense &Am, int maxrank, int thr, int ncalls, const std::string &tag, std::function<void(int)> after = nullptr) {
    auto log  = logrec();
    int P     = sub.size, nt = tc.get_size(), ns = sc.get_size();
    bool same = &tc == &sc;
    char sy   = A->get_symmetry_type();
    const Clu &tl = *tc.get_clusters_on_partition()[sub.rank], &sl = *sc.get_clusters_on_partition()[sub.rank];
    bool local_ok = tc.is_permutation_local() && sc.is_permutation_local();
    cx.count("partitions_local", local_ok);
    for (int call = 0; call < ncalls; call++) {
        int e     = r.i(0, 18);
        bool perm = r.p(0.6);
        if (e >= 4 && e <= 7 && perm && !local_ok) perm = false;
        bool vec = e < 16 ? e % 2 == 0 : false;
        bool tr  = (e < 8 && e % 4 >= 2) || e == 10 || e == 11 || e == 14 || e == 15;
        bool loc_in  = (e >= 4 && e <= 7) || e >= 10;
        bool loc_out = (e >= 4 && e <= 7) || e == 8 || e == 9 || (e >= 12 && e <= 15) || e == 18;
        bool internal = e >= 8;
        int mu        = vec ? 1 : r.pick({1, 2, 3, 5, 9});
        if (cx.tail(23, 7) && !vec) mu = 18 + (int)(cx.k / 23 % 50); // many columns in a few cases
        bool work     = r.p(0.4);
        if (e >= 16 || e <= 3 || (e >= 8 && e <= 11)) work = false;
        cx.op(S() << "[" << EN[e] << " mu=" << mu << (internal ? "" : perm ? " user" : " cluster") << (work ? " work" : "") << "]");
        A->use_permutation() = perm;
        const Clu &ci = tr ? tc : sc, &co = tr ? sc : tc;             // input / output trees
        const Clu &il = tr ? tl : sl, &ol = tr ? sl : tl;
        int ni = ci.get_size(), no = co.get_size();
        Dense ref, mag, X;
        int soff = 0, ssize = 0;
        // global input in cluster numbering (same generator state on every rank)
        std::vector<T> xs = rvec(r, (size_t)(e == 17 ? tc.get_size() : ni) * mu);
        X                 = fromrm(e == 17 ? tc.get_size() : ni, mu, xs.data());
        if (e == 16 || e == 17) ref = X, mag = absd(X);
        else if (e == 18) {
            // columns of one rank's part
            int q = r.i(0, P - 1);
            soff  = tc.get_clusters_on_partition()[q]->get_offset();
            ssize = tc.get_clusters_on_partition()[q]->get_size();
            if (!same) {
                soff  = sc.get_clusters_on_partition()[q]->get_offset();
                ssize = sc.get_clusters_on_partition()[q]->get_size();
            }
            Dense Y(ni, mu);
            for (int i = soff; i < soff + ssize; i++)
                for (int j = 0; j < mu; j++) Y(i, j) = X(i, j);
            ref = mul(M, Y);
            mag = mul(Am, absd(Y));
        } else {
            ref = mul(op(tr ? 'T' : 'N', M), X);
            mag = mul(op(tr ? 'T' : 'N', Am), absd(X));
        }
        // input buffer
        const Clu &cin = e == 17 ? tc : ci;
        const Clu &lin = e == 17 ? tl : il;
        int i0 = loc_in ? lin.get_offset() : 0, in = loc_in ? lin.get_size() : cin.get_size();
        if (e == 18) i0 = soff, in = ssize;
        std::vector<T> x((size_t)in * mu);
        for (int i = 0; i < in; i++)
            for (int j = 0; j < mu; j++) {
                T v = xs[(size_t)(i0 + i) * mu + j];
                if (internal) x[(size_t)i * mu + j] = v;
                else if (perm) x[(size_t)j * in + cin.get_permutation()[i0 + i] - i0] = v;
                else x[(size_t)j * in + i] = v;
            }
        const Clu &cout = e == 16 ? sc : e == 17 ? tc : co;
        int o0 = loc_out ? ol.get_offset() : 0, on = loc_out ? ol.get_size() : cout.get_size();
        std::vector<T> y0((size_t)on * mu, T(std::numeric_limits<R>::quiet_NaN()));
        Guard gx(x), gy(y0);
        size_t wsz = (size_t)ns * mu + (tr ? (size_t)P * sl.get_size() * mu : 0);
        std::vector<T> w0(work ? wsz : 0, T(std::numeric_limits<R>::quiet_NaN()));
        Guard gw(w0);
        T *w = work ? gw.data() : nullptr, *yo = gy.data();
        const T *xi = gx.data();
        log->clear();
        switch (e) {
        case 0: A->vector_product_global_to_global(xi, yo); break;
        case 1: A->matrix_product_global_to_global(xi, yo, mu); break;
        case 2: A->vector_product_transp_global_to_global(xi, yo); break;
        case 3: A->matrix_product_transp_global_to_global(xi, yo, mu); break;
        case 4: A->vector_product_local_to_local(xi, yo, w); break;
        case 5: A->matrix_product_local_to_local(xi, yo, mu, w); break;
        case 6: A->vector_product_transp_local_to_local(xi, yo, w); break;
        case 7: A->matrix_product_transp_local_to_local(xi, yo, mu, w); break;
        case 8: A->internal_vector_product_global_to_local(xi, yo); break;
        case 9: A->internal_matrix_product_global_to_local(xi, yo, mu); break;
        case 10: A->internal_vector_product_transp_local_to_global(xi, yo); break;
        case 11: A->internal_matrix_product_transp_local_to_global(xi, yo, mu); break;
        case 12: A->internal_vector_product_local_to_local(xi, yo, w); break;
        case 13: A->internal_matrix_product_local_to_local(xi, yo, mu, w); break;
        case 14: A->internal_vector_product_transp_local_to_local(xi, yo, w); break;
        case 15: A->internal_matrix_product_transp_local_to_local(xi, yo, mu, w); break;
        case 16: A->local_to_global_source(xi, yo, mu); break;
        case 17: A->local_to_global_target(xi, yo, mu); break;
        case 18: A->internal_sub_matrix_product_to_local(xi, yo, mu, soff, ssize); break;
        }
        std::string key = S() << EN[e] << ":" << sy << tag;
        cx.check(log->errors == 0, S() << "error-reported:" << key, log->last_error());
        cx.check(memcmp(gx.vec().data(), x.data(), x.size() * sizeof(T)) == 0 && gx.intact(), S() << "input-modified:" << key);
        cx.check(gy.intact(), S() << "wrote-outside-output:" << key);
        cx.check(gw.intact(), S() << "wrote-outside-work:" << key);
        Dense got(on, mu), rr(on, mu), mm(on, mu);
        for (int i = 0; i < on; i++)
            for (int j = 0; j < mu; j++) {
                T v;
                if (internal) v = yo[(size_t)i * mu + j];
                else if (perm) v = yo[(size_t)j * on + cout.get_permutation()[o0 + i] - o0];
                else v = yo[(size_t)j * on + i];
                got(i, j) = up(v);
                rr(i, j)  = ref(o0 + i, j);
                mm(i, j)  = mag(o0 + i, j);
            }
        double tol = 8 * eps() * (nt + ns + maxrank + thr + P + 10);
        double wp = worst(got, rr, mm, 1e-290);
        if (tr && sy != 'N' && wp > tol) { // an approximation of a symmetric operator is symmetric up to its precision only: the product with either triangle's blocks is its product
            Dense M2 = mul(sy == 'S' ? M : op('C', op('T', M)), X), m2 = mul(Am, absd(X));
            for (int i = 0; i < on; i++)
                for (int j = 0; j < mu; j++) rr(i, j) = M2(o0 + i, j), mm(i, j) = m2(o0 + i, j);
            wp = worst(got, rr, mm, 1e-290);
            cx.count("transposed_products_of_nearly_symmetric_operators");
        }
        cx.le(wp / tol, 1, S() << "product:" << key, S() << "rank " << sub.rank << " of " << P);
        if (!loc_out && !tr) cx.check(same_on_all(yo, (size_t)on * mu, sub.comm), S() << "ranks-differ:" << key);
        cx.count("products");
        cx.count(S() << "op_" << EN[e]);
        if (P > 1) cx.count("multi_rank_products");
        if (tl.get_size() * P != nt) cx.count("uneven_products");
        if (after) after(e);
        cx.sig(S() << e << P << tag << sy << A->get_storage_type() << perm << (mu > 1) << work << same << local_ok << (nt > ns));
    }
}
} // namespace vf
int main(int argc, char **argv) {
    int prov;
    MPI_Init_thread(&argc, &argv, MPI_THREAD_FUNNELED, &prov);
    vf::World &w = vf::World::get();
    MPI_Comm_rank(MPI_COMM_WORLD, &w.rank);
    MPI_Comm_size(MPI_COMM_WORLD, &w.size);
    int rc = vf::vf_main(argc, argv, [](bool b) { return vf::any(b, MPI_COMM_WORLD); }, w.rank);
    MPI_Finalize();
    return rc;
}
#endif
