// C03: given partitions respected; numbering conversions are the permutation and exact inverses.
#include "hmx.hpp"
#include <htool/misc/user.hpp>
using namespace vf;
namespace vf {
template <class E>
struct Mk {
    static E get(int i, Rng &r) { return E(i * 7 + 3) + Rand<E>::get(r); }
};
template <>
struct Mk<int> {
    static int get(int i, Rng &r) { return i * 31 + r.i(0, 5); }
};
template <class E, class F, class G>
void roundtrip(Ctx &cx, const char *what, int n, const int *perm, int off, F to_cluster, G to_user) {
    // user vector u (indices relative to off), cluster vector c: c[i] = u[perm[off+i]-off]
    const int GN = 16;
    Rng &r = cx.rng;
    E mark = E(-12345);
    std::vector<E> u(n), bufc(n + 2 * GN, mark), bufu(n + 2 * GN, mark);
    for (int i = 0; i < n; i++) u[i] = Mk<E>::get(i, r);
    std::vector<E> u0 = u;
    to_cluster(u.data(), bufc.data() + GN);
    cx.check(u == u0, S() << what << ":input-modified");
    bool ok = true;
    for (int i = 0; i < n; i++)
        if (!(bufc[GN + i] == u[perm[off + i] - off])) ok = false;
    cx.check(ok, S() << what << ":to-cluster-position");
    for (int i = 0; i < GN; i++)
        if (!(bufc[i] == mark) || !(bufc[GN + n + i] == mark)) ok = false;
    cx.check(ok, S() << what << ":to-cluster-outside");
    std::vector<E> c(bufc.begin() + GN, bufc.begin() + GN + n), c0 = c;
    to_user(c.data(), bufu.data() + GN);
    cx.check(c == c0, S() << what << ":input-modified2");
    ok = true;
    for (int i = 0; i < n; i++)
        if (!(bufu[GN + i] == u[i])) ok = false;
    cx.check(ok, S() << what << ":roundtrip");
    ok = true;
    for (int i = 0; i < GN; i++)
        if (!(bufu[i] == mark) || !(bufu[GN + n + i] == mark)) ok = false;
    cx.check(ok, S() << what << ":to-user-outside");
    cx.count("conversions", 2);
    cx.count("entries_moved", 2 * n);
}
template <class E>
void all(Ctx &cx, const Clu &cl) {
    const int *perm = cl.get_permutation().data();
    int n = cl.get_size();
    roundtrip<E>(cx, "root", n, perm, 0, [&](const E *a, E *b) { htool::global_to_root_cluster(cl, a, b); }, [&](const E *a, E *b) { htool::root_cluster_to_global(cl, a, b); });
    roundtrip<E>(cx, "user-root", n, perm, 0, [&](const E *a, E *b) { htool::user_to_cluster(cl, a, b); }, [&](const E *a, E *b) { htool::cluster_to_user(cl, a, b); });
    if (cl.is_permutation_local())
        for (size_t p = 0; p < cl.get_clusters_on_partition().size(); p++) {
            const Clu &q = *cl.get_clusters_on_partition()[p];
            roundtrip<E>(cx, "local", q.get_size(), perm, q.get_offset(), [&](const E *a, E *b) { htool::local_to_local_cluster(cl, (int)p, a, b); }, [&](const E *a, E *b) { htool::local_cluster_to_local(cl, (int)p, a, b); });
            roundtrip<E>(cx, "local-via-child", q.get_size(), perm, q.get_offset(), [&](const E *a, E *b) { htool::local_to_local_cluster(q, (int)p, a, b); }, [&](const E *a, E *b) { htool::local_cluster_to_local(q, (int)p, a, b); });
            roundtrip<E>(cx, "user-local", q.get_size(), perm, q.get_offset(), [&](const E *a, E *b) { htool::user_to_cluster(q, a, b); }, [&](const E *a, E *b) { htool::cluster_to_user(q, a, b); });
        }
}
void vf_case(Ctx &cx) {
    Rng &r  = cx.rng;
    auto lg = logrec();
    lg->clear();
    int dim = r.i(2, 3);
    int n   = r.p(0.2) ? r.i(1, 10) : r.i(11, cx.thorough ? 2500 : 400);
    bool huge = cx.tail(3000, 701);
    if (huge) n = r.i(66000, 150000);
    int gk  = r.i(0, NGEOM);
    auto x  = geometry<C>(r, gk, n, dim);
    CluCfg c = random_clucfg(r, n, dim, r.pick({1, 4, 9, 20}));
    if (r.p(0.5) && !c.given) {
        c.given = true;
        c.part  = make_partition(r, n, c.size_part, 0);
    }
    if (huge) cx.count("huge_trees");
    cx.desc(S() << "n=" << n << " dim=" << dim << " geom=" << GEOM[gk] << " " << cdesc(c));
    std::unique_ptr<Clu> cl(make_cluster(c, n, dim, x));
    cx.check(cl->is_permutation_local() == c.given, "local-permutation-flag", S() << cl->is_permutation_local() << " given=" << c.given);
    const auto &parts = cl->get_clusters_on_partition();
    if (!cx.check((int)parts.size() == c.size_part, "partition-count")) return;
    if (c.given) {
        for (int p = 0; p < c.size_part; p++) {
            cx.check(parts[p]->get_offset() == c.part[2 * p] && parts[p]->get_size() == c.part[2 * p + 1], "given-range-not-respected", S() << p << ": " << parts[p]->get_offset() << "+" << parts[p]->get_size() << " expected " << c.part[2 * p] << "+" << c.part[2 * p + 1]);
            for (int i = 0; i < c.part[2 * p + 1]; i++) {
                int v = cl->get_permutation()[c.part[2 * p] + i];
                if (!cx.check(v >= c.part[2 * p] && v < c.part[2 * p] + c.part[2 * p + 1], "point-left-its-given-range")) break;
            }
        }
        cx.count("given_partitions");
    }
    std::vector<int> sorted = cl->get_permutation();
    std::sort(sorted.begin(), sorted.end());
    for (int i = 0; i < n; i++)
        if (!cx.check(sorted[i] == i, "permutation-not-bijection")) break;
    all<int>(cx, *cl);
    all<T>(cx, *cl);
    cx.check(lg->errors == 0, "error-logged-on-valid-conversion", lg->last_error());
    if (n > 1) cx.sig(S() << gk << dim << cdesc(c) << n);
}
} // namespace vf
