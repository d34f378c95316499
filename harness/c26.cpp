// C26: diagonal extraction, densification, sub-block look-up and leaf lists return the represented entries.
#include <map>
#include <sys/mman.h>
#include <unistd.h>
#include "hmx.hpp"
using namespace vf;
namespace vf {
static bool marked(D x) { return x == up(T(R(-77.125))); } // initial content of guarded buffers

// stored entries of a node (position inside the node, cluster numbering)
struct Stored {
    Dense M, A;
    std::vector<char> cov, exact;
};
static Stored stored(const HM &h) {
    Stored s;
    int ro = h.get_target_cluster().get_offset(), co = h.get_source_cluster().get_offset();
    s.M = Dense(h.nb_rows(), h.nb_cols());
    s.A = Dense(h.nb_rows(), h.nb_cols());
    s.cov.assign(s.M.a.size(), 0);
    s.exact.assign(s.M.a.size(), 0);
    walk_leaves(h, [&](const HM &l) {
        Dense m, a;
        leaf_dense(l, m, a);
        int i0 = l.get_target_cluster().get_offset() - ro, j0 = l.get_source_cluster().get_offset() - co;
        for (int j = 0; j < m.n; j++)
            for (int i = 0; i < m.m; i++) {
                s.M(i0 + i, j0 + j) = m(i, j);
                s.A(i0 + i, j0 + j) = a(i, j);
                s.cov[(size_t)(j0 + j) * s.M.m + i0 + i] = 1;
                s.exact[(size_t)(j0 + j) * s.M.m + i0 + i] = l.is_dense();
            }
    });
    return s;
}
static double tol(double mag, int rank) { return 8 * eps() * (rank + 2) * mag; }

static bool symmetric_region(const Prob &p, const HM &l) {
    int ti = l.get_target_cluster().get_offset(), tn = l.get_target_cluster().get_size(), si = l.get_source_cluster().get_offset(), sn = l.get_source_cluster().get_size();
    return p.sym != 'N' && ti >= p.diag_lo && ti + tn <= p.diag_hi && si >= p.diag_lo && si + sn <= p.diag_hi;
}
static bool mirror_inside(const Prob &p, const HM &node, const HM &l) {
    if (!symmetric_region(p, l)) return false;
    const Clu &t = l.get_target_cluster(), &s = l.get_source_cluster(), &T0 = node.get_target_cluster(), &S0 = node.get_source_cluster();
    if (t.get_offset() == s.get_offset()) return false;
    return s.get_offset() >= T0.get_offset() && s.get_offset() + s.get_size() <= T0.get_offset() + T0.get_size() && t.get_offset() >= S0.get_offset() && t.get_offset() + t.get_size() <= S0.get_offset() + S0.get_size();
}
static void check_lists(Ctx &cx, const Prob &p, const HM &n) {
    auto pr = htool::get_leaves_from(n);
    std::multiset<const HM *> got(pr.first.begin(), pr.first.end()), gm(pr.second.begin(), pr.second.end()), want, wm;
    walk_leaves(n, [&](const HM &l) {
        want.insert(&l);
        if (mirror_inside(p, n, l)) wm.insert(&l);
    });
    cx.check(got == want, "leaf-list", S() << got.size() << " instead of " << want.size());
    cx.check(gm == wm, "mirrored-leaf-list", S() << gm.size() << " instead of " << wm.size());
    cx.count("leaf_lists");
    cx.count("mirrored_listed", wm.size());
}
// cluster numbering: exactly the stored entries
static void check_dense(Ctx &cx, const HM &n, int rk) {
    Stored s = stored(n);
    Guard g(s.M.a.size());
    htool::copy_to_dense(n, g.data());
    cx.check(g.intact(), "copy-to-dense-out-of-range");
    for (size_t q = 0; q < s.M.a.size(); q++) {
        D v = up(g.data()[q]);
        if (!s.cov[q]) {
            if (!cx.check(marked(v), "entry-not-represented-overwritten", S() << q % s.M.m << "," << q / s.M.m)) break;
        } else if (s.exact[q]) {
            if (!cx.check(v == s.M.a[q], "dense-entry", S() << q % s.M.m << "," << q / s.M.m << " " << v << " instead of " << s.M.a[q])) break;
        } else if (!cx.le(std::abs(v - s.M.a[q]), tol(std::abs(s.A.a[q]), rk), "low-rank-entry", S() << q % s.M.m << "," << q / s.M.m)) break;
    }
    cx.count("densified");
}
static bool stable(const Clu &c) { return c.is_root() || (htool::is_cluster_on_partition(c) && c.is_permutation_local()); }
// user numbering: every represented entry including the mirrored ones
static void check_user(Ctx &cx, const Prob &p, const HM &n, int rk, const char *what) {
    const Clu &t = n.get_target_cluster(), &s = n.get_source_cluster();
    if (!stable(t) || !stable(s)) return;
    Dense W(n.nb_rows(), n.nb_cols()), A = W;
    std::vector<char> cov(W.a.size(), 0), ex(W.a.size(), 0);
    int ro = t.get_offset(), co = s.get_offset();
    walk_leaves(n, [&](const HM &l) {
        Dense m, a;
        leaf_dense(l, m, a);
        int ti = l.get_target_cluster().get_offset(), si = l.get_source_cluster().get_offset();
        bool mir = mirror_inside(p, n, l);
        for (int j = 0; j < m.n; j++)
            for (int i = 0; i < m.m; i++) {
                auto put = [&](int gi, int gj, D v, D mag) {
                    int ui = t.get_permutation()[gi] - ro, uj = s.get_permutation()[gj] - co;
                    if (!cx.check(ui >= 0 && ui < W.m && uj >= 0 && uj < W.n, "local-permutation-leaves-range")) return;
                    W(ui, uj) = v;
                    A(ui, uj) = mag;
                    cov[(size_t)uj * W.m + ui] = 1;
                    ex[(size_t)uj * W.m + ui]  = l.is_dense();
                };
                put(ti + i, si + j, m(i, j), a(i, j));
                if (mir) put(si + j, ti + i, p.sym == 'H' ? cj(m(i, j)) : m(i, j), a(i, j));
            }
    });
    Guard g(W.a.size());
    logrec()->clear();
    htool::copy_to_dense_in_user_numbering(n, g.data());
    cx.check(logrec()->errors == 0, "error-on-valid-request", S() << what << ": " << logrec()->last_error());
    cx.check(g.intact(), "user-densification-out-of-range");
    long un = 0;
    for (size_t q = 0; q < W.a.size(); q++) {
        D v = up(g.data()[q]);
        if (!cov[q]) {
            un++;
            if (!cx.check(marked(v), "user-entry-not-represented-overwritten")) break;
        } else if (ex[q]) {
            if (!cx.check(v == W.a[q], "user-dense-entry", S() << what << " " << q % W.m << "," << q / W.m << " " << v << " instead of " << W.a[q])) break;
        } else if (!cx.le(std::abs(v - W.a[q]), tol(std::abs(A.a[q]), rk), "user-low-rank-entry", S() << what << " " << q % W.m << "," << q / W.m)) break;
    }
    if (n.get_target_cluster().is_root() || p.tpart >= 0)
        if (&n.get_target_cluster() == (p.tpart >= 0 ? p.tc->get_clusters_on_partition()[p.tpart] : p.tc) && &n.get_source_cluster() == p.sc)
            cx.check(un == 0, "user-densification-incomplete", S() << un << " entries not written");
    cx.count("user_densified");
    if (!t.is_root()) cx.count("user_densified_local");
}
// diagonal in cluster and user numbering of square nodes
static void check_diag(Ctx &cx, const Prob &p, const HM &n, const char *what) {
    const Clu &t = n.get_target_cluster(), &s = n.get_source_cluster();
    if (t.get_offset() != s.get_offset() || t.get_size() != s.get_size()) return;
    Stored st = stored(n);
    int N = n.nb_rows();
    bool same = t == s;
    // cluster position of the source entry with a given user number
    std::map<int, int> back;
    if (stable(s))
        for (int i = 0; i < N; i++) back[s.get_permutation()[s.get_offset() + i]] = i;
    for (int user = 0; user < 2; user++) {
        if (user && !(stable(t) && stable(s) && t.is_root() == s.is_root())) continue;
        Guard g(N);
        logrec()->clear();
        if (user) htool::copy_diagonal_in_user_numbering(n, g.data());
        else htool::copy_diagonal(n, g.data());
        cx.check(logrec()->errors == 0, "diagonal-error-on-valid-request", S() << what << ": " << logrec()->last_error());
        cx.check(g.intact(), "diagonal-out-of-range");
        for (int i = 0; i < N; i++) {
            int u = user ? t.get_permutation()[t.get_offset() + i] - t.get_offset() : i;
            int j = user ? back[t.get_permutation()[t.get_offset() + i]] : i;
            size_t q = (size_t)j * N + i;
            D v = up(g.data()[u]);
            std::string w = S() << what << (user ? " user" : " cluster") << " entry " << i << " got " << v << " instead of " << st.M.a[q] << (same ? "" : " (different clusters)");
            if (!cx.check(st.cov[q], "diagonal-not-covered", w)) break;
            if (st.exact[q]) {
                if (!cx.check(v == st.M.a[q], same ? "diagonal" : "diagonal-different-clusters", w)) break;
            } else {
                cx.count("diagonal_entries_in_lowrank");
                if (!cx.le(std::abs(v - st.M.a[q]), tol(std::abs(st.A.a[q]), 40), same ? "diagonal-in-low-rank" : "diagonal-in-low-rank-different-clusters", w)) break;
            }
        }
        cx.count(user ? "user_diagonals" : "diagonals");
        if (user && !t.is_root()) cx.count("user_diagonals_local");
    }
    (void)p;
}
struct AcceptAll : htool::VirtualAdmissibilityCondition<C> {
    int md;
    explicit AcceptAll(int m) : md(m) {}
    bool ComputeAdmissibility(const Clu &t, const Clu &s, double) const override { return t.get_depth() + s.get_depth() >= md; }
};
// A window over more memory than there is: the entries of a few watched pages are stored, all the others share one page
struct Window {
    static constexpr size_t PAGE = 1 << 16, SCRATCH = 1 << 26;
    char *base   = nullptr;
    size_t bytes = 0;
    std::map<size_t, bool> pages; // watched offsets
    explicit Window(size_t nb, Rng &r) : bytes((nb + SCRATCH - 1) / SCRATCH * SCRATCH) {
        int fd = memfd_create("vf", 0);
        if (fd < 0 || ftruncate(fd, SCRATCH)) std::abort();
        base = (char *)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED) std::abort();
        for (size_t o = 0; o < bytes; o += SCRATCH)
            if (mmap(base + o, SCRATCH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) std::abort();
        close(fd);
        auto watch = [&](size_t o) {
            o = o / PAGE * PAGE;
            if (mmap(base + o, PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) std::abort();
            pages[o] = true;
        };
        watch(0);
        watch(nb - 1);
        for (int q = 0; q < 100; q++) watch((size_t)(r.u(0, 1) * (double)(nb - 1)));
    }
    ~Window() { munmap(base, bytes); }
};
// densification of a matrix with more entries than an int can count
static void huge_dense(Ctx &cx) {
    Rng &r = cx.rng;
    HugeLine k(r, 2);
    bool user = r.p(0.5);
    size_t n = (size_t)k.nt, nc = (size_t)k.ns, total = n * nc;
    cx.desc(S() << k.desc() << (user ? " user" : " cluster") << " densification");
    Window w(total * sizeof(T), r);
    logrec()->clear();
    if (user) htool::copy_to_dense_in_user_numbering(*k.h, (T *)w.base);
    else htool::copy_to_dense(*k.h, (T *)w.base);
    cx.check(logrec()->errors == 0, "huge-dense-logged-error");
    const auto &pt = k.ct->get_permutation();
    const auto &ps = k.sc().get_permutation();
    std::vector<int> it(n), is(nc);
    for (size_t i = 0; i < n; i++) it[pt[i]] = (int)i;
    for (size_t i = 0; i < nc; i++) is[ps[i]] = (int)i;
    long seen = 0;
    for (auto &pg : w.pages)
        for (size_t e = pg.first / sizeof(T); e < std::min(total, (pg.first + Window::PAGE) / sizeof(T)); e++) {
            int i = (int)(e % n), j = (int)(e / n);
            int ui = user ? i : pt[i], uj = user ? j : ps[j];
            if (k.sym != 'N') { // the stored triangle only: the mirrored entries are copied within the window
                int ci = it[ui], cj = is[uj];
                if (std::abs(ci - cj) < 200 || (ci > cj) != (k.uplo == 'L')) continue;
            }
            seen++;
            if (!cx.le(std::abs(up(((T *)w.base)[e]) - up(k.a[ui] * k.b[uj])), 100 * eps() * std::abs(up(k.a[ui] * k.b[uj])), "huge-dense-entry", S() << i << "," << j)) return;
        }
    cx.count("huge_dense_entries", seen);
    cx.sig(S() << "hugedense" << k.sym << k.uplo << user);
}
// diagonals of matrices with more entries than an int can count
static void huge(Ctx &cx) {
    HugeLine k(cx.rng);
    cx.desc(k.desc());
    if (k.cs) return;
    auto &pm = k.ct->get_permutation();
    for (int user = 0; user < 2; user++) {
        Guard g((size_t)k.nt);
        logrec()->clear();
        if (user) htool::copy_diagonal_in_user_numbering(*k.h, g.data());
        else htool::copy_diagonal(*k.h, g.data());
        cx.check(g.intact() && logrec()->errors == 0, "huge-diagonal-guard");
        for (int i = 0; i < k.nt; i++) {
            int u = user ? i : pm[i];
            if (!cx.le(std::abs(up(g.data()[i]) - up(k.a[u] * k.b[u])), 100 * eps() * std::abs(up(k.a[u] * k.b[u])), "huge-diagonal", S() << (user ? "user " : "cluster ") << i)) break;
        }
    }
    for (int q = 0; q < 20; q++) { // look-up along a random path
        const HM *h = k.h.get();
        while (!h->get_children().empty() && cx.rng.p(0.9)) h = h->get_children()[cx.rng.i(0, (int)h->get_children().size() - 1)].get();
        const HM *f = k.h->get_sub_hmatrix(h->get_target_cluster(), h->get_source_cluster());
        cx.check(f && f->get_target_cluster() == h->get_target_cluster() && f->get_source_cluster() == h->get_source_cluster(), "huge-lookup");
    }
    cx.count("huge_diagonals");
    cx.sig(S() << "huge" << k.sym << k.uplo);
}
void vf_case(Ctx &cx) {
    Rng &r = cx.rng;
    if (cx.tail(250, 31)) return huge(cx);
    if (sizeof(T) == 4 && cx.tail(1000, 32)) return huge_dense(cx);
    Opts o;
    o.nmax = cx.thorough ? 220 : 120;
    if (cx.tail(97, 13)) o.nmin = 250, o.nmax = 500; // a few larger problems among the cases
    auto p = random_prob(r, o);
    // user-chosen admissibility that also accepts blocks holding diagonal entries
    if (p->sym == 'N' && r.p(0.25)) {
        p->adm = std::make_shared<AcceptAll>(r.i(0, 4));
        p->lrk = 3;
        cx.desc("accept-all");
    }
    cx.desc(p->d);
    logrec();
    HM h    = p->build();
    Rep rep = represented(h, *p);
    cx.check(rep.holes == 0 && rep.multi == 0, "coverage");
    check_dense(cx, h, rep.maxrank);
    check_user(cx, *p, h, rep.maxrank, "whole");
    check_diag(cx, *p, h, "whole");
    check_lists(cx, *p, h);
    // every kind of node
    std::vector<const HM *> nodes, diag, part;
    walk_nodes(h, [&](const HM &n) {
        nodes.push_back(&n);
        const Clu &t = n.get_target_cluster(), &s = n.get_source_cluster();
        if (t.get_offset() == s.get_offset() && t.get_size() == s.get_size()) diag.push_back(&n);
        if (htool::is_cluster_on_partition(t) && htool::is_cluster_on_partition(s)) part.push_back(&n);
    });
    for (int q = 0; q < 6; q++) {
        const HM &n = *nodes[r.i(0, nodes.size() - 1)];
        check_dense(cx, n, rep.maxrank);
        check_lists(cx, *p, n);
    }
    for (int q = 0; q < 4 && !diag.empty(); q++) {
        const HM &n = *diag[r.i(0, diag.size() - 1)];
        check_diag(cx, *p, n, "sub");
        check_lists(cx, *p, n);
    }
    for (int q = 0; q < 4 && !part.empty(); q++) {
        const HM &n = *part[r.i(0, part.size() - 1)];
        check_user(cx, *p, n, rep.maxrank, "partition-block");
        check_diag(cx, *p, n, "partition-block");
    }
    // look-up: present blocks are found, absent ones are not
    for (int q = 0; q < 8; q++) {
        const HM &n = *nodes[r.i(0, nodes.size() - 1)];
        const HM *f = h.get_sub_hmatrix(n.get_target_cluster(), n.get_source_cluster());
        HM *f2      = const_cast<HM &>(h).get_sub_hmatrix(n.get_target_cluster(), n.get_source_cluster());
        // with a single partition piece the root block and its only child have the same clusters: either may be returned
        cx.check(f && f == f2 && &f->get_target_cluster() == &n.get_target_cluster() && &f->get_source_cluster() == &n.get_source_cluster(), "sub-block-lookup", S() << "t=" << n.get_target_cluster().get_offset() << "+" << n.get_target_cluster().get_size() << " s=" << n.get_source_cluster().get_offset() << "+" << n.get_source_cluster().get_size() << (f ? " wrong block" : " not found"));
        cx.count("lookups");
        const HM &m = *nodes[r.i(0, nodes.size() - 1)];
        const HM &w = r.p(0.5) ? m : *nodes[r.i(0, nodes.size() - 1)];
        const Clu &t = n.get_target_cluster(), &s = w.get_source_cluster();
        const HM *ref = nullptr;
        for (auto *x : nodes)
            if (&x->get_target_cluster() == &t && &x->get_source_cluster() == &s) ref = x;
        const HM *a = h.get_sub_hmatrix(t, s);
        cx.check(ref ? a && &a->get_target_cluster() == &t && &a->get_source_cluster() == &s : !a, "absent-block-lookup");
        // one level only
        const HM *c1 = nullptr;
        if (&m.get_target_cluster() == &t && &m.get_source_cluster() == &s) c1 = &m;
        else
            for (const auto &c : m.get_children())
                if (&c->get_target_cluster() == &t && &c->get_source_cluster() == &s) c1 = c.get();
        cx.check(m.get_child_or_this(t, s) == c1 && const_cast<HM &>(m).get_child_or_this(t, s) == c1, "child-lookup");
        if (!ref) cx.count("absent_lookups");
    }
    if (rep.nleaf > 1) cx.sig(repclass(rep, *p) + (part.empty() ? "" : "p"));
    if (rep.mirrored) cx.count("mirrored_cases");
}
} // namespace vf
