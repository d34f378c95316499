// C01: exact hierarchical partition. Monitor walks every node of every tree built.
#include "hmx.hpp"
using namespace vf;
namespace vf {
void vf_case(Ctx &cx) {
    Rng &r  = cx.rng;
    auto lg = logrec();
    lg->clear();
    int dim = r.i(2, 3);
    int n   = r.p(0.15) ? r.i(1, 8) : r.i(9, cx.thorough ? 3000 : 700);
    bool huge = cx.tail(1500, 700); // more points than 16 bits count, and up to a million times as many node-by-point pairs
    if (huge) n = r.i(66000, 150000);
    int gk  = r.i(0, NGEOM);
    auto x  = geometry<C>(r, gk, n, dim);
    if (r.p(0.05)) std::fill(x.begin(), x.end(), x[0]); // all coordinates equal
    CluCfg c = random_clucfg(r, n, dim, r.pick({1, 4, 9, 30}));
    if (huge) {
        c.minsize = std::max(c.minsize, 3);
        if (!c.given && !partition_feasible(n, c.nchild, c.size_part, c.minsize)) c.minsize = 1;
        cx.count("huge_trees");
    } else if (r.p(0.04)) { // many partition clusters, often an exact power of the number of children
        c           = CluCfg();
        c.nchild    = r.i(2, 10);
        c.size_part = c.nchild;
        while (c.size_part * c.nchild <= 1024 && r.p(0.9)) c.size_part *= c.nchild;
        if (r.p(0.2)) c.size_part = r.i(c.size_part, c.size_part + c.nchild);
        c.minsize = r.i(1, 3);
        c.dir     = r.i(0, 1);
        n         = c.size_part * r.i(2, 6) + r.i(0, 50);
        x         = geometry<C>(r, gk, n, dim);
        while (!partition_feasible(n, c.nchild, c.size_part, c.minsize)) {
            n = 2 * n;
            x = geometry<C>(r, gk, n, dim);
        }
        cx.count("large_partitions");
    }
    c.radii = r.p(0.3);
    c.weights = r.p(0.3);
    for (int i = 0; i < n; i++) {
        c.rad.push_back(C(r.u(0, 0.1)));
        c.wei.push_back(C(r.u(0.1, 2)));
    }
    cx.desc(S() << "n=" << n << " dim=" << dim << " geom=" << GEOM[gk] << " " << cdesc(c));
    std::unique_ptr<Clu> cl(make_cluster(c, n, dim, x));
    cx.count("trees");
    cx.check(lg->errors == 0, "error-logged-on-valid-partition", lg->last_error());
    // permutation bijection
    const auto &perm = cl->get_permutation();
    cx.check((int)perm.size() == n, "permutation-size");
    std::vector<int> seen(n, 0);
    bool ok = true;
    for (int v : perm)
        if (v < 0 || v >= n || seen[v]++) ok = false;
    cx.check(ok, "permutation-not-bijection");
    cx.check(cl->get_offset() == 0 && cl->get_size() == n && cl->is_root() && cl->get_depth() == 0, "root-range");
    cx.check(&cl->get_root_cluster() == cl.get(), "root-pointer");
    // partition
    const auto &parts = cl->get_clusters_on_partition();
    if (!cx.check((int)parts.size() == c.size_part, "partition-count", S() << parts.size() << " expected " << c.size_part)) return;
    int off = 0;
    std::set<const Clu *> pset;
    for (size_t p = 0; p < parts.size(); p++) {
        if (!cx.check(parts[p] != nullptr, "partition-null")) return;
        pset.insert(parts[p]);
        cx.check(parts[p]->get_rank() == (int)p, "partition-rank-order", S() << p << ":" << parts[p]->get_rank());
        cx.check(parts[p]->get_offset() == off, "partition-tiling", S() << p << " offset " << parts[p]->get_offset() << " expected " << off);
        cx.check(parts[p]->get_size() > 0, "partition-empty");
        cx.check(&cl->get_cluster_on_partition(p) == parts[p], "cluster-on-partition-getter");
        cx.check(parts[p]->get_depth() == parts[0]->get_depth(), "partition-depth-uniform");
        off += parts[p]->get_size();
    }
    cx.check(off == n, "partition-cover");
    // nodes
    long nodes = 0, leaves = 0;
    unsigned mind = ~0u, maxd = 0;
    std::set<std::pair<unsigned, int>> ids;
    std::vector<std::pair<const Clu *, int>> st{{cl.get(), -1}};
    int pd = parts[0]->get_depth();
    std::set<const Clu *> found;
    while (!st.empty()) {
        const Clu *q = st.back().first;
        int rk       = st.back().second;
        st.pop_back();
        nodes++;
        if (pset.count(q)) {
            found.insert(q);
            rk = q->get_rank();
        }
        cx.check(q->get_rank() == rk, "rank-of-node", S() << "depth " << q->get_depth() << " rank " << q->get_rank() << " expected " << rk);
        cx.check(((int)q->get_depth() >= pd) == (rk >= 0), "rank-vs-partition-depth");
        cx.check(ids.insert({q->get_depth(), q->get_counter()}).second, "depth-counter-not-unique", S() << q->get_depth() << "," << q->get_counter());
        cx.check(&q->get_permutation() == &cl->get_permutation(), "permutation-shared");
        cx.check(htool::is_cluster_on_partition(*q) == ((int)q->get_depth() == pd), "is-cluster-on-partition");
        const auto &ch = q->get_children();
        cx.check(q->is_leaf() == ch.empty(), "is-leaf");
        int o = q->get_offset();
        for (auto &k : ch) {
            cx.check(k->get_offset() == o, "child-tiling", S() << "child at " << k->get_offset() << " expected " << o);
            cx.check(k->get_size() > 0, "child-empty");
            cx.check(k->get_depth() == q->get_depth() + 1, "child-depth");
            cx.check(!k->is_root(), "child-is-root");
            cx.check(&k->get_root_cluster() == cl.get(), "child-root-pointer");
            cx.check(htool::left_cluster_contains_right_cluster(*q, *k), "contains");
            cx.check(*k == *k && !(*k == *q), "equality");
            if (!(c.given && q->is_root())) cx.check(k->get_size() > c.minsize, "child-below-minimum-size", S() << k->get_size() << " min " << c.minsize);
            o += k->get_size();
            st.push_back({k.get(), rk});
        }
        if (!ch.empty()) {
            cx.check(o == q->get_offset() + q->get_size(), "children-cover", S() << "end " << o << " expected " << q->get_offset() + q->get_size());
            bool special = (c.given && q->is_root()) || (!c.given && (int)q->get_depth() == pd - 1);
            if (!special) cx.check((int)ch.size() == c.nchild, "number-of-children", S() << ch.size());
        } else {
            leaves++;
            mind = std::min(mind, q->get_depth());
            maxd = std::max(maxd, q->get_depth());
            // regular splitting: a node that can be split into children larger than the minimum is split
            if (c.split == 0) cx.check(!(q->get_size() / c.nchild > c.minsize), "splittable-leaf", S() << q->get_size());
        }
    }
    cx.check(found.size() == pset.size(), "partition-clusters-not-in-tree");
    cx.check(cl->get_minimal_depth() == mind && cl->get_maximal_depth() == maxd, "depth-metadata", S() << cl->get_minimal_depth() << "," << cl->get_maximal_depth() << " leaves " << mind << "," << maxd);
    // containment of index ranges, decided for arbitrary pairs of nodes
    {
        std::vector<const Clu *> all;
        htool::preorder_tree_traversal(static_cast<const Clu &>(*cl), [&](const Clu &q) { all.push_back(&q); });
        for (int t = 0; t < 60; t++) {
            const Clu *a = all[r.i(0, (int)all.size() - 1)], *b = all[r.i(0, (int)all.size() - 1)];
            if (r.p(0.4)) { // related nodes: walk up from b
                for (int s = r.i(1, 4); s > 0 && !b->is_leaf(); s--) b = b->get_children()[r.i(0, (int)b->get_children().size() - 1)].get();
                if (r.p(0.5) && !a->is_leaf()) b = a->get_children()[r.i(0, (int)a->get_children().size() - 1)].get();
                if (r.p(0.3)) std::swap(a, b);
            }
            bool in = a->get_offset() <= b->get_offset() && b->get_offset() + b->get_size() <= a->get_offset() + a->get_size();
            cx.check(htool::left_cluster_contains_right_cluster(*a, *b) == in, "containment-of-ranges", S() << a->get_offset() << "+" << a->get_size() << " / " << b->get_offset() << "+" << b->get_size());
            cx.count(in ? "contained_pairs" : "non_contained_pairs");
        }
    }
    // traversals visit every node exactly once, parents before / after children
    long pre = 0, post = 0;
    std::set<const Clu *> pv, qv;
    const Clu &ccl = *cl;
    htool::preorder_tree_traversal(ccl, [&](const Clu &q) {
        pre++;
        for (auto &k : q.get_children()) cx.check(!pv.count(k.get()), "preorder-child-first");
        cx.check(pv.insert(&q).second, "preorder-twice");
    });
    htool::postorder_tree_traversal(ccl, [&](const Clu &q) {
        post++;
        for (auto &k : q.get_children()) cx.check(qv.count(k.get()) == 1, "postorder-parent-first");
        cx.check(qv.insert(&q).second, "postorder-twice");
    });
    cx.check(pre == nodes && post == nodes, "traversal-count");
    // balanced sizes with regular splitting: all but the last child have equal sizes
    cx.count("nodes", nodes);
    cx.count("leaves", leaves);
    cx.count("partition_clusters", parts.size());
    if (nodes > 1) cx.sig(S() << gk << dim << c.nchild << c.size_part << c.given << c.minsize << c.dir << c.split << maxd << mind << (n < 9) << c.radii << c.weights);
}
} // namespace vf
