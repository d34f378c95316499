// C04: a saved cluster tree reloads as the same tree (field-by-field monitor, several save/load cycles, use of the copy).
#include "hmx.hpp"
using namespace vf;
namespace vf {
struct StructAdm : htool::VirtualAdmissibilityCondition<C> { // decision independent of printed radii
    bool ComputeAdmissibility(const Clu &t, const Clu &s, double) const override {
        return std::abs(t.get_offset() - s.get_offset()) >= t.get_size() + s.get_size() || (t.get_depth() > 1 && (t.get_offset() * 7 + s.get_offset() * 3) % 5 == 0);
    }
};
static void compare(Ctx &cx, const Clu &a, const Clu &b, const char *w, double mag) {
    cx.check(a.get_permutation() == b.get_permutation(), S() << w << ":permutation");
    cx.check(a.get_maximal_depth() == b.get_maximal_depth() && a.get_minimal_depth() == b.get_minimal_depth(), S() << w << ":depth-metadata", S() << b.get_minimal_depth() << "/" << b.get_maximal_depth());
    cx.check(a.get_minclustersize() == b.get_minclustersize(), S() << w << ":minclustersize");
    cx.check(a.is_permutation_local() == b.is_permutation_local(), S() << w << ":local-flag");
    auto &pa = a.get_clusters_on_partition(), &pb = b.get_clusters_on_partition();
    if (cx.check(pa.size() == pb.size(), S() << w << ":partition-count", S() << pa.size() << " vs " << pb.size()))
        for (size_t i = 0; i < pa.size(); i++)
            cx.check(pb[i] && pa[i]->get_offset() == pb[i]->get_offset() && pa[i]->get_size() == pb[i]->get_size() && pa[i]->get_depth() == pb[i]->get_depth() && pa[i]->get_counter() == pb[i]->get_counter(), S() << w << ":partition-cluster");
    std::vector<std::pair<const Clu *, const Clu *>> st{{&a, &b}};
    long nodes = 0;
    while (!st.empty()) {
        auto q = st.back();
        st.pop_back();
        nodes++;
        const Clu &x = *q.first, &y = *q.second;
        cx.check(x.get_offset() == y.get_offset(), S() << w << ":offset");
        cx.check(x.get_size() == y.get_size(), S() << w << ":size");
        cx.check(x.get_rank() == y.get_rank(), S() << w << ":rank", S() << x.get_rank() << " vs " << y.get_rank());
        cx.check(x.get_depth() == y.get_depth(), S() << w << ":depth");
        cx.check(x.get_counter() == y.get_counter(), S() << w << ":counter");
        cx.check(&y.get_permutation() == &b.get_permutation(), S() << w << ":shared-permutation");
        cx.le(std::abs((double)x.get_radius() - (double)y.get_radius()), 1e-5 * std::abs((double)x.get_radius()) + 1e-30, S() << w << ":radius");
        if (cx.check(x.get_center().size() == y.get_center().size(), S() << w << ":dimension"))
            for (size_t d = 0; d < x.get_center().size(); d++) cx.le(std::abs((double)x.get_center()[d] - (double)y.get_center()[d]), 1e-5 * std::abs((double)x.get_center()[d]) + 1e-30, S() << w << ":center");
        if (cx.check(x.get_children().size() == y.get_children().size(), S() << w << ":children"))
            for (size_t i = 0; i < x.get_children().size(); i++) st.push_back({x.get_children()[i].get(), y.get_children()[i].get()});
    }
    cx.count("nodes_compared", nodes);
    (void)mag;
}
void vf_case(Ctx &cx) {
    Rng &r  = cx.rng;
    auto lg = logrec();
    lg->clear();
    int dim = r.i(2, 3);
    int n   = r.p(0.2) ? r.i(1, 8) : r.i(9, cx.thorough ? 1500 : 300);
    bool huge = cx.tail(750, 77);
    if (huge) n = r.i(66000, 90000);
    int gk  = r.i(0, NGEOM);
    auto x  = geometry<C>(r, gk, n, dim);
    if (r.p(0.4)) {
        double sc = r.pick({1e-6, 1e3, 1e7, -1.});
        for (auto &v : x) v = C(v * sc);
    }
    CluCfg c = random_clucfg(r, n, dim, r.pick({1, 4, 9, 17}));
    c.radii  = r.p(0.3);
    if (huge) cx.count("huge_trees");
    for (int i = 0; i < n; i++) c.rad.push_back(C(r.u(0, 0.2)));
    cx.desc(S() << "n=" << n << " dim=" << dim << " geom=" << GEOM[gk] << " " << cdesc(c));
    std::unique_ptr<Clu> cl(make_cluster(c, n, dim, x));
    if (r.p(0.5)) cl->set_minclustersize(r.i(1, 50));
    std::unique_ptr<Clu> prev;
    const Clu *cur = cl.get();
    int cycles     = r.i(1, 3);
    std::string first;
    for (int k = 0; k < cycles; k++) {
        std::string f = cx.scratch + "/t" + file_name(cx.k, k % 2);
        htool::save_cluster_tree(*cur, f);
        std::unique_ptr<Clu> nx(new Clu(htool::read_cluster_tree<C>(f + "_cluster_tree_properties.csv", f + "_cluster_tree.csv")));
        compare(cx, *cl, *nx, k ? "recycled" : "reloaded", 1);
        // the second generation must be textually identical to the first one
        std::ifstream i1(f + "_cluster_tree.csv");
        std::string txt((std::istreambuf_iterator<char>(i1)), std::istreambuf_iterator<char>());
        if (k == 0) first = txt;
        prev = std::move(nx);
        cur  = prev.get();
        cx.count("cycles");
    }
    // the reloaded tree works in place of the original
    if (n <= 250) {
        Kernel ker;
        double dia = diameter(x, dim, x);
        ker.dim = dim; ker.kind = r.i(0, 3); ker.d0 = 0.1 * dia; ker.L = dia; ker.xt = &x; ker.xs = &x; ker.sym = r.p(0.5) ? 'S' : 'N';
        char sym = ker.sym == 'S' && r.p(0.5) ? 'S' : 'N', uplo = sym == 'N' ? 'N' : r.pick({'L', 'U'});
        auto adm = std::make_shared<StructAdm>();
        int lrk = r.i(0, 3);
        int tp = r.p(0.3) ? r.i(0, c.size_part - 1) : -1;
        auto mk  = [&](const Clu &t) {
            htool::HMatrixTreeBuilder<T, C> b(t, t, R(1e-3), C(2), sym, uplo, -1, tp, sym == 'N' ? -1 : tp);
            b.set_admissibility_condition(adm);
            b.set_low_rank_generator(lrgen(lrk));
            KGen g(ker);
            return b.build(g);
        };
        HM h1 = mk(*cl), h2 = mk(*cur);
        cx.check(digest(h1) == digest(h2), "hmatrix-on-reloaded-tree-differs");
        std::vector<T> u = rvec(r, n), a(n), b(n);
        htool::global_to_root_cluster(*cl, u.data(), a.data());
        htool::global_to_root_cluster(*cur, u.data(), b.data());
        cx.check(a == b, "numbering-on-reloaded-tree-differs");
        cx.count("assemblies");
    }
    cx.check(lg->errors == 0, "error-logged-on-valid-save-load", lg->last_error());
    if (cl->get_maximal_depth() > 0) cx.sig(S() << dim << c.nchild << c.size_part << c.given << c.minsize << c.split << cl->get_maximal_depth() << cycles);
}
} // namespace vf
