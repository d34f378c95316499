// C05: coverage of the index set by the leaf blocks (coverage counting monitor).
#include "hmx.hpp"
using namespace vf;
namespace vf {
// more entries than an int can count: areas instead of single entries, and overlap along each row of leaves
static void huge(Ctx &cx) {
    HugeLine k(cx.rng);
    cx.desc(k.desc());
    long area = 0, mirrored = 0, leaves = 0;
    std::vector<std::array<int, 4>> bl;
    walk_nodes(*k.h, [&](const HM &b) {
        const Clu &t = b.get_target_cluster(), &s = b.get_source_cluster();
        if (b.get_children().empty()) {
            leaves++;
            bool hd = b.get_dense_data() != nullptr, hl = b.get_low_rank_data() != nullptr;
            cx.check(hd != hl && b.is_dense() == hd && b.is_low_rank() == hl, "leaf-storage-exactly-one");
            if (hd) cx.check(b.get_dense_data()->nb_rows() == t.get_size() && b.get_dense_data()->nb_cols() == s.get_size(), "leaf-dense-dims");
            area += (long)t.get_size() * s.get_size();
            bl.push_back({t.get_offset(), t.get_size(), s.get_offset(), s.get_size()});
            if (k.sym != 'N' && t.get_offset() != s.get_offset()) {
                area += (long)t.get_size() * s.get_size();
                bl.push_back({s.get_offset(), s.get_size(), t.get_offset(), t.get_size()});
                mirrored++;
            }
            if (k.sym != 'N') cx.check(k.uplo == 'L' ? t.get_offset() + t.get_size() > s.get_offset() : s.get_offset() + s.get_size() > t.get_offset(), "stored-outside-triangle");
        } else {
            for (auto &c : b.get_children()) cx.check(htool::left_cluster_contains_right_cluster(t, c->get_target_cluster()) && htool::left_cluster_contains_right_cluster(s, c->get_source_cluster()), "child-outside-parent");
        }
    });
    cx.check(area == (long)k.nt * k.ns, "area", S() << area << " of " << (long)k.nt * k.ns);
    // sampled rows: the leaves containing the row cover each column once
    for (int q = 0; q < 30; q++) {
        int row = q == 0 ? 0 : q == 1 ? k.nt - 1 : cx.rng.i(0, k.nt - 1);
        std::vector<std::pair<int, int>> seg;
        for (auto &b : bl)
            if (row >= b[0] && row < b[0] + b[1]) seg.emplace_back(b[2], b[3]);
        std::sort(seg.begin(), seg.end());
        int at = 0;
        bool ok = true;
        for (auto &s : seg) {
            ok = ok && s.first == at;
            at = s.first + s.second;
        }
        cx.check(ok && at == k.ns, "row-not-covered-once", S() << "row " << row);
    }
    auto ls = htool::get_leaves_from<T, C>(*k.h);
    cx.check((long)ls.first.size() == leaves && (long)ls.second.size() == mirrored, "leaf-list-count");
    cx.count("huge_hmatrices");
    cx.count("leaves", leaves);
    cx.count("mirrored_leaves", mirrored);
    cx.sig(S() << "huge" << k.sym << k.uplo << (k.cs != nullptr));
}
void vf_case(Ctx &cx) {
    if (cx.tail(1000, 17)) return huge(cx);
    Opts o;
    o.nmax = cx.thorough ? 400 : 180;
    if (cx.tail(97, 13)) o.nmin = 300, o.nmax = 700; // a few larger problems among the cases
    auto p = random_prob(cx.rng, o);
    cx.desc(p->d);
    HM h = p->build();
    cx.count("hmatrices");
    cx.check(h.nb_rows() == p->nrows() && h.nb_cols() == p->ncols(), "root-dimensions", S() << h.nb_rows() << "x" << h.nb_cols());
    cx.check(h.get_target_cluster().get_offset() == p->rows_lo() && h.get_source_cluster().get_offset() == p->cols_lo(), "root-offsets");
    cx.check(h.is_root() && h.get_depth() == 0, "root-flags");
    bool clipped = p->sym != 'N' || p->tpart >= 0;
    long blocks = 0, leaves = 0, lr = 0;
    walk_nodes(h, [&](const HM &b) {
        blocks++;
        const Clu &t = b.get_target_cluster(), &s = b.get_source_cluster();
        bool leaf    = b.get_children().empty();
        bool hd = b.get_dense_data() != nullptr, hl = b.get_low_rank_data() != nullptr;
        if (leaf) {
            leaves++;
            cx.check(hd != hl, "leaf-storage-exactly-one", S() << hd << hl);
            cx.check(b.is_dense() == hd && b.is_low_rank() == hl && !b.is_hierarchical(), "leaf-storage-type");
            if (hd) cx.check(b.get_dense_data()->nb_rows() == t.get_size() && b.get_dense_data()->nb_cols() == s.get_size(), "leaf-dense-dims");
            if (hl) {
                lr++;
                auto &L = *b.get_low_rank_data();
                cx.check(L.nb_rows() == t.get_size() && L.nb_cols() == s.get_size() && L.get_U().nb_rows() == t.get_size() && L.get_V().nb_cols() == s.get_size() && L.get_U().nb_cols() == L.get_V().nb_rows() && L.rank_of() == L.get_U().nb_cols() && b.get_rank() == L.rank_of(), "leaf-lowrank-dims", S() << L.get_U().nb_rows() << "x" << L.get_U().nb_cols() << "*" << L.get_V().nb_rows() << "x" << L.get_V().nb_cols() << " block " << t.get_size() << "x" << s.get_size());
            }
            if (p->sym != 'N') {
                int lo = p->diag_lo, hi = p->diag_hi;
                bool in = t.get_offset() >= lo && t.get_offset() + t.get_size() <= hi && s.get_offset() >= lo && s.get_offset() + s.get_size() <= hi;
                if (in) {
                    if (p->uplo == 'L') cx.check(t.get_offset() + t.get_size() > s.get_offset(), "stored-outside-triangle");
                    else cx.check(s.get_offset() + s.get_size() > t.get_offset(), "stored-outside-triangle");
                }
            }
        } else {
            cx.check(!hd && !hl && b.is_hierarchical(), "node-with-data");
            // children partition the parent's stored part
            std::vector<char> cov((size_t)t.get_size() * s.get_size(), 0);
            for (auto &c : b.get_children()) {
                const Clu &ct = c->get_target_cluster(), &cs = c->get_source_cluster();
                cx.check(c->get_depth() == b.get_depth() + 1 || (p->tpart >= 0), "child-depth");
                if (!cx.check(htool::left_cluster_contains_right_cluster(t, ct) && htool::left_cluster_contains_right_cluster(s, cs), "child-outside-parent")) continue;
                for (int j = 0; j < cs.get_size(); j++)
                    for (int i = 0; i < ct.get_size(); i++) cx.check(++cov[(size_t)(j + cs.get_offset() - s.get_offset()) * t.get_size() + i + ct.get_offset() - t.get_offset()] == 1, "children-overlap");
            }
            if (!clipped) cx.check(std::count(cov.begin(), cov.end(), 0) == 0, "children-gap");
        }
    });
    Rep rep = represented(h, *p);
    cx.check(rep.holes == 0, "entry-not-covered", S() << rep.holes << " of " << (long)rep.M.m * rep.M.n);
    cx.check(rep.multi == 0, "entry-covered-twice", S() << rep.multi);
    // htool's own leaf lists
    auto ls = htool::get_leaves_from<T, C>(h);
    cx.check((long)ls.first.size() == leaves, "leaf-list-count");
    cx.check((int)ls.second.size() == rep.mirrored, "mirrored-leaf-list-count", S() << ls.second.size() << " expected " << rep.mirrored);
    // entries agree with the kernel (wrong placement would show): loose, entry-exact for dense leaves
    Dense ex = p->exact();
    if (p->reqrank < 0 && p->lrk == 3) { // SVD: the only compressor with an unconditional error bound
        double e = frodiff(rep.M, ex) / std::max(fro(ex), 1e-300);
        cx.le(e, std::max(100 * p->epsilon, 1e5 * eps()), "represented-entries", "relative Frobenius");
    }
    cx.count("blocks", blocks);
    cx.count("leaves", leaves);
    cx.count("lowrank_leaves", lr);
    cx.count("mirrored_leaves", rep.mirrored);
    cx.count("entries_covered", (long)rep.M.m * rep.M.n);
    if (leaves > 1) cx.sig(repclass(rep, *p) + strc(rep.nleaf));
}
} // namespace vf
