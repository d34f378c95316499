// C06: low-rank blocks only where admissible and within the requested depths (decision spy + structural monitor).
#include "hmx.hpp"
using namespace vf;
namespace vf {
typedef std::array<int, 6> BK;
static BK bk(const Clu &t, const Clu &s) { return BK{{t.get_offset(), t.get_size(), (int)t.get_depth(), s.get_offset(), s.get_size(), (int)s.get_depth()}}; }
struct AdmSpy : htool::VirtualAdmissibilityCondition<C> {
    std::shared_ptr<htool::VirtualAdmissibilityCondition<C>> in; // null: structural hash
    uint64_t salt = 0;
    int thr       = 50;
    mutable std::map<BK, bool> dec;
    mutable std::set<double> etas;
    mutable long calls = 0;
    bool decide(const Clu &t, const Clu &s, double eta) const {
        if (in) return in->ComputeAdmissibility(t, s, eta);
        BK b = bk(t, s);
        return (int)(fnvb(b.data(), sizeof b, salt) % 100) < thr;
    }
    bool ComputeAdmissibility(const Clu &t, const Clu &s, double eta) const override {
        bool d        = decide(t, s, eta);
        dec[bk(t, s)] = d;
        etas.insert(eta);
        calls++;
        return d;
    }
};
struct LrSpy : htool::VirtualLowRankGenerator<T, C> {
    std::shared_ptr<htool::VirtualLowRankGenerator<T, C>> in; // null: rank one or refusal by hash
    uint64_t salt = 0;
    mutable std::mutex m;
    mutable std::map<BK, int> res; // 1 accepted, 0 refused
    mutable long dup = 0;
    void copy_low_rank_approximation(const htool::VirtualInternalGenerator<T> &A, const Clu &t, const Clu &s, R eps, int &rank, Mat &U, Mat &V) const override {
        if (in) in->copy_low_rank_approximation(A, t, s, eps, rank, U, V);
        else {
            BK b = bk(t, s);
            if (fnvb(b.data(), sizeof b, salt) % 3) {
                U.resize(t.get_size(), 1);
                V.resize(1, s.get_size());
                for (int i = 0; i < t.get_size(); i++) U(i, 0) = T(1);
                for (int i = 0; i < s.get_size(); i++) V(0, i) = T(1);
                rank = 1;
            } else rank = -1;
        }
        bool ok = U.nb_rows() == t.get_size() && V.nb_cols() == s.get_size();
        std::lock_guard<std::mutex> g(m);
        if (!res.insert({bk(t, s), ok}).second) dup++;
    }
};
void vf_case(Ctx &cx) {
    Rng &r = cx.rng;
    Opts o;
    o.nmax = cx.thorough ? 400 : 220;
    if (cx.tail(197, 13)) o.nmin = 400, o.nmax = 900; // a few larger problems among the cases
    auto p = random_prob(r, o);
    if (r.p(0.5)) p->eta = std::pow(10, r.u(-3, 3));
    int am   = r.i(0, 2); // 0 the default object of the builder, 1 default through the spy, 2 custom
    auto adm = std::make_shared<AdmSpy>();
    adm->salt = r.next();
    adm->thr  = r.pick({10, 40, 70, 100});
    if (am < 2) adm->in = std::make_shared<htool::RjasanowSteinbach<C>>();
    auto lr  = std::make_shared<LrSpy>();
    lr->salt = r.next();
    if (r.p(0.5)) lr->in = lrgen(p->lrk);
    if (am) p->adm = adm;
    cx.desc(S() << p->d << " adm=" << am << " lrspy=" << (lr->in ? 0 : 1));
    auto b = p->builder();
    b->set_low_rank_generator(lr);
    KGen g(p->ker);
#ifdef _OPENMP
    omp_set_num_threads(p->threads);
#endif
    HM h = b->build(g);
    cx.count("hmatrices");
    if (am && adm->calls) {
        cx.check(adm->etas.size() == 1 && std::abs(*adm->etas.begin() - (double)(C)p->eta) <= 1e-12 * p->eta, "configured-eta-not-passed");
        cx.count("decisions", adm->calls);
    }
    cx.check(lr->dup == 0, "block-compressed-twice");
    long fp = 0, nlr = 0, nad = 0, marg = 0;
    bool reset = p->tpart >= 0 && p->tc->get_rank() < 0;
    walk_nodes(h, [&](const HM &q) {
        if (&q == &h && reset) return; // relabelled root of a partition-restricted matrix
        const Clu &t = q.get_target_cluster(), &s = q.get_source_cluster();
        bool A, margin = false;
        // independent evaluation of the default condition
        double dist = 0;
        for (size_t d = 0; d < t.get_center().size(); d++) dist += std::pow((double)t.get_center()[d] - (double)s.get_center()[d], 2);
        dist       = std::sqrt(dist);
        double lhs = 2 * std::min((double)t.get_radius(), (double)s.get_radius()), gap = dist - (double)t.get_radius() - (double)s.get_radius(), eta = (double)(C)p->eta, rhs = eta * std::max(gap, 0.);
        double mg = 64 * eps() * (lhs + eta * (dist + t.get_radius() + s.get_radius() + std::abs((double)t.get_center()[0]) + std::abs((double)t.get_center()[1]))) + 1e-300;
        bool want = lhs < rhs;
        if (std::abs(lhs - rhs) <= mg && !(lhs > mg && gap < -mg)) margin = true;
        if (am) {
            auto it = adm->dec.find(bk(t, s)); // the builder need not ask about a block it may not compress anyway
            if (q.is_low_rank()) cx.check(it != adm->dec.end(), "lowrank-without-admissibility-decision");
            A = it != adm->dec.end() ? it->second : adm->decide(t, s, (double)(C)p->eta);
            if (am == 1 && !margin) cx.check(A == want, "default-admissibility-formula", S() << "lhs " << lhs << " rhs " << rhs);
        } else {
            A = want;
        }
        bool rest = (p->tpart < 0 || t.get_rank() == p->tpart) && (int)t.get_depth() >= p->mint && (int)s.get_depth() >= p->mins && t.get_rank() >= 0 && (!p->consistent || s.get_rank() >= 0);
        bool leaf = q.get_children().empty();
        if (margin && am == 0) {
            marg++;
            if (leaf && rest && q.is_dense() && p->reqrank != 0 && lr->res.count(bk(t, s))) fp++;
            return;
        }
        bool should = A && rest;
        if (q.is_low_rank()) {
            nlr++;
            cx.check(A, "lowrank-not-admissible", S() << "lhs " << lhs << " rhs " << rhs);
            cx.check((int)t.get_depth() >= p->mint, "lowrank-above-minimal-target-depth", S() << t.get_depth());
            cx.check((int)s.get_depth() >= p->mins, "lowrank-above-minimal-source-depth", S() << s.get_depth());
            cx.check(t.get_rank() >= 0 && (!p->consistent || s.get_rank() >= 0), "lowrank-above-partition-level");
            cx.check(p->tpart < 0 || t.get_rank() == p->tpart, "lowrank-outside-partition");
        }
        if (!leaf) cx.check(!should, "admissible-block-subdivided");
        if (leaf && !should) cx.check(t.is_leaf() && s.is_leaf(), "nonadmissible-leaf-not-subdivided", S() << t.get_size() << "x" << s.get_size());
        if (leaf && should) {
            nad++;
            if (p->reqrank == 0) cx.check(q.is_low_rank(), "rank-zero-block-stored-dense");
            else {
                auto it = lr->res.find(bk(t, s));
                if (cx.check(it != lr->res.end(), "admissible-block-not-compressed")) {
                    cx.check(q.is_low_rank() == (it->second == 1), "storage-disagrees-with-compressor", S() << q.is_low_rank() << it->second);
                }
            }
            if (q.is_dense()) fp++;
        } else if (leaf) cx.check(!lr->res.count(bk(t, s)), "inadmissible-block-compressed");
    });
    auto info = htool::get_tree_parameters(h);
    auto &inf = h.get_hmatrix_tree_data()->m_information;
    auto it   = inf.find("Number_of_false_positive");
    if (cx.check(it != inf.end(), "false-positive-count-missing")) cx.check(it->second == strc(fp), "false-positive-count", S() << "reported " << it->second << " found " << fp);
    cx.count("lowrank_blocks", nlr);
    cx.count("admissible_blocks", nad);
    cx.count("false_positives", fp);
    cx.count("borderline_skipped", marg);
    if (nlr || nad) cx.sig(S() << am << p->mode << p->sym << p->uplo << p->consistent << p->mint << p->mins << (fp > 0) << (nlr > 10) << p->spt << p->reqrank);
}
} // namespace vf
