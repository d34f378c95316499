// C02: centre = weighted mean, radius = max distance + own radius, children ordered along the split direction.
#include "hmx.hpp"
using namespace vf;
namespace vf {
struct DirSpy : htool::VirtualDirectionComputationStrategy<C> { // monitors what the strategies receive and return
    std::shared_ptr<htool::VirtualDirectionComputationStrategy<C>> in;
    std::map<std::pair<int, int>, std::vector<std::vector<C>>> dirs;
    std::vector<C> compute_direction(const Clu *c, const std::vector<int> &p, int d, const C *const x, const C *const r, const C *const w) override {
        auto v = in->compute_direction(c, p, d, x, r, w);
        dirs[{c->get_offset(), c->get_size()}].push_back(v);
        return v;
    }
};
void vf_case(Ctx &cx) {
    Rng &r  = cx.rng;
    auto lg = logrec();
    lg->clear();
    int dim = r.i(2, 3);
    int n   = r.p(0.2) ? r.i(1, 8) : r.i(9, cx.thorough ? 2500 : 500);
    int gk  = r.i(0, NGEOM);
    auto x  = geometry<C>(r, gk, n, dim);
    // random rigid shift / scale so that signs and magnitudes vary
    double sc = r.pick({1., 1., 1e-3, 50.});
    double sh[3] = {r.u(-3, 3), r.u(-3, 3), r.u(-3, 3)};
    bool moved = r.p(0.5);
    if (moved)
        for (size_t i = 0; i < x.size(); i++) x[i] = C(sc * (x[i] + sh[i % dim]));
    CluCfg c  = random_clucfg(r, n, dim, r.pick({1, 4, 9}));
    c.radii   = r.p(0.5);
    c.weights = r.p(0.5);
    for (int i = 0; i < n; i++) {
        c.rad.push_back(C(r.p(0.2) ? 0. : r.u(0, 0.2)));
        c.wei.push_back(C(r.u(0.05, 3)));
    }
    cx.desc(S() << "n=" << n << " dim=" << dim << " geom=" << GEOM[gk] << " scale=" << sc << " moved=" << moved << " " << cdesc(c));
    htool::ClusterTreeBuilder<C> b;
    configure(b, c);
    auto spy = std::make_shared<DirSpy>();
    if (c.dir) spy->in = std::make_shared<htool::ComputeBoundingBox<C>>();
    else spy->in = std::make_shared<htool::ComputeLargestExtent<C>>();
    b.set_direction_computation_strategy(spy);
    std::unique_ptr<Clu> cl(new Clu(b.create_cluster_tree(n, dim, x.data(), c.radii ? c.rad.data() : nullptr, c.weights ? c.wei.data() : nullptr, c.nchild, c.size_part, c.given ? c.part.data() : nullptr)));
    cx.count("trees");
    const auto &perm = cl->get_permutation();
    double e = eps(), mag = 0;
    for (auto v : x) mag = std::max(mag, std::abs((double)v));
    long nodes = 0, pts = 0, splits = 0;
    std::vector<const Clu *> st{cl.get()};
    while (!st.empty()) {
        const Clu *q = st.back();
        st.pop_back();
        nodes++;
        int o = q->get_offset(), sz = q->get_size();
        std::vector<long double> m(dim, 0);
        long double tw = 0;
        for (int i = o; i < o + sz; i++) {
            long double w = c.weights ? c.wei[perm[i]] : 1.0L;
            tw += w;
            for (int d = 0; d < dim; d++) m[d] += w * x[(size_t)perm[i] * dim + d];
        }
        if (!cx.check((int)q->get_center().size() == dim, "center-dimension")) return;
        double tol = 8 * (sz + 4) * e * (mag + 1e-30);
        for (int d = 0; d < dim; d++) cx.le(std::abs((double)(m[d] / tw) - (double)q->get_center()[d]), tol, "center-is-weighted-mean");
        double R = 0;
        for (int i = o; i < o + sz; i++) {
            double s = 0;
            for (int d = 0; d < dim; d++) {
                double t = (double)x[(size_t)perm[i] * dim + d] - (double)q->get_center()[d];
                s += t * t;
            }
            R = std::max(R, std::sqrt(s) + (c.radii ? (double)c.rad[perm[i]] : 0.0));
            pts++;
        }
        cx.le(std::abs(R - (double)q->get_radius()), 16 * e * (R + mag), "radius-is-max-distance-plus-radius", S() << "node size " << sz << " radius " << q->get_radius() << " expected " << R);
        const auto &ch = q->get_children();
        bool userlevel = c.given && q->is_root();
        if (!ch.empty() && !userlevel) {
            splits++;
            auto it = spy->dirs.find({o, sz});
            if (cx.check(it != spy->dirs.end(), "split-without-direction")) {
                const std::vector<C> &dv = it->second.back();
                double nd = 0;
                for (auto v : dv) nd += (double)v * v;
                cx.check(std::isfinite(nd), "direction-not-finite");
                // children ordered along the direction
                double prevmax = -1e300;
                for (auto &k : ch) {
                    double lo = 1e300, hi = -1e300;
                    for (int i = k->get_offset(); i < k->get_offset() + k->get_size(); i++) {
                        double s = 0;
                        for (int d = 0; d < dim; d++) s += (double)dv[d] * (double)x[(size_t)perm[i] * dim + d];
                        lo = std::min(lo, s);
                        hi = std::max(hi, s);
                    }
                    cx.check(lo >= prevmax - 32 * e * (mag * std::sqrt(nd) * dim + 1e-300), "children-not-ordered-along-direction", S() << lo << " < " << prevmax);
                    prevmax = std::max(prevmax, hi);
                }
                // the direction is that of the largest extent (bounding box) / largest variance (principal axis)
                double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
                std::vector<long double> cov(dim * dim, 0);
                for (int i = o; i < o + sz; i++)
                    for (int d = 0; d < dim; d++) {
                        double v = x[(size_t)perm[i] * dim + d];
                        lo[d] = std::min(lo[d], v);
                        hi[d] = std::max(hi[d], v);
                        for (int f = 0; f < dim; f++) cov[d * dim + f] += (long double)(c.weights ? (double)c.wei[perm[i]] : 1.0) * ((long double)v - q->get_center()[d]) * ((long double)x[(size_t)perm[i] * dim + f] - q->get_center()[f]);
                    }
                if (c.dir) {
                    double best = 0, got = 0;
                    int axis = -1;
                    for (int d = 0; d < dim; d++) {
                        best = std::max(best, hi[d] - lo[d]);
                        if (dv[d] != C(0)) axis = d;
                    }
                    if (axis >= 0) got = hi[axis] - lo[axis];
                    cx.check(axis >= 0 && got >= best * (1 - 8 * e) - 8 * e * mag, "direction-not-largest-extent", S() << "extent " << got << " of best " << best);
                } else if (nd > 0.5 && nd < 2) {
                    // Rayleigh quotient close to the largest eigenvalue (power iteration reference)
                    std::vector<long double> v(dim), w(dim);
                    for (int d = 0; d < dim; d++) v[d] = 1 + 0.37L * d;
                    long double lam = 0, tr = 0;
                    for (int d = 0; d < dim; d++) tr += cov[d * dim + d];
                    for (int it2 = 0; it2 < 400; it2++) {
                        long double s = 0;
                        for (int d = 0; d < dim; d++) {
                            w[d] = 0;
                            for (int f = 0; f < dim; f++) w[d] += cov[d * dim + f] * v[f];
                            s += w[d] * w[d];
                        }
                        s = std::sqrt(s);
                        if (s <= 0) break;
                        for (int d = 0; d < dim; d++) v[d] = w[d] / s;
                        lam = s;
                    }
                    // second eigenvalue by deflation: with a (nearly) double top eigenvalue no direction is distinguished
                    std::vector<long double> v2(dim);
                    long double lam2 = 0;
                    for (int d = 0; d < dim; d++) v2[d] = 1 - 0.61L * d;
                    for (int it2 = 0; it2 < 400; it2++) {
                        long double s = 0, pr = 0;
                        for (int d = 0; d < dim; d++) pr += v[d] * v2[d];
                        for (int d = 0; d < dim; d++) v2[d] -= pr * v[d];
                        for (int d = 0; d < dim; d++) {
                            w[d] = 0;
                            for (int f = 0; f < dim; f++) w[d] += cov[d * dim + f] * v2[f];
                            s += w[d] * w[d];
                        }
                        s = std::sqrt(s);
                        if (s <= 0) { lam2 = 0; break; }
                        for (int d = 0; d < dim; d++) v2[d] = w[d] / s;
                        lam2 = s;
                    }
                    long double rq = 0;
                    for (int d = 0; d < dim; d++)
                        for (int f = 0; f < dim; f++) rq += dv[d] * cov[d * dim + f] * dv[f];
                    rq /= nd;
                    // centred data magnitude; cancellation when the cloud is far from the origin
                    double noise = (double)sz * e * mag * std::sqrt((double)(tr / std::max<long double>(1, tw))) * 50;
                    double loss  = (double)((lam - rq) / std::max(lam, (long double)1e-300));
                    if (noise < 1e-3 * (double)lam && lam2 < 0.9L * lam && (double)lam > (sizeof(C) == 4 ? 1.0 : 1e-4)) {
                        cx.maxi("principal-direction-loss", loss);
                        cx.count("principal_directions");
                        cx.check(loss <= 0.03, "direction-not-principal", S() << "variance along direction " << (double)rq << " largest " << (double)lam << " size " << sz);
                    }
                }
            }
        }
        for (auto &k : ch) st.push_back(k.get());
    }
    cx.count("nodes", nodes);
    cx.count("points_checked", pts);
    cx.count("splits", splits);
    if (nodes > 1) cx.sig(S() << gk << dim << c.nchild << c.radii << c.weights << c.dir << c.split << c.given << moved << sc << n % 16);
}
} // namespace vf
