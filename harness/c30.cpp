// C30: build configurations (OpenMP, none, Python interface) against each other on the same problems.
#define V30_RUN v30_omp
#include "c30_run.hpp"
namespace vf {
static void same(Ctx &cx, const V30 &a, const V30 &b, const std::string &w, bool bitwise) {
    cx.check(a.desc == b.desc && a.tree == b.tree, w + ":cluster-tree", a.desc + " / " + b.desc);
    cx.check(a.assembled == b.assembled, w + ":assembled-matrix");
    std::map<std::string, std::string> x = a.info, y = b.info;
    for (auto *i : {&x, &y})
        for (auto it = i->begin(); it != i->end();)
            if (it->first == "Number_of_threads" || it->first.find("time") != std::string::npos) it = i->erase(it);
            else ++it;
    std::string diff;
    for (auto &i : x)
        if (y[i.first] != i.second) diff += i.first + "=" + i.second + "/" + y[i.first] + " ";
    cx.check(x == y, w + ":information", diff);
    if (!cx.check(a.res.size() == b.res.size(), w + ":number-of-results")) return;
    for (size_t k = 0; k < a.res.size(); k++) {
        auto &p = a.res[k];
        auto &q = b.res[k];
        cx.count("results_compared");
        if (bitwise || p.mag.empty()) { // one thread everywhere: the same operations in the same order
            if (bitwise || p.what == "dense") cx.check(p.what == q.what && p.bytes == q.bytes, w + ":" + p.what.substr(0, 7), p.what);
        } else {
            double worst = 0;
            for (size_t i = 0; i < p.mag.size(); i++)
                for (int c = 0; c < 2; c++) worst = std::max(worst, (double)(std::abs(p.val[2 * i + c] - q.val[2 * i + c]) / (p.mag[i] + 1e-290L)));
            cx.le(worst / std::max(p.tol, q.tol), 1, w + ":product-beyond-rounding");
        }
    }
    if (bitwise) cx.check(a.after == b.after, w + ":matrix-after-operations");
}
void vf_case(Ctx &cx) {
    Rng &r        = cx.rng;
    uint64_t seed = r.next();
    auto log      = logrec();
    V30 ref       = v30_omp(seed, 1, cx.thorough);
    cx.desc(ref.desc);
    cx.progress();
    V30 s = v30_seq(seed, 1, cx.thorough);
    same(cx, ref, s, "without-openmp", true);
    cx.check(s.foreign == 0 && s.concurrent == 0, "without-openmp:user-code-on-another-thread");
    cx.count("without_openmp");
    V30 p1 = v30_py(seed, 1, cx.thorough);
    same(cx, ref, p1, "python-interface", true);
    int thr = r.i(2, 6);
    V30 pt  = v30_py(seed, thr, cx.thorough);
    same(cx, ref, pt, "python-interface-threads", false);
    for (auto *q : {&p1, &pt}) {
        cx.check(q->foreign == 0, "python-interface:user-code-on-another-thread", S() << q->foreign << " of " << q->calls << " calls");
        cx.check(q->concurrent == 0, "python-interface:concurrent-user-code", S() << q->concurrent << " of " << q->calls << " calls");
        cx.count("user_calls_observed", q->calls);
    }
    cx.count("python_interface", 2);
    V30 ot = v30_omp(seed, thr, cx.thorough);
    same(cx, ref, ot, "openmp-threads", false);
    if (ot.foreign) cx.count("openmp_user_code_on_several_threads");
    cx.count("leaves", ref.leaves);
    if (ref.lowrank) cx.count("with_lowrank");
    if (ref.res.size() > 6) cx.count("factorised");
    cx.evals += 4;
    if (ref.leaves > 1) cx.sig(S() << ref.desc.substr(0, 80) << thr);
}
} // namespace vf
