// C21: byte files and text exports of dense matrices and vectors, over histories of written and overwritten objects.
#include "common.hpp"
#include <htool/basic_types/vector.hpp>
#include <htool/matrix/linalg/factorization.hpp>
#include <htool/matrix/matrix.hpp>
#include <htool/misc/user.hpp>
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace vf;
namespace vf {
typedef htool::Matrix<T> Mat;
struct Quiet { // swallow and record std::cout
    std::ostringstream o;
    std::streambuf *b;
    Quiet() { b = std::cout.rdbuf(o.rdbuf()); }
    ~Quiet() { std::cout.rdbuf(b); }
};
struct Limit { // no file may grow beyond n bytes
    struct rlimit old;
    void (*sig)(int);
    Limit(size_t n) {
        sig = signal(SIGXFSZ, SIG_IGN);
        getrlimit(RLIMIT_FSIZE, &old);
        struct rlimit l = old;
        l.rlim_cur      = n;
        setrlimit(RLIMIT_FSIZE, &l);
    }
    ~Limit() {
        setrlimit(RLIMIT_FSIZE, &old);
        signal(SIGXFSZ, sig);
    }
};
static size_t fsize(const std::string &f) {
    struct stat st;
    return stat(f.c_str(), &st) ? 0 : (size_t)st.st_size;
}
static bool have_full() { return access("/dev/full", W_OK) == 0; }
// a header of the given integers and n bytes
static void forge(const std::string &f, const std::vector<int> &h, size_t n) {
    std::ofstream o(f, std::ios::binary | std::ios::trunc);
    o.write((const char *)h.data(), h.size() * sizeof(int));
    std::string b(n, 'x');
    o.write(b.data(), n);
}
template <class X>
X special(Rng &r) {
    typedef typename real_of<X>::type Y;
    auto one = [&]() -> Y {
        if (!std::is_floating_point<Y>::value) {
            switch (r.i(0, 5)) {
            case 0: return std::numeric_limits<Y>::max();
            case 1: return std::numeric_limits<Y>::lowest();
            default: return Y(r.i(-1000, 1000));
            }
        }
        switch (r.i(0, 13)) {
        case 0: return Y(0);
        case 1: return Y(-0.0);
        case 2: return std::numeric_limits<Y>::infinity();
        case 3: return -std::numeric_limits<Y>::infinity();
        case 4: return std::numeric_limits<Y>::quiet_NaN();
        case 5: return std::numeric_limits<Y>::denorm_min();
        case 6: return std::numeric_limits<Y>::max();
        case 7: return std::numeric_limits<Y>::min();
        case 8: return Y(10) * Y(r.i(0, 25)); // bytes that look like line ends
        default: return Y(r.u(-1, 1) * std::pow(10., r.i(-8, 8)));
        }
    };
    struct B {
        static void set(Y &x, const std::function<Y()> &f) { x = f(); }
        static void set(std::complex<Y> &x, const std::function<Y()> &f) {
            Y a = f();
            Y b = f();
            x   = std::complex<Y>(a, b);
        }
    };
    X x;
    B::set(x, one);
    return x;
}
template <class X>
X finite(Rng &r) {
    for (;;) {
        X x = special<X>(r);
        if (std::isfinite((double)std::abs(std::complex<double>(std::real(x) * 1e-30, std::imag(x) * 1e-30))) && std::real(x) == std::real(x) && std::imag(x) == std::imag(x)) return x;
    }
}
template <class X>
bool same(const X &a, const X &b) { return std::memcmp(&a, &b, sizeof(X)) == 0; }
static std::string slurp(const std::string &f) {
    std::ifstream i(f, std::ios::binary);
    std::ostringstream o;
    o << i.rdbuf();
    return o.str();
}
static std::vector<std::string> cut(const std::string &s, const std::string &d) {
    std::vector<std::string> v;
    size_t p = 0, q;
    while ((q = s.find(d, p)) != std::string::npos) {
        v.push_back(s.substr(p, q - p));
        p = q + d.size();
    }
    v.push_back(s.substr(p));
    return v;
}
// parse one printed scalar; digits: significant decimal digits the stream used
static bool num(const std::string &s, double &x) {
    char *e = nullptr;
    x       = strtod(s.c_str(), &e);
    return e != s.c_str() && *e == 0;
}
static bool agrees(const std::string &s, double want, int digits) {
    double x;
    if (!num(s, x)) return false;
    if (want != want) return x != x;
    if (std::isinf(want)) return x == want;
    return std::abs(x - want) <= std::pow(10., 1 - digits) * std::abs(want) + 1e-320 || x == want;
}
template <class Y>
static bool entry(const std::string &s, const Y &want, int digits) { return agrees(s, (double)want, digits); }
template <class Y>
static bool entry(const std::string &s, const std::complex<Y> &want, int digits) {
    if (s.size() < 5 || s[0] != '(' || s.back() != ')') return false;
    size_t c = s.find(',');
    if (c == std::string::npos) return false;
    return agrees(s.substr(1, c - 1), want.real(), digits) && agrees(s.substr(c + 1, s.size() - c - 2), want.imag(), digits);
}
static std::vector<double> dvec(Rng &r, int n) {
    std::vector<double> v;
    for (int i = 0; i < n; i++) v.push_back(r.u(-1, 1));
    return v;
}

template <class X>
void vectors(Ctx &cx, Rng &r, const char *ty) {
    int n = r.pick({0, 0, 1, 1, 2, 3, 7, 64, 1000});
    std::vector<X> v;
    for (int i = 0; i < n; i++) v.push_back(special<X>(r));
    std::string f = cx.scratch + "/v" + file_name(cx.k, r.i(0, 3));
    cx.descr      = S() << "vector<" << ty << "> n=" << n;
    cx.progress();
    if (r.p(0.3)) { // something longer is already there
        std::vector<double> w(2000, 3.5);
        cx.check(htool::vector_to_bytes(w, f) == 0, "vector:write-status");
    }
    cx.check(htool::vector_to_bytes(v, f) == 0, "vector:write-status");
    std::vector<X> w;
    int old = r.pick({0, 1, n, n + 5, 3});
    for (int i = 0; i < old; i++) w.push_back(X(17));
    for (int rep = 0; rep < 2; rep++) {
        cx.check(htool::bytes_to_vector(w, f) == 0, "vector:read-status");
        bool ok = w.size() == v.size();
        for (size_t i = 0; ok && i < v.size(); i++) ok = same(v[i], w[i]);
        cx.check(ok, "vector:round-trip", S() << "size " << w.size());
    }
    cx.count("vector_round_trips");
    if (n == 0) cx.count("empty_vectors");
    // missing file: reported, target as it was
    std::vector<X> keep = w;
    {
        Quiet q;
        int rc = htool::bytes_to_vector(w, cx.scratch + "/none/absent");
        cx.check(rc != 0, "vector:missing-not-reported");
        cx.check(htool::vector_to_bytes(v, cx.scratch + "/none/absent") != 0, "vector:unwritable-not-reported");
        cx.check(htool::matlab_save(v, cx.scratch + "/none/absent") != 0, "vector:unwritable-not-reported");
    }
    bool ok = keep.size() == w.size();
    for (size_t i = 0; ok && i < w.size(); i++) ok = same(keep[i], w[i]);
    cx.check(ok, "vector:missing-file-changed-target");
    cx.count("missing_files");
    // a file that ends too early: reported, target as it was
    {
        Quiet q;
        size_t full   = fsize(f);
        std::string g = f + ".cut";
        htool::vector_to_bytes(v, g);
        int how = r.i(0, 3);
        size_t len = r.p(0.3) ? (size_t)r.i(0, 3) : (size_t)r.i(0, (int)full - 1);
        if (how <= 1) {
            if (truncate(g.c_str(), len)) {}
        } else if (how == 2) forge(g, {-r.i(1, 5)}, r.i(0, 64));
        else forge(g, {n + 1 + r.i(0, 100000)}, n * sizeof(X));
        w = keep;
        cx.check(htool::bytes_to_vector(w, g) != 0, "vector:incomplete-file-not-reported", S() << "kind " << how << " length " << len << " of " << full);
        ok = keep.size() == w.size();
        for (size_t i = 0; ok && i < w.size(); i++) ok = same(keep[i], w[i]);
        cx.check(ok, "vector:incomplete-file-changed-target", S() << "kind " << how << " length " << len << " of " << full);
        cx.count("incomplete_files");
        // a file that cannot be written completely
        if (have_full()) {
            cx.check(htool::vector_to_bytes(v, "/dev/full") != 0, "vector:incomplete-write-not-reported");
            if (n) cx.check(htool::matlab_save(v, "/dev/full") != 0, "vector:incomplete-write-not-reported:text");
        }
        size_t text = 0;
        htool::matlab_save(v, g);
        text = fsize(g);
        unlink(g.c_str());
        int rb, rt = 1;
        {
            Limit l((size_t)r.i(0, (int)full - 1));
            rb = htool::vector_to_bytes(v, g);
        }
        if (text) {
            Limit l((size_t)r.i(0, (int)text - 1));
            rt = htool::matlab_save(v, g);
        }
        cx.check(rb != 0, "vector:incomplete-write-not-reported");
        cx.check(rt != 0, "vector:incomplete-write-not-reported:text");
        unlink(g.c_str());
        cx.count("incomplete_writes", 2);
    }
    // text
    cx.check(htool::matlab_save(v, f + ".txt") == 0, "vector:text-status");
    auto ls = cut(slurp(f + ".txt"), "\n");
    ok      = (int)ls.size() == n + 1 && ls.back().empty();
    cx.check(ok, "vector:text-lines", S() << ls.size() << " lines for " << n << " entries");
    int dig = std::is_floating_point<typename real_of<X>::type>::value ? 16 : 18;
    for (int i = 0; ok && i < n; i++) {
        std::string l = ls[i];
        bool good     = l.size() > 3 && l.substr(l.size() - 2) == "i\t";
        if (good) {
            l        = l.substr(0, l.size() - 2);
            size_t p = l.size(); // the sign that starts the imaginary part
            for (size_t q = 1; q < l.size(); q++)
                if ((l[q] == '+' || l[q] == '-') && l[q - 1] != 'e') p = q;
            good = p < l.size();
            if (good) {
                double im = (double)std::imag(v[i]);
                if (im != im) good = agrees(l.substr(0, p), (double)std::real(v[i]), dig); // "+nan"
                else good = agrees(l.substr(0, p), (double)std::real(v[i]), dig) && agrees(l.substr(p), im, dig);
            }
        }
        ok = cx.check(good, "vector:text-entry", S() << "entry " << i << " " << v[i] << " written as " << ls[i]);
    }
    cx.count("text_exports");
    // printed form goes to the stream that was given, and nowhere else
    {
        std::ostringstream o;
        std::string leaked;
        {
            Quiet q;
            htool::operator<<(o, v);
            leaked = q.o.str();
        }
        cx.check(leaked.empty(), "vector:print-wrong-stream", leaked.substr(0, 80));
        std::string s = o.str();
        if (n == 0) cx.check(s.empty(), "vector:print-format", s);
        else {
            bool good = s.size() > 3 && s[0] == '[' && s.substr(s.size() - 3) == ",\b]";
            if (good) {
                s = s.substr(1, s.size() - 4);
                std::vector<std::string> it;
                if (!is_cplx<X>::value) it = cut(s, ",");
                else { // "(a,b),(c,d)"
                    for (auto &z : cut(s, "),(")) it.push_back(z);
                    for (size_t i = 0; i < it.size(); i++) {
                        if (i > 0) it[i] = "(" + it[i];
                        if (i + 1 < it.size()) it[i] += ")";
                    }
                }
                good = (int)it.size() == n;
                for (int i = 0; good && i < n; i++) good = entry(it[i], v[i], std::is_floating_point<typename real_of<X>::type>::value ? 6 : 18);
            }
            cx.check(good, "vector:print-format", o.str().substr(0, 200));
        }
        cx.count("printed_vectors");
    }
}

static void matrices(Ctx &cx, Rng &r) {
    auto dim = [&]() { return r.pick({0, 1, 1, 2, 3, 4, 6, 9, 33}); };
    struct Ent {
        std::unique_ptr<Mat> m;
        std::unique_ptr<Guard> g;
        int rows = 0, cols = 0;
        std::vector<T> v;
        bool known = true;
    };
    std::vector<Ent> pool(3);
    std::map<int, std::pair<std::pair<int, int>, std::vector<T>>> files;
    std::string hist;
    auto verify = [&](const std::string &what) {
        for (size_t q = 0; q < pool.size(); q++) {
            auto &e = pool[q];
            if (!e.m || !e.known) continue;
            bool ok = e.m->nb_rows() == e.rows && e.m->nb_cols() == e.cols;
            for (int j = 0; ok && j < e.cols; j++)
                for (int i = 0; ok && i < e.rows; i++) ok = same((*e.m)(i, j), e.v[(size_t)j * e.rows + i]);
            if (!cx.check(ok, "matrix:" + what, S() << "object " << q << " after " << hist)) e.known = false;
            if (e.g) cx.check(e.g->intact(), "matrix:" + what + ":buffer", hist);
        }
    };
    int steps = r.i(6, 14);
    for (int st = 0; st < steps; st++) {
        int q   = r.i(0, 2);
        auto &e = pool[q];
        int kd  = r.i(0, 9);
        if (!e.m || kd <= 1) { // a new object of some origin
            int o = r.i(0, 4);
            e     = Ent();
            e.rows = dim(), e.cols = dim();
            for (int i = 0; i < e.rows * e.cols; i++) e.v.push_back(special<T>(r));
            if (o == 0) {
                e.m.reset(new Mat());
                e.rows = e.cols = 0;
                e.v.clear();
            } else if (o <= 2) {
                e.m.reset(new Mat(e.rows, e.cols));
                for (size_t i = 0; i < e.v.size(); i++) e.m->data()[i] = e.v[i];
            } else if (o == 3) { // a view of a foreign buffer
                e.g.reset(new Guard(e.v));
                e.m.reset(new Mat());
                e.m->assign(e.rows, e.cols, e.g->data(), false);
            } else { // factored: carries row interchanges
                int n = r.i(1, 5);
                e.m.reset(new Mat(n, n));
                for (int j = 0; j < n; j++)
                    for (int i = 0; i < n; i++) (*e.m)(i, j) = rnd(r) + (i == n - 1 - j ? T(4) : T(0));
                htool::lu_factorization(*e.m);
                e.rows = e.cols = n;
                e.v.assign(e.m->data(), e.m->data() + n * n);
                cx.count("factored_objects");
            }
            hist += S() << "new" << q << ":" << o << "(" << e.rows << "x" << e.cols << ");";
            verify("new");
            continue;
        }
        if (hist.size() > 600) hist = hist.substr(300);
        int fi        = r.i(0, 2);
        std::string f = cx.scratch + "/m" + file_name(cx.k, fi);
        cx.descr      = S() << "type=" << tname() << " " << hist;
        cx.progress();
        if (kd <= 4) {
            hist += S() << "write" << q << "->" << fi << ";";
            cx.check(e.m->matrix_to_bytes(f) == 0, "matrix:write-status", hist);
            if (e.known) files[fi] = {{e.rows, e.cols}, e.v};
            else files.erase(fi);
            verify("write-changed-object");
        } else if (kd <= 7 && files.count(fi)) {
            hist += S() << "read" << q << "<-" << fi << ";";
            cx.count("matrix_round_trips");
            if (e.g) cx.count("reads_into_views");
            if (files[fi].second.empty()) cx.count("empty_matrices");
            std::vector<T> before;
            if (e.g) before = e.g->vec();
            cx.check(e.m->bytes_to_matrix(f) == 0, "matrix:read-status", hist);
            e.rows = files[fi].first.first, e.cols = files[fi].first.second, e.v = files[fi].second, e.known = true;
            if (e.g) cx.check(e.g->intact() && (before.empty() || !std::memcmp(before.data(), e.g->vec().data(), before.size() * sizeof(T))), "matrix:read-wrote-into-view", hist);
            if (e.g) e.g.reset(); // the view is gone: the buffer must no longer be used
            cx.check(e.m->get_pivots().empty(), "matrix:read-kept-interchanges", hist);
            verify("round-trip");
        } else if (kd == 8) {
            Quiet qq;
            hist += S() << "absent" << q << ";";
            cx.check(e.m->bytes_to_matrix(cx.scratch + "/none/absent") != 0, "matrix:missing-not-reported", hist);
            cx.check(e.m->matrix_to_bytes(cx.scratch + "/none/absent") != 0, "matrix:unwritable-not-reported", hist);
            cx.check(e.m->csv_save(cx.scratch + "/none/absent") != 0, "matrix:unwritable-not-reported:csv", hist);
            cx.count("missing_files");
            verify("missing-file-changed-object");
            // files that end too early
            std::string g = f + ".cut";
            Mat src(dim(), dim());
            for (int i = 0; i < src.nb_rows() * src.nb_cols(); i++) src.data()[i] = special<T>(r);
            src.matrix_to_bytes(g);
            size_t full = fsize(g), len = r.p(0.3) ? (size_t)r.i(0, 7) : (size_t)r.i(0, (int)full - 1);
            int how = r.i(0, 3);
            if (how <= 1) {
                if (truncate(g.c_str(), len)) {}
            } else if (how == 2) forge(g, r.p(0.5) ? std::vector<int>{-r.i(1, 4), r.i(0, 4)} : std::vector<int>{r.i(0, 4), -r.i(1, 4)}, r.i(0, 64));
            else forge(g, {src.nb_rows() + 1, src.nb_cols() + 1 + r.i(0, 400)}, full - 8);
            hist += S() << "cut" << q << ":" << how << ":" << len << "/" << full << ";";
            std::vector<int> piv = e.m->get_pivots();
            cx.check(e.m->bytes_to_matrix(g) != 0, "matrix:incomplete-file-not-reported", hist);
            cx.check(e.m->get_pivots() == piv, "matrix:incomplete-file-changed-interchanges", hist);
            verify("incomplete-file-changed-object");
            cx.count("incomplete_files");
            // files that cannot be written completely
            if (have_full()) {
                cx.check(e.m->matrix_to_bytes("/dev/full") != 0, "matrix:incomplete-write-not-reported", hist);
                if (e.rows > 0 && e.cols > 0) cx.check(e.m->csv_save("/dev/full") != 0, "matrix:incomplete-write-not-reported:csv", hist);
            }
            unlink(g.c_str());
            size_t bytes = 2 * sizeof(int) + (size_t)e.rows * e.cols * sizeof(T);
            int rb, rt   = 1;
            size_t text  = 0;
            e.m->csv_save(g);
            text = fsize(g);
            unlink(g.c_str());
            if (e.known) {
                Limit l((size_t)r.i(0, (int)bytes - 1));
                rb = e.m->matrix_to_bytes(g);
            } else rb = 1;
            if (text) {
                Limit l((size_t)r.i(0, (int)text - 1));
                rt = e.m->csv_save(g);
            }
            cx.check(rb != 0, "matrix:incomplete-write-not-reported", hist);
            cx.check(rt != 0, "matrix:incomplete-write-not-reported:csv", hist);
            unlink(g.c_str());
            cx.count("incomplete_writes", 2);
            verify("incomplete-write-changed-object");
        } else if (kd == 9 && e.known) {
            std::string d = CPLX ? r.pick({";", "\t", " ; ", "|"}) : r.pick({",", ";", " ", "\t", " , "}), s;
            bool dflt     = !CPLX && r.p(0.3);
            hist += S() << "csv" << q << ";";
            if (r.p(0.5)) {
                int rc = dflt ? e.m->csv_save(f + ".csv") : e.m->csv_save(f + ".csv", d);
                cx.check(rc == 0, "matrix:csv-status", hist);
                s = slurp(f + ".csv");
                if (dflt) d = ",";
            } else {
                std::ostringstream o;
                e.m->print(o, d);
                s = o.str();
            }
            auto ls  = cut(s, "\n");
            int want = e.cols ? e.rows : 0;
            bool ok  = (int)ls.size() == want + 1 && ls.back().empty();
            for (int i = 0; ok && i < want; i++) {
                auto c = cut(ls[i], d);
                ok     = (int)c.size() == e.cols;
                for (int j = 0; ok && j < e.cols; j++) ok = entry(c[j], e.v[(size_t)j * e.rows + i], 6);
            }
            cx.check(ok, "matrix:text", S() << e.rows << "x" << e.cols << " " << s.substr(0, 200));
            cx.count("text_exports");
            verify("text-changed-object");
        }
        cx.evals++;
    }
    cx.sig(hist.substr(0, 60));
}

void vf_case(Ctx &cx) {
    Rng &r = cx.rng;
    mkdir(cx.scratch.c_str(), 0700);
    if (cx.k % 8 == 0) leak_check(cx, "matrix:leak", [&]() { matrices(cx, cx.rng); });
    else matrices(cx, r);
    for (int t = 0; t < 4; t++) {
        auto go = [&]() {
            Rng &q = cx.rng;
            switch (q.i(0, 4)) {
            case 0: vectors<int>(cx, q, "int"); break;
            case 1: vectors<R>(cx, q, "real"); break;
            case 2: vectors<size_t>(cx, q, "size_t"); break;
            default: vectors<T>(cx, q, tname());
            }
        };
        if (cx.k % 8 == 0) leak_check(cx, "vector:leak", go);
        else go();
        cx.evals++;
    }
    // string helpers used by the readers: split undoes join
    int n = r.i(1, 6);
    std::string d = r.pick({",", " ", "::", "||"});
    std::vector<std::string> x;
    for (int i = 0; i < n; i++) {
        std::string w;
        for (int q = r.i(i == 0 ? 1 : 0, 5); q > 0; q--) w += char('a' + r.i(0, 25));
        x.push_back(w);
    }
    if (x[0].empty()) x[0] = "q";
    cx.check(htool::split(htool::join(d, x), d) == x, "strings:split-join", d);
    int z = r.i(-100000, 100000);
    cx.check(htool::StrToNbr<int>(htool::NbrToStr(z)) == z, "strings:number");
    cx.count("string_round_trips");
}
} // namespace vf
