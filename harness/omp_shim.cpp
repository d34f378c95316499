// A small OpenMP runtime on pthreads: every synchronisation it provides is visible to the race
// detector (and none that OpenMP does not promise: chunk dispatch uses relaxed atomics only), and
// every legal schedule can be provoked: chunk sizes, chunk order, thread start order, delays and
// starvation are drawn from a seed set by the harness.
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <vector>
#include <algorithm>

void vf_omp_note(uint64_t, int, int);
namespace {
const int NSLOT = 64, NPAGE = 4096, MAXT = 64;
struct Slot {
    std::atomic<long> next{0};
    std::atomic<int> single{0};
    std::atomic<long> turn{0};
    void *copy = nullptr;
};
struct Page {
    Slot s[NSLOT];
};
struct Team {
    int n = 1;
    uint64_t seed = 1;
    int mode = 0;
    // one slot for every worksharing construct the region meets (never reused: a nowait loop may lag)
    Page first;
    std::atomic<Page *> pages[NPAGE];
    Team() {
        for (auto &p : pages) p.store(nullptr, std::memory_order_relaxed);
        pages[0].store(&first, std::memory_order_relaxed);
    }
    ~Team() {
        for (int i = 1; i < NPAGE; i++) delete pages[i].load(std::memory_order_relaxed);
    }
    Slot &slot(int l) {
        if (l / NSLOT >= NPAGE) {
            fprintf(stderr, "omp_shim: too many worksharing constructs in one region\n");
            _exit(99);
        }
        std::atomic<Page *> &a = pages[l / NSLOT];
        Page *p                = a.load(std::memory_order_acquire);
        if (!p) {
            Page *q = new Page;
            if (a.compare_exchange_strong(p, q, std::memory_order_acq_rel)) p = q;
            else delete q;
        }
        return p->s[l % NSLOT];
    }
    pthread_barrier_t bar;
    std::vector<uint64_t> trace[MAXT]; // chunks taken by each thread
};
struct Loc {
    Team *team = nullptr;
    int id = 0;
    int loops = 0;
    // current loop
    Slot *slot = nullptr;
    long start = 0, incr = 1, count = 0, chunk = 1, nchunk = 0, a = 1, b = 0;
    bool ordered = false;
    long cur     = -1; // chunk being run, in an ordered loop
    uint64_t rng = 1;
    int level = 0;
};
thread_local Loc me;
int g_threads = 2;
uint64_t g_seed = 1;
std::atomic<uint64_t> g_region{0};
pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER, named = PTHREAD_MUTEX_INITIALIZER;
uint64_t mix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
long gcd(long a, long b) { return b ? gcd(b, a % b) : a; }
void jitter() {
    if (!me.team || me.team->mode == 0) return;
    me.rng = mix(me.rng);
    switch (me.rng % 8) {
    case 0: sched_yield(); break;
    case 1:
        if (me.team->mode >= 2) usleep(me.rng / 8 % 60);
        break;
    default: break;
    }
}
struct Start {
    void (*fn)(void *);
    void *data;
    Team *team;
    int id;
};
void run(Start s) {
    Loc save = me;
    me       = Loc();
    me.team  = s.team;
    me.id    = s.id;
    me.rng   = mix(s.team->seed * 131 + s.id);
    me.level = save.level + 1;
    if (s.team->mode >= 2 && me.rng % 3 == 0) usleep(me.rng / 3 % 300); // late starter
    if (s.team->mode == 3 && s.id != (int)(s.team->seed % s.team->n)) usleep(400); // one thread may take everything
    s.fn(s.data);
    me = save;
}
void *tmain(void *p) {
    run(*(Start *)p);
    return nullptr;
}
long clampinc(long start, long end, long incr) {
    if (incr > 0) return end > start ? (end - start + incr - 1) / incr : 0;
    return end < start ? (start - end - incr - 1) / (-incr) : 0;
}
void wait_turn() {
    if (!me.team || !me.ordered || me.cur < 0) return;
    while (me.slot->turn.load(std::memory_order_acquire) != me.cur) sched_yield();
}
void end_turn() {
    if (!me.team || !me.ordered || me.cur < 0) return;
    wait_turn();
    me.slot->turn.store(me.cur + 1, std::memory_order_release);
    me.cur = -1;
}
bool take(long *is, long *ie) {
    jitter();
    end_turn();
    if (me.count <= 0) return false;
    if (!me.team) { // serial
        if (me.nchunk < 0) return false;
        *is       = me.start;
        *ie       = me.start + me.count * me.incr;
        me.nchunk = -1;
        return true;
    }
    long k = me.slot->next.fetch_add(1, std::memory_order_relaxed);
    if (k >= me.nchunk) return false;
    long c  = (long)(((__int128)me.a * k + me.b) % me.nchunk);
    me.cur  = c;
    long lo = c * me.chunk, hi = std::min(me.count, lo + me.chunk);
    *is     = me.start + lo * me.incr;
    *ie     = me.start + hi * me.incr;
    me.team->trace[me.id].push_back(((uint64_t)me.loops << 40) ^ (uint64_t)c);
    return true;
}
bool begin(long start, long end, long incr, bool ordered_static, long *is, long *ie) {
    me.start = start;
    me.incr  = incr;
    me.count = clampinc(start, end, incr);
    me.nchunk = 0;
    me.ordered = ordered_static;
    me.cur     = -1;
    if (me.team) {
        int l       = me.loops++;
        me.slot     = &me.team->slot(l);
        uint64_t h  = mix(me.team->seed * 977 + l);
        me.chunk    = me.team->mode == 0 ? std::max<long>(1, me.count / (2 * me.team->n)) : 1 + (long)(h % 5 == 0 ? h / 5 % (me.count + 1) : h / 5 % 4);
        me.nchunk   = (me.count + me.chunk - 1) / me.chunk;
        me.a        = 1;
        me.b        = 0;
        if (me.nchunk > 1 && me.team->mode && !me.ordered) {
            me.a = 1 + (long)(mix(h) % (uint64_t)me.nchunk);
            while (gcd(me.a, me.nchunk) != 1) me.a++;
            me.b = (long)(mix(h + 1) % (uint64_t)me.nchunk);
        }
    }
    if (!is) return true;
    return take(is, ie);
}
void parallel(void (*fn)(void *), void *data, unsigned n, void (*pre)(Team &)) {
    (void)pre;
    if (me.team) n = 1;
    if (n == 0) n = (unsigned)g_threads;
    if (n > MAXT) n = MAXT;
    if (n <= 1 && me.team) { // nested: serial team
        Loc save = me;
        me       = Loc();
        me.level = save.level + 1;
        fn(data);
        me = save;
        return;
    }
    Team *t = new Team;
    t->n    = (int)n;
    t->seed = mix(g_seed + 7919 * g_region.load(std::memory_order_relaxed));
    g_region.fetch_add(1, std::memory_order_relaxed);
    t->mode = (int)(t->seed >> 20) % 4;
    pthread_barrier_init(&t->bar, nullptr, n);
    std::vector<pthread_t> th(n);
    std::vector<Start> st(n);
    std::vector<int> order(n);
    for (unsigned i = 0; i < n; i++) order[i] = (int)i;
    for (unsigned i = 1; i + 1 < n; i++) std::swap(order[i], order[i + mix(t->seed + i) % (n - i)]);
    for (unsigned i = 0; i < n; i++) st[i] = {fn, data, t, (int)i};
    for (unsigned i = 0; i < n; i++)
        if (order[i] && pthread_create(&th[order[i]], nullptr, tmain, &st[order[i]])) {
            fprintf(stderr, "omp_shim: pthread_create failed\n");
            _exit(99);
        }
    run(st[0]);
    for (unsigned i = 1; i < n; i++) pthread_join(th[i], nullptr);
    uint64_t h = n;
    int busy   = 0;
    for (unsigned i = 0; i < n; i++) {
        if (!t->trace[i].empty()) busy++;
        for (auto c : t->trace[i]) h = mix(h ^ (c * 64 + i));
    }
    vf_omp_note(h, (int)n, busy);
    pthread_barrier_destroy(&t->bar);
    delete t;
}
} // namespace
uint64_t vf_omp_last = 0;
long vf_omp_regions = 0, vf_omp_multi = 0;
void vf_omp_note(uint64_t h, int, int busy) {
    vf_omp_last = vf_omp_last * 31 + h;
    vf_omp_regions++;
    if (busy > 1) vf_omp_multi++;
}
void vf_omp_seed(uint64_t s) {
    g_seed = s;
    g_region.store(0, std::memory_order_relaxed);
    vf_omp_last = 0;
}
int vf_omp_in_region() { return me.level; }
int vf_omp_id() { return me.team ? me.id : 0; }

extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { parallel(fn, data, n, nullptr); }
void GOMP_barrier() {
    if (me.team) pthread_barrier_wait(&me.team->bar);
}
bool GOMP_barrier_cancel() {
    GOMP_barrier();
    return false;
}
void GOMP_critical_start() {
    jitter();
    pthread_mutex_lock(&crit);
}
void GOMP_critical_end() { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **p) {
    pthread_mutex_t *m;
    pthread_mutex_lock(&named);
    if (!*p) {
        m = (pthread_mutex_t *)malloc(sizeof *m);
        pthread_mutex_init(m, nullptr);
        *p = m;
    }
    m = (pthread_mutex_t *)*p;
    pthread_mutex_unlock(&named);
    pthread_mutex_lock(m);
}
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock((pthread_mutex_t *)*p); }
void GOMP_atomic_start() { pthread_mutex_lock(&atom); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atom); }
bool GOMP_single_start() {
    if (!me.team) return true;
    int l = me.loops++;
    return me.team->slot(l).single.exchange(1, std::memory_order_relaxed) == 0;
}
// single copyprivate: the one thread that runs it publishes its copy at the barrier
void *GOMP_single_copy_start() {
    if (!me.team) return nullptr;
    Slot &s = me.team->slot(me.loops++);
    me.slot = &s;
    if (s.single.exchange(1, std::memory_order_relaxed) == 0) return nullptr;
    GOMP_barrier();
    void *p = s.copy;
    GOMP_barrier();
    return p;
}
void GOMP_single_copy_end(void *p) {
    if (!me.team) return;
    me.slot->copy = p;
    GOMP_barrier();
    GOMP_barrier();
}
void GOMP_ordered_start() { wait_turn(); }
void GOMP_ordered_end() {}
#define LOOP(name)                                                                                                                   \
    bool GOMP_loop_##name##_start(long s, long e, long i, long, long *is, long *ie) { return begin(s, e, i, false, is, ie); }        \
    bool GOMP_loop_##name##_next(long *is, long *ie) { return take(is, ie); }
LOOP(guided)
LOOP(dynamic)
LOOP(static)
LOOP(nonmonotonic_guided)
LOOP(nonmonotonic_dynamic)
#define OLOOP(name)                                                                                                                  \
    bool GOMP_loop_ordered_##name##_start(long s, long e, long i, long, long *is, long *ie) { return begin(s, e, i, true, is, ie); }  \
    bool GOMP_loop_ordered_##name##_next(long *is, long *ie) { return take(is, ie); }
OLOOP(guided)
OLOOP(dynamic)
OLOOP(static)
bool GOMP_loop_ordered_runtime_start(long s, long e, long i, long *is, long *ie) { return begin(s, e, i, true, is, ie); }
bool GOMP_loop_ordered_runtime_next(long *is, long *ie) { return take(is, ie); }
bool GOMP_loop_start(long s, long e, long i, long, long, long *is, long *ie, uintptr_t *, void **) { return begin(s, e, i, false, is, ie); }
bool GOMP_loop_ordered_start(long s, long e, long i, long, long, long *is, long *ie, uintptr_t *, void **) { return begin(s, e, i, true, is, ie); }
bool GOMP_loop_runtime_start(long s, long e, long i, long *is, long *ie) { return begin(s, e, i, false, is, ie); }
bool GOMP_loop_runtime_next(long *is, long *ie) { return take(is, ie); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return begin(s, e, i, false, is, ie); }
bool GOMP_loop_nonmonotonic_runtime_next(long *is, long *ie) { return take(is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return begin(s, e, i, false, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *is, long *ie) { return take(is, ie); }
static bool ub(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *is, unsigned long long *ie) {
    (void)up; // a falling loop passes a step that is negative once it is signed
    return begin((long)s, (long)e, (long)i, false, (long *)is, (long *)ie);
}
#define ULOOP(name)                                                                                                                                                                                                                                  \
    bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long, unsigned long long *is, unsigned long long *ie) { return ub(up, s, e, i, is, ie); }                            \
    bool GOMP_loop_ull_##name##_next(unsigned long long *is, unsigned long long *ie) { return take((long *)is, (long *)ie); }
ULOOP(guided)
ULOOP(dynamic)
ULOOP(static)
ULOOP(nonmonotonic_guided)
ULOOP(nonmonotonic_dynamic)
#define ULOOPR(name)                                                                                                                                                                                                         \
    bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *is, unsigned long long *ie) { return ub(up, s, e, i, is, ie); }                        \
    bool GOMP_loop_ull_##name##_next(unsigned long long *is, unsigned long long *ie) { return take((long *)is, (long *)ie); }
ULOOPR(runtime)
ULOOPR(nonmonotonic_runtime)
ULOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() {
    end_turn();
    GOMP_barrier();
}
void GOMP_loop_end_nowait() { end_turn(); }
bool GOMP_loop_end_cancel() {
    end_turn();
    GOMP_barrier();
    return false;
}
// combined constructs: each thread opens the same loop when it first asks for a chunk
struct PL {
    void (*fn)(void *);
    void *data;
    long s, e, i;
};
static void plrun(void *p) {
    PL *q = (PL *)p;
    begin(q->s, q->e, q->i, false, nullptr, nullptr);
    q->fn(q->data);
}
#define PLOOP(name)                                                                                                             \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long, unsigned) {        \
        PL q{fn, data, s, e, i};                                                                                                \
        parallel(plrun, &q, n, nullptr);                                                                                        \
    }
PLOOP(guided)
PLOOP(dynamic)
PLOOP(static)
PLOOP(nonmonotonic_guided)
PLOOP(nonmonotonic_dynamic)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned) {
    PL q{fn, data, s, e, i};
    parallel(plrun, &q, n, nullptr);
}
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_runtime(fn, data, n, s, e, i, f); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_runtime(fn, data, n, s, e, i, f); }
// undeferred tasks are a legal schedule
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
    if (cpy) {
        std::vector<char> buf((size_t)(size + align));
        char *p = (char *)(((uintptr_t)buf.data() + align - 1) & ~(uintptr_t)(align - 1));
        cpy(p, data);
        fn(p);
    } else fn(data);
}
// sections: a loop over 1..count taking one at a time
unsigned GOMP_sections_next() {
    long a, b;
    if (!me.team) { // serial: one after another
        if (me.count <= 0) return 0;
        me.count--;
        return (unsigned)(me.start++);
    }
    return take(&a, &b) ? (unsigned)a : 0;
}
unsigned GOMP_sections_start(unsigned count) {
    begin(1, (long)count + 1, 1, false, nullptr, nullptr);
    if (me.team) {
        me.chunk  = 1;
        me.nchunk = count;
        me.a      = 1;
        me.b      = 0;
    }
    return GOMP_sections_next();
}
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}
struct PS {
    void (*fn)(void *);
    void *data;
    unsigned count;
};
static void psrun(void *p) {
    PS *q = (PS *)p;
    begin(1, (long)q->count + 1, 1, false, nullptr, nullptr);
    me.chunk  = 1;
    me.nchunk = q->count;
    me.a      = 1;
    me.b      = 0;
    q->fn(q->data);
}
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned) {
    PS q{fn, data, count};
    parallel(psrun, &q, n, nullptr);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
// a task loop is run as one task by the thread that meets it: also a legal schedule
extern "C++" {
template <class T>
static void taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, T start, T end) {
    std::vector<char> buf((size_t)(size + align));
    char *p = (char *)(((uintptr_t)buf.data() + align - 1) & ~(uintptr_t)(align - 1));
    if (cpy) cpy(p, data);
    else std::copy((char *)data, (char *)data + size, p);
    ((T *)p)[0] = start;
    ((T *)p)[1] = end;
    fn(p);
}
}
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned, unsigned long, int, long start, long end, long step) {
    if (clampinc(start, end, step) > 0) taskloop<long>(fn, data, cpy, size, align, start, end);
}
void GOMP_taskloop_ull(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned, unsigned long, int, unsigned long long start, unsigned long long end, unsigned long long step) {
    if (clampinc((long)start, (long)end, (long)step) > 0) taskloop<unsigned long long>(fn, data, cpy, size, align, start, end);
}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
int omp_get_cancellation() { return 0; }
int omp_get_team_size(int l) { return l == me.level ? (me.team ? me.team->n : 1) : 1; }
int omp_get_ancestor_thread_num(int l) { return l == me.level ? (me.team ? me.id : 0) : 0; }
int omp_get_active_level() { return me.team && me.team->n > 1 ? 1 : 0; }
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_supported_active_levels() { return 1; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int *k, int *c) {
    *k = 2;
    *c = 1;
}
int omp_in_final() { return 0; }
int omp_get_num_teams() { return 1; }
int omp_get_team_num() { return 0; }
int omp_get_proc_bind() { return 0; }
int omp_get_num_devices() { return 0; }
int omp_is_initial_device() { return 1; }
double omp_get_wtick() { return 1e-9; }
int omp_get_thread_num() { return me.team ? me.id : 0; }
int omp_get_num_threads() { return me.team ? me.team->n : 1; }
int omp_get_max_threads() { return g_threads; }
void omp_set_num_threads(int n) { g_threads = n < 1 ? 1 : n; }
int omp_in_parallel() { return me.team && me.team->n > 1; }
int omp_get_num_procs() { return 8; }
int omp_get_level() { return me.level; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_thread_limit() { return MAXT; }
double omp_get_wtime() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
typedef struct {
    pthread_mutex_t *m;
} shim_lock;
void omp_init_lock(shim_lock *l) {
    l->m = (pthread_mutex_t *)malloc(sizeof(pthread_mutex_t));
    pthread_mutex_init(l->m, nullptr);
}
void omp_destroy_lock(shim_lock *l) { free(l->m); }
void omp_set_lock(shim_lock *l) { pthread_mutex_lock(l->m); }
void omp_unset_lock(shim_lock *l) { pthread_mutex_unlock(l->m); }
int omp_test_lock(shim_lock *l) { return pthread_mutex_trylock(l->m) == 0; }
void omp_init_nest_lock(shim_lock *l) {
    pthread_mutexattr_t a;
    pthread_mutexattr_init(&a);
    pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE);
    l->m = (pthread_mutex_t *)malloc(sizeof(pthread_mutex_t));
    pthread_mutex_init(l->m, &a);
    pthread_mutexattr_destroy(&a);
}
void omp_destroy_nest_lock(shim_lock *l) { free(l->m); }
void omp_set_nest_lock(shim_lock *l) { pthread_mutex_lock(l->m); }
void omp_unset_nest_lock(shim_lock *l) { pthread_mutex_unlock(l->m); }
}
