// Simulated OpenMP.  The threads of a team are fibers of their rank; the seeded scheduler decides at every
// synchronisation and after a drawn number of memory accesses which thread goes on.  The memory accesses of the
// code under test call the __tsan_* functions below (the code is compiled with -fsanitize=thread, but the runtime is this
// one): they are the preemption points, and a happens-before check reports every pair of conflicting accesses which
// no barrier, critical section, atomic or region boundary orders.
#include "sim.h"
#include <cerrno>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <set>
#include <sstream>
#include <cxxabi.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <malloc.h>

using namespace sim;
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }

namespace {
constexpr int TMAX = 8;
constexpr size_t STK = 1u << 20;
struct VC { uint32_t c[TMAX] = {}; void join(const VC &o) { for (int i = 0; i < TMAX; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Lock { int owner = -1; VC vc; };
struct WorkShare { bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; int taken = 0; bool guided = false; VC vc; };
struct Thr {
    ucontext_t ctx;
    char *stack = nullptr;
    enum { READY, BARRIER, LOCKWAIT, ENDWAIT, DONE } st = READY;
    Lock *lock = nullptr;
    VC vc;
    void *eh[2] = {nullptr, nullptr};
    int err = 0;
    long ws = -1; // current work share
    long singles = 0;
};
struct Team {
    int n = 1, now = 0, atbarrier = 0, done = 0;
    Thr t[TMAX];
    void (*fn)(void *);
    void *data;
    long budget = 0;
    std::map<void *, Lock> locks;
    std::map<void *, VC> atomics;
    std::map<long, WorkShare> ws;
    std::set<long> singles;
    int preset = 0; // work share 0 set up by the combined construct
};
Team *teams[MAXR];
int nactive;            // teams of all ranks
int maxthr[MAXR];
uint32_t gen;           // of the shadow memory; a new one for every region
std::vector<char *> stacks;
int thr_pol;
bool thr_dynamic;
uint32_t base[MAXR];    // clock of a rank when its next region begins: earlier accesses are ordered before it

// shadow memory: open addressing on granules of 8 bytes
struct Cell {
    uintptr_t g;
    uint32_t gen;
    uint8_t rm[TMAX], wm[TMAX];
    uint32_t rc[TMAX], wc[TMAX];
};
constexpr size_t NCELL = 1u << 20;
Cell *cells;
size_t used;
Cell *find(uintptr_t g, bool make) {
    if (!cells) return nullptr;
    size_t h = mix(g) & (NCELL - 1);
    for (;;) {
        Cell &c = cells[h];
        if (c.gen != gen) {
            if (!make || used > NCELL / 2) return nullptr;
            used++;
            memset(&c, 0, sizeof c);
            c.g = g; c.gen = gen;
            return &c;
        }
        if (c.g == g) return &c;
        h = (h + 1) & (NCELL - 1);
    }
}

void switch_to(Team &T, int k) {
    Thr &a = T.t[T.now], &b = T.t[k];
    if (&a == &b) return;
    a.err = errno;
    memcpy(a.eh, (void *)__cxxabiv1::__cxa_get_globals(), sizeof(void *) + sizeof(int));
    T.now = k;
    swapcontext(&a.ctx, &b.ctx);
    // back again
    memcpy((void *)__cxxabiv1::__cxa_get_globals(), a.eh, sizeof(void *) + sizeof(int));
    errno = a.err;
}
bool runnable(Team &T, Thr &t) {
    return t.st == Thr::READY || (t.st == Thr::LOCKWAIT && t.lock->owner < 0) || (t.st == Thr::ENDWAIT && T.done == T.n);
}
long draw_budget() {
    static const long lim[] = {6, 60, 800, 20000, 300, 60000};
    long l = lim[thr_pol % 6];
    return 1 + (long)choose((uint32_t)l);
}
// let the scheduler choose a thread of this team
void reschedule(Team &T) {
    int c[TMAX], n = 0;
    for (int i = 0; i < T.n; i++) if (runnable(T, T.t[i])) c[n++] = i;
    if (!n) {
        std::ostringstream os;
        os << "no thread of rank " << cur << " can proceed (team of " << T.n << ", " << T.atbarrier << " at a barrier, " << T.done << " finished)";
        violation("omp-deadlock", os.str());
    }
    int k = c[choose(n)];
    T.budget = draw_budget();
    if (k != T.now) { sh->nswitch++; sim::count("omp.switches", 1); }
    event("omp.run", k);
    switch_to(T, k);
}
Team *my() { return cur >= 0 && nactive ? teams[cur] : nullptr; }
inline Thr &me(Team &T) { return T.t[T.now]; }
void tick(Team &T) { me(T).vc.c[T.now]++; }

void barrier(Team &T) {
    Thr &t = me(T);
    t.st = Thr::BARRIER;
    T.atbarrier++;
    if (T.atbarrier + T.done == T.n) {
        if (T.done) violation("omp-misuse:barrier", "a barrier which not all threads of the team reach");
        VC all;
        for (int i = 0; i < T.n; i++) all.join(T.t[i].vc);
        for (int i = 0; i < T.n; i++) { T.t[i].vc = all; T.t[i].vc.c[i]++; T.t[i].st = Thr::READY; }
        T.atbarrier = 0;
    }
    reschedule(T);
    while (me(T).st == Thr::BARRIER) reschedule(T);
}
void thread_main(int rank) {
    Team &T = *teams[rank];
    { int z[4] = {}; memcpy((void *)__cxxabiv1::__cxa_get_globals(), z, sizeof(void *) + sizeof(int)); }
    T.fn(T.data);
    me(T).st = Thr::DONE;
    T.done++;
    reschedule(T);
    abort();
}
void lock(Team &T, void *key) {
    Lock &l = T.locks[key];
    Thr &t = me(T);
    t.st = Thr::LOCKWAIT; t.lock = &l;
    reschedule(T);
    while (l.owner >= 0) reschedule(T);
    t.st = Thr::READY;
    l.owner = T.now;
    t.vc.join(l.vc);
}
void unlock(Team &T, void *key) {
    Lock &l = T.locks[key];
    if (l.owner != T.now) violation("omp-misuse:unlock", "a lock is released by a thread which does not hold it");
    l.owner = -1;
    l.vc.join(me(T).vc);
    tick(T);
    if (T.n > 1) reschedule(T);
}
char *new_stack() {
    if (!stacks.empty()) { char *p = stacks.back(); stacks.pop_back(); return p; }
    char *p = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(p, 4096, PROT_NONE);
    return p;
}
void parallel(void (*fn)(void *), void *data, unsigned nt, WorkShare *pre) {
    if (cur < 0 || teams[cur]) { // nested: one thread
        fn(data);
        return;
    }
    int n = nt ? (int)nt : maxthr[cur];
    if (n > TMAX) n = TMAX;
    // the runtime may provide fewer threads than asked for
    if (n > 1 && thr_dynamic && chance(25)) n = 1 + choose(n);
    event("omp.parallel", n);
    sim::count("omp.regions", 1);
    if (n > 1) sim::count("omp.regions_threaded", 1);
    Team T;
    T.n = n; T.fn = fn; T.data = data;
    if (pre) { T.ws[0] = *pre; T.ws[0].init = true; T.preset = 1; }
    for (int i = 0; i < n; i++) {
        Thr &t = T.t[i];
        for (int u = 0; u < TMAX; u++) t.vc.c[u] = base[cur];
        t.vc.c[i]++;
        if (pre) t.ws = 0;
        if (i) {
            t.stack = new_stack();
            getcontext(&t.ctx);
            t.ctx.uc_stack.ss_sp = t.stack;
            t.ctx.uc_stack.ss_size = STK;
            t.ctx.uc_link = nullptr;
            makecontext(&t.ctx, (void (*)())thread_main, 1, cur);
        }
    }
    if (!nactive) { gen++; used = 0; }
    nactive++;
    teams[cur] = &T;
    T.budget = draw_budget();
    if (n > 1) reschedule(T);
    fn(data);
    T.t[0].st = Thr::ENDWAIT;
    T.done++;
    while (T.done < n) reschedule(T);
    for (int i = 0; i < n; i++)
        for (int u = 0; u < n; u++) base[cur] = std::max(base[cur], T.t[i].vc.c[u] + 1);
    for (int i = 1; i < n; i++) stacks.push_back(T.t[i].stack);
    teams[cur] = nullptr;
    nactive--;
}
std::string where(void *pc) {
    Dl_info d;
    std::ostringstream os;
    if (dladdr(pc, &d) && d.dli_fname) {
        if (d.dli_sname) {
            int st;
            char *dm = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
            os << "in or after " << std::string(dm ? dm : d.dli_sname).substr(0, 160);
        }
        os << " +" << std::hex << ((char *)pc - (char *)d.dli_fbase);
    }
    return os.str();
}
bool norace[MAXR];
void race(Team &T, int u, const char *a, const char *b, void *pc) {
    if (norace[cur]) return;
    std::ostringstream os;
    os << "rank " << cur << ": thread " << T.now << " " << a << " memory which thread " << u << " " << b << " in the same parallel region, and nothing orders the two (" << where(pc) << ")";
    violation("data-race", os.str());
}
void check(Team &T, uintptr_t p, size_t n, bool w, void *pc) {
    int id = T.now;
    VC &v = T.t[id].vc;
    for (uintptr_t a = p; a < p + n;) {
        uintptr_t g = a >> 3;
        unsigned lo = a & 7, hi = (unsigned)std::min<uintptr_t>(8, lo + (p + n - a));
        uint8_t m = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
        Cell *c = find(g, true);
        if (!c) return;
        for (int u = 0; u < T.n; u++)
            if (u != id) {
                if ((c->wm[u] & m) && c->wc[u] > v.c[u]) race(T, u, w ? "writes" : "reads", "wrote", pc);
                if (w && (c->rm[u] & m) && c->rc[u] > v.c[u]) race(T, u, "writes", "read", pc);
            }
        uint32_t k = v.c[id];
        if (w) {
            if (c->wc[id] == k) c->wm[id] |= m;
            else { c->wc[id] = k; c->wm[id] = m; }
        } else {
            if (c->rc[id] == k) c->rm[id] |= m;
            else { c->rc[id] = k; c->rm[id] = m; }
        }
        a += hi - lo;
    }
}
bool own_stack(Team &T, uintptr_t p) {
    char *s = T.t[T.now].stack;
    return s && p >= (uintptr_t)s && p < (uintptr_t)s + STK;
}
inline void access(void *p, size_t n, bool w, void *pc) {
    if (__builtin_expect(!nactive, 1)) return;
    Team *T = my();
    if (!T || T->n < 2) return;
    if (own_stack(*T, (uintptr_t)p)) return;
    check(*T, (uintptr_t)p, n, w, pc);
    if (--T->budget <= 0) { sim::count("omp.preemptions", 1); reschedule(*T); }
}
void atomic_sync(void *p, size_t n, void *pc) {
    if (__builtin_expect(!nactive, 1)) return;
    Team *T = my();
    if (!T || T->n < 2) return;
    reschedule(*T);
    VC &a = T->atomics[p];
    me(*T).vc.join(a);
    check(*T, (uintptr_t)p, n, true, pc);
    a.join(me(*T).vc);
    tick(*T);
}
bool ws_take(Team &T, WorkShare &w, long *a, long *b) {
    if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
    long ch = w.chunk < 1 ? 1 : w.chunk;
    long s = w.next, e = s + ch * w.incr;
    if (w.incr > 0 ? e > w.end : e < w.end) e = w.end;
    w.next = e;
    *a = s; *b = e;
    return true;
}
bool loop_start(long s, long e, long i, long ch, long *a, long *b) {
    Team *T = my();
    if (!T) { // outside a region: everything
        if (i > 0 ? s >= e : s <= e) return false;
        *a = s; *b = e;
        return true;
    }
    Thr &t = me(*T);
    t.ws++;
    WorkShare &w = T->ws[t.ws];
    if (!w.init) { w.init = true; w.next = s; w.end = e; w.incr = i; w.chunk = ch; }
    if (T->n > 1) reschedule(*T);
    return ws_take(*T, w, a, b);
}
bool loop_next(long *a, long *b) {
    Team *T = my();
    if (!T) return false;
    if (T->n > 1) reschedule(*T);
    return ws_take(*T, T->ws[me(*T).ws], a, b);
}
} // namespace

namespace sim {
bool omp_worker() { Team *T = my(); return T && T->n > 1 && T->now != 0; }
void omp_reset() {
    for (int i = 0; i < MAXR; i++) { teams[i] = nullptr; maxthr[i] = std::min<long>(TMAX, std::max<long>(1, P("threads", 1))); }
    nactive = 0;
    std::fill(norace, norace + MAXR, false);
    thr_pol = P("thr_pol", 0);
    thr_dynamic = P("thr_dynamic", 0);
    memset(base, 0, sizeof base);
    gen++;
    used = 0;
    if (!cells && P("threads", 0) > 0)
        cells = (Cell *)mmap(nullptr, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
// memory newly allocated has no history
void heap_fresh(void *p, size_t n) {
    if (!nactive) return;
    for (uintptr_t g = (uintptr_t)p >> 3; g < ((uintptr_t)p + n + 7) >> 3; g++)
        if (Cell *c = find(g, false)) { memset(c->rm, 0, sizeof c->rm); memset(c->wm, 0, sizeof c->wm); }
}
} // namespace sim

extern "C" {
// ---------------------------------------------------------------- libgomp
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) { parallel(fn, data, nt, nullptr); }
void sim_races(int on) { norace[cur] = !on; }
void GOMP_barrier() { if (Team *T = my()) barrier(*T); }
static char crit, atom;
void GOMP_critical_start() { if (Team *T = my()) lock(*T, &crit); }
void GOMP_critical_end() { if (Team *T = my()) unlock(*T, &crit); }
void GOMP_critical_name_start(void **p) { if (Team *T = my()) lock(*T, p); }
void GOMP_critical_name_end(void **p) { if (Team *T = my()) unlock(*T, p); }
void GOMP_atomic_start() { if (Team *T = my()) lock(*T, &atom); }
void GOMP_atomic_end() { if (Team *T = my()) unlock(*T, &atom); }
bool GOMP_single_start() {
    Team *T = my();
    if (!T) return true;
    if (T->n > 1) reschedule(*T);
    return T->singles.insert(me(*T).singles++).second;
}
#define LOOPS(kind)                                                                                                              \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }      \
    bool GOMP_loop_##kind##_next(long *a, long *b) { return loop_next(a, b); }                                                    \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, long c, unsigned) {       \
        WorkShare w; w.next = s; w.end = e; w.incr = i; w.chunk = c;                                                             \
        parallel(fn, data, nt, &w);                                                                                              \
    }
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
#define LOOPS_RT(kind)                                                                                                           \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }              \
    bool GOMP_loop_##kind##_next(long *a, long *b) { return loop_next(a, b); }                                                    \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, unsigned) {               \
        WorkShare w; w.next = s; w.end = e; w.incr = i; w.chunk = 1;                                                             \
        parallel(fn, data, nt, &w);                                                                                              \
    }
LOOPS_RT(runtime) LOOPS_RT(maybe_nonmonotonic_runtime) LOOPS_RT(nonmonotonic_runtime)
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) {
    if (!cpy) { fn(data); return; }
    char *buf = (char *)malloc(sz + al);
    char *p = (char *)(((uintptr_t)buf + al - 1) & ~(uintptr_t)(al - 1));
    cpy(p, data);
    fn(p);
    free(buf);
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
int omp_get_thread_num() { Team *T = my(); return T ? T->now : 0; }
int omp_get_num_threads() { Team *T = my(); return T ? T->n : 1; }
int omp_get_max_threads() { return cur >= 0 ? (teams[cur] ? 1 : maxthr[cur]) : 1; }
void omp_set_num_threads(int n) { if (cur >= 0) maxthr[cur] = n < 1 ? 1 : n > TMAX ? TMAX : n; }
int omp_get_num_procs() { return TMAX; }
int omp_get_thread_limit() { return TMAX; }
int omp_in_parallel() { Team *T = my(); return T && T->n > 1; }
int omp_get_level() { return my() ? 1 : 0; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 1; }
void omp_set_nested(int) {}
double omp_get_wtime() { return now_ns(cur) * 1e-9; }
typedef struct { void *p; } omp_lock_sim;
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *l) { if (Team *T = my()) lock(*T, l); }
void omp_unset_lock(void *l) { if (Team *T = my()) unlock(*T, l); }
int omp_test_lock(void *l) {
    Team *T = my();
    if (!T) return 1;
    reschedule(*T);
    if (T->locks[l].owner >= 0) return 0;
    T->locks[l].owner = T->now;
    me(*T).vc.join(T->locks[l].vc);
    return 1;
}

// ---------------------------------------------------------------- what -fsanitize=thread inserts
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                              \
    void __tsan_read##n(void *p) { access(p, n, false, PC); }              \
    void __tsan_write##n(void *p) { access(p, n, true, PC); }              \
    void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); }     \
    void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); }     \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); }    \
    void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(b, T)                                                                                                                                  \
    T __tsan_atomic##b##_load(const volatile T *p, int) { atomic_sync((void *)p, b / 8, PC); return *p; }                                         \
    void __tsan_atomic##b##_store(volatile T *p, T v, int) { atomic_sync((void *)p, b / 8, PC); *p = v; }                                          \
    T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { atomic_sync((void *)p, b / 8, PC); T o = *p; *p = v; return o; }                      \
    T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { atomic_sync((void *)p, b / 8, PC); T o = *p; *p = o + v; return o; }                 \
    T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { atomic_sync((void *)p, b / 8, PC); T o = *p; *p = o - v; return o; }                 \
    T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { atomic_sync((void *)p, b / 8, PC); T o = *p; *p = o & v; return o; }                 \
    T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { atomic_sync((void *)p, b / 8, PC); T o = *p; *p = o | v; return o; }                  \
    T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { atomic_sync((void *)p, b / 8, PC); T o = *p; *p = o ^ v; return o; }                 \
    T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int) { atomic_sync((void *)p, b / 8, PC); T o = *p; *p = ~(o & v); return o; }             \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) {                                                          \
        atomic_sync((void *)p, b / 8, PC);                                                                                                        \
        T o = *p;                                                                                                                                 \
        if (o == *e) { *p = v; return 1; }                                                                                                        \
        *e = o;                                                                                                                                   \
        return 0;                                                                                                                                 \
    }                                                                                                                                             \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int c) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, a, c); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int, int) {                                                                \
        atomic_sync((void *)p, b / 8, PC);                                                                                                        \
        T o = *p;                                                                                                                                 \
        if (o == e) *p = v;                                                                                                                       \
        return o;                                                                                                                                 \
    }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
typedef unsigned __int128 u128;
AT(128, u128)
}
