// Deterministic simulator core: shared arena, decisions, fibers, scheduler, clocks, signals,
// process control (exit/abort/assert), driver main().
#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <cerrno>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <malloc.h>
#include <iostream>
#include <sstream>
#include <fstream>
#include <set>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <sys/syscall.h>

namespace sim {
Shared *sh;
bool tracing = false;
std::vector<Rank> ranks;
int nranks = 0;
int cur = -1;
int epoch = 0;
uint64_t seed = 1;
std::string scratch;
bool faults_off[MAXR + 1];
static ucontext_t sched_ctx;
static std::map<std::string, std::string> plan;
static Prng rng_sched, rng_time;
static std::vector<uint16_t> replay;
static bool replaying = false;
static long ep_events = 0;
static long long clock_ns = 0;
static long crash_at = -1, sig_at = -1, sig_rank = -1;
static int pol = 0, starve = -1;
static long pol_change = 0;
static long maxsteps;
static int last_run = -1;

// ------------------------------------------------------------------ plan
static const std::string *plan_get(const char *key) {
    char k[160];
    snprintf(k, sizeof k, "e%d.%s", epoch, key);
    auto it = plan.find(k);
    if (it == plan.end()) it = plan.find(key);
    return it == plan.end() ? nullptr : &it->second;
}
long P(const char *key, long def) {
    auto *s = plan_get(key);
    return s ? strtol(s->c_str(), nullptr, 0) : def;
}
const char *PS(const char *key, const char *def) {
    auto *s = plan_get(key);
    return s ? s->c_str() : def;
}
void count(const char *name, long n) {
    if (n && !strncmp(name, "fault.", 6)) sh->nfault += n;
    for (int i = 0; i < sh->ncounters; i++)
        if (!strcmp(sh->counters[i].name, name)) { sh->counters[i].v += n; return; }
    if (sh->ncounters < 256) {
        Counter &c = sh->counters[sh->ncounters++];
        snprintf(c.name, sizeof c.name, "%s", name);
        c.v = n;
    }
}
void trace_line(const char *fmt, ...) {
    if (!tracing) return;
    if (sh->ntrace + 2048 > TRACESZ) return;
    char *p = sh->trace + sh->ntrace;
    int k = snprintf(p, 64, "%6ld r%-2d ", ep_events, cur);
    va_list ap;
    va_start(ap, fmt);
    int m = vsnprintf(p + k, 1900, fmt, ap);
    va_end(ap);
    if (m > 1899) m = 1899;
    p[k + m] = '\n';
    sh->ntrace += k + m + 1;
}

// ------------------------------------------------------------------ ending an epoch
static void save_stdout();
static void layout_refused();
const char *heap_check(char *b, size_t nb);
void heap_reset();
[[noreturn]] void end_epoch(int outcome) {
    sh->outcome = outcome;
    layout_refused();
    if (!sh->violated && outcome != 2) {
        char b[300];
        if (heap_check(b, sizeof b)) {
            sh->violated = 1;
            snprintf(sh->cls, sizeof sh->cls, "heap-misuse");
            snprintf(sh->msg, sizeof sh->msg, "%s", b);
            trace_line("VIOLATION heap-misuse: %s", b);
        }
    }
    save_stdout();
    sh->sim_ns += clock_ns;
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}
[[noreturn]] void violation(const char *cls, const std::string &msg) {
    if (!sh->violated) {
        sh->violated = 1;
        snprintf(sh->cls, sizeof sh->cls, "%s", cls);
        snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
        trace_line("VIOLATION %s: %s", cls, msg.c_str());
    }
    end_epoch(9);
}

// ------------------------------------------------------------------ decisions
uint32_t decide(uint32_t n, const std::function<uint32_t()> &propose) {
    if (n <= 1) return 0;
    uint32_t v;
    if (replaying) v = sh->ndec < replay.size() ? replay[sh->ndec] % n : 0;
    else v = propose();
    if (sh->ndec < NDEC) sh->dec[sh->ndec] = (uint16_t)v;
    sh->ndec++;
    return v;
}
uint32_t choose(uint32_t n) { return decide(n, [n] { return rng_sched.below(n); }); }
bool chance(uint32_t percent) {
    if (percent == 0) return false;
    return decide(2, [percent] { return rng_sched.below(100) < percent ? 1u : 0u; }) == 1;
}

// ------------------------------------------------------------------ events
void event(const char *what, long a, long b, long c) {
    ep_events++;
    sh->nevents++;
    uint64_t w = hash_str(what);
    sh->hash = mix(sh->hash ^ mix(w + 1000003ull * (uint64_t)(cur + 2)) ^ mix((uint64_t)a * 7 + 1) ^
                   mix((uint64_t)b * 131 + 2) ^ mix((uint64_t)c * 65537 + 3));
    if (tracing) trace_line("%s %ld %ld %ld", what, a, b, c);
    if (!faults_off[cur < 0 ? MAXR : cur] && crash_at >= 0 && ep_events >= crash_at) {
        count("fault.kill_job", 1);
        trace_line("FAULT kill of the whole job");
        end_epoch(2);
    }
    if (sig_at >= 0 && ep_events >= sig_at) {
        if (sig_rank >= 0 && sig_rank < nranks) ranks[sig_rank].pending_sig.push_back(SIGUSR1);
        count("fault.signal", 1);
        trace_line("FAULT SIGUSR1 to rank %ld", sig_rank);
        sig_at = -1;
    }
}
static void advance_time() {
    clock_ns += 50 + (long long)(rng_time.next() % 2000);
}
long long now_ns(int r) { return clock_ns + (r >= 0 && r < (int)ranks.size() ? ranks[r].skew : 0); }

// ------------------------------------------------------------------ fibers
extern "C" void **__cxa_get_globals_raw();
static void *eh_globals();
static void eh_save(void **d) { memcpy(d, eh_globals(), sizeof(void *) + sizeof(int)); }
static void eh_load(void **d) { memcpy(eh_globals(), d, sizeof(void *) + sizeof(int)); }
} // namespace sim
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }
namespace sim {
static void *eh_globals() { return (void *)__cxxabiv1::__cxa_get_globals(); }

static void to_sched() {
    Rank &r = ranks[cur];
    int me = cur;
    r.err = errno;
    eh_save(r.eh);
    swapcontext(&r.ctx, &sched_ctx);
    cur = me;
    eh_load(ranks[me].eh);
    errno = ranks[me].err;
    if (!ranks[me].pending_sig.empty()) {
        auto v = ranks[me].pending_sig;
        ranks[me].pending_sig.clear();
        for (int s : v) {
            ranks[me].sigseen++;
            auto it = ranks[me].handlers.find(s);
            if (it != ranks[me].handlers.end() && it->second) {
                trace_line("signal handler %d runs", s);
                it->second(s);
            } else if (s == SIGUSR1) {
                rank_exit(128 + s, "killed by signal");
            }
        }
    }
}
void yield_point() {
    if (cur < 0) return;
    ranks[cur].st = READY;
    to_sched();
}
void block(const char *what, std::function<bool()> pred) {
    while (!pred()) {
        Rank &r = ranks[cur];
        r.st = BLOCKED;
        r.waiting = what;
        r.pred = pred;
        to_sched();
        ranks[cur].st = READY;
        ranks[cur].waiting = "";
    }
}
static int (*harness_mains[MAXR])(int, char **);
static bool threaded; // the harness is built for threads
static void (*harness_plan)(uint64_t, int, char *, size_t);
static void (*harness_post)(int);
static std::vector<std::string> argv_store;
static std::vector<char *> argv_ptr;

static bool finished[MAXR]; // the program of this rank is through: it may end with success
[[noreturn]] void rank_exit(int code, const char *how) {
    Rank &r = ranks[cur];
    trace_line("rank ends: %s code %d", how, code);
    r.code = code;
    r.exited = true;
    sh->exit_code[cur] = code;
    // MPI semantics: a process that leaves after MPI_Init without completing MPI_Finalize,
    // or with a non-zero code, makes the launcher kill the job.
    if ((r.inited && !r.finalized) || code != 0) {
        sh->exit_code[cur] = code ? code : 1;
        for (int i = 0; i < nranks; i++)
            if (i != cur && ranks[i].st != DONE) sh->exit_code[i] = -9;
        std::ostringstream os;
        os << "rank " << cur << " ended the job: " << how << " code " << code;
        if (r.inited && !r.finalized) os << " (without MPI_Finalize)";
        trace_line("%s", os.str().c_str());
        sim_put("job_end", os.str().c_str(), os.str().size() + 1);
        end_epoch(1);
    }
    if (!finished[cur] && strcmp(how, "return from main"))
        violation("ended-early", "rank " + std::to_string(cur) + " ended with success (" + how + ") before its program was through");
    r.st = DONE;
    to_sched();
    __builtin_unreachable();
}
static void fiber_main(int me) {
    cur = me;
    int code = harness_mains[me]((int)argv_ptr.size() - 1, argv_ptr.data());
    rank_exit(code, "return from main");
}

std::string describe_waiting() {
    std::ostringstream os;
    for (int i = 0; i < nranks; i++) {
        os << " rank" << i << "=" << (ranks[i].st == DONE ? "done" : ranks[i].st == BLOCKED ? ranks[i].waiting : "ready");
    }
    return os.str();
}

// choose the index of the next action among `acts` (ranks first)
static uint32_t propose_action(const std::vector<Action> &acts, size_t nrk) {
    size_t n = acts.size();
    if (pol == 1) { // run to block
        if (nrk && acts[0].rank == last_run && rng_sched.below(8)) return 0;
        return rng_sched.below(n);
    }
    if (pol == 2) { // one slow rank
        for (int t = 0; t < 4; t++) {
            uint32_t k = rng_sched.below(n);
            if (!(acts[k].kind == 0 && acts[k].rank == starve) || rng_sched.below(64) == 0) return k;
        }
        return rng_sched.below(n);
    }
    if (pol == 3) { // lazy network
        if (nrk && rng_sched.below(32)) return rng_sched.below(nrk);
        return rng_sched.below(n);
    }
    if (pol == 4) { // eager network
        if (n > nrk && rng_sched.below(16)) return nrk + rng_sched.below(n - nrk);
        return rng_sched.below(n);
    }
    if (pol == 5) { // priorities with change points
        if ((long)sh->nsteps >= pol_change) {
            ranks[rng_sched.below(nranks)].prio = rng_sched.below(1000);
            pol_change = sh->nsteps + 1 + rng_sched.below(400);
        }
        if (n > nrk && rng_sched.below(3) == 0) return nrk + rng_sched.below(n - nrk);
        if (nrk == 0) return rng_sched.below(n);
        uint32_t best = 0;
        for (uint32_t i = 1; i < nrk; i++)
            if (ranks[acts[i].rank].prio > ranks[acts[best].rank].prio) best = i;
        return best;
    }
    return rng_sched.below(n);
}

static void run_scheduler() {
    std::vector<Action> acts;
    for (;;) {
        acts.clear();
        bool alldone = true;
        auto consider = [&](int i) {
            Rank &r = ranks[i];
            if (r.st == DONE) return;
            alldone = false;
            if (r.st == READY || (r.st == BLOCKED && (r.pred() || !r.pending_sig.empty())))
                acts.push_back({0, nullptr, i});
        };
        if (last_run >= 0) consider(last_run);
        for (int i = 0; i < nranks; i++)
            if (i != last_run) consider(i);
        if (alldone) return;
        size_t nrk = acts.size();
        mpi_actions(acts);
        if (acts.empty()) { // nothing to do before the first sleeper wakes
            long long w = 0;
            for (int i = 0; i < nranks; i++)
                if (ranks[i].st == BLOCKED && ranks[i].wake_ns > clock_ns && (!w || ranks[i].wake_ns < w)) w = ranks[i].wake_ns;
            if (w) {
                clock_ns = w;
                continue;
            }
            cur = -1;
            violation("deadlock", "no rank can proceed and no message is in flight:" + describe_waiting());
        }
        sh->nsteps++;
        if ((long)sh->nsteps > maxsteps) {
            cur = -1;
            violation("livelock", "no completion within the step bound:" + describe_waiting());
        }
        advance_time();
        uint32_t k = decide(acts.size(), [&] { return propose_action(acts, nrk); });
        Action a = acts[k];
        if (a.kind == 0) {
            if (a.rank != last_run) sh->nswitch++;
            last_run = a.rank;
            cur = a.rank;
            swapcontext(&sched_ctx, &ranks[a.rank].ctx);
            cur = -1;
        } else {
            cur = -1;
            mpi_perform(a);
        }
    }
}

// ------------------------------------------------------------------ stdout capture
class CaptureBuf : public std::streambuf {
  public:
    std::string text[MAXR + 1];
    int overflow(int c) override { if (c != EOF) text[cur < 0 ? MAXR : cur].push_back((char)c); return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char *s, std::streamsize n) override {
        text[cur < 0 ? MAXR : cur].append(s, n);
        return n;
    }
};
static CaptureBuf *capbuf;
// the library declines a lattice it cannot divide: the run ends with an error before any field is communicated
static void layout_refused() {
    // by a message and exit(1), never by a failed assertion, an exception or a crash
    char b[8], je[400];
    if (sim_get("job_end", je, sizeof je) <= 0 || !strstr(je, ": exit() code 1")) return;
    if (sh->outcome == 1 && nranks && !payload_sent && capbuf->text[0].find("test error") == std::string::npos &&
        (sim_get("setup_done", b, sizeof b) <= 0 || b[0] != '1' + sim_epoch())) {
        b[0] = '1' + sim_epoch();
        sim_put("layout_refused", b, 1);
        sim::count("layout.refused", 1);
    }
}
static void save_stdout() {
    for (int i = 0; i < MAXR; i++) {
        const std::string &t = capbuf->text[i];
        size_t n = std::min(t.size(), OUTSZ - 1);
        memcpy(sh->out[i], t.data() + (t.size() - n), n);
        sh->out[i][n] = 0;
        sh->nout[i] = n;
    }
}

// ------------------------------------------------------------------ crash handlers
static void fatal_handler(int s, siginfo_t *si, void *) {
    char b[128];
    if (s == SIGPROF || s == SIGVTALRM) {
        snprintf(b, sizeof b, "a rank used its CPU budget without reaching a communication, I/O or clock call");
        if (!sh->violated) {
            sh->violated = 1;
            snprintf(sh->cls, sizeof sh->cls, "hang");
            snprintf(sh->msg, sizeof sh->msg, "rank %d: %s", cur, b);
        }
    } else if (!sh->violated) {
        sh->violated = 1;
        snprintf(sh->cls, sizeof sh->cls, "crash:%s", s == SIGSEGV ? "SIGSEGV" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : s == SIGILL ? "SIGILL" : s == SIGABRT ? "SIGABRT" : "signal");
        snprintf(sh->msg, sizeof sh->msg, s == SIGABRT ? "rank %d: the C library found the heap corrupted" : "rank %d received a fatal signal", cur);
        if (tracing) {
            Dl_info di;
            void *pc = nullptr;
            (void)si;
            (void)pc; (void)di;
        }
    }
    sh->outcome = 9;
    syscall(SYS_exit_group, 0);
}
} // namespace sim

// ================================================================== C API
using namespace sim;
extern "C" {
int sim_rank() { return cur; }
int sim_nranks() { return nranks; }
int sim_epoch() { return epoch; }
uint64_t sim_seed() { return seed; }
long sim_param(const char *k, long d) { return P(k, d); }
const char *sim_param_s(const char *k, const char *d) { return PS(k, d); }
void sim_violation(const char *cls, const char *fmt, ...) {
    char b[3000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    char c[3200];
    if (cur >= 0) snprintf(c, sizeof c, "rank %d of %d: %s", cur, nranks, b);
    else snprintf(c, sizeof c, "%s", b);
    violation(cls, c);
}
void sim_note(const char *fmt, ...) {
    if (!tracing) return;
    char b[1800];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    trace_line("%s", b);
}
void sim_count(const char *n, long v) { count(n, v); }
void sim_state(uint64_t h) {
    if (sh->nstates < 4096) sh->states[sh->nstates++] = h;
}
// blobs: [u32 klen][u32 dlen][key][data], later entries override
void sim_put(const char *key, const void *d, size_t n) {
    uint32_t kl = strlen(key), dl = n;
    if (sh->nblob + 8 + kl + dl > BLOBSZ) { sh->violated = 2; snprintf(sh->msg, 4096, "blob arena full"); end_epoch(9); }
    char *p = sh->blob + sh->nblob;
    memcpy(p, &kl, 4); memcpy(p + 4, &dl, 4); memcpy(p + 8, key, kl); memcpy(p + 8 + kl, d, dl);
    sh->nblob += 8 + kl + dl;
}
static const char *blob_find(const char *key, uint32_t &len) {
    const char *res = nullptr;
    size_t kl0 = strlen(key);
    for (size_t o = 0; o < sh->nblob;) {
        uint32_t kl, dl;
        memcpy(&kl, sh->blob + o, 4); memcpy(&dl, sh->blob + o + 4, 4);
        if (kl == kl0 && !memcmp(sh->blob + o + 8, key, kl)) { res = sh->blob + o + 8 + kl; len = dl; }
        o += 8 + kl + dl;
    }
    return res;
}
long sim_get(const char *key, void *d, size_t max) {
    uint32_t len = 0;
    const char *p = blob_find(key, len);
    if (!p) return -1;
    memcpy(d, p, std::min<size_t>(max, len));
    return len;
}
static std::map<std::string, std::pair<int, std::string>> *agree_map;
void sim_agree(const char *key, const void *d, size_t n) {
    if (!agree_map) agree_map = new std::map<std::string, std::pair<int, std::string>>;
    std::string v((const char *)d, n);
    auto it = agree_map->find(key);
    if (it == agree_map->end()) { (*agree_map)[key] = {cur, v}; return; }
    if (it->second.second != v) {
        char b[600];
        std::string x, y;
        auto hex = [](const std::string &s) {
            std::string o; char t[4];
            for (size_t i = 0; i < s.size() && i < 32; i++) { snprintf(t, 4, "%02x", (unsigned char)s[i]); o += t; }
            return o;
        };
        x = hex(it->second.second); y = hex(v);
        snprintf(b, sizeof b, "'%s' differs between ranks: rank %d has %s (%zu bytes), rank %d has %s (%zu bytes)", key,
                 it->second.first, x.c_str(), it->second.second.size(), cur, y.c_str(), n);
        violation("rank-disagreement", b);
    }
}
long sim_events() { return ep_events; }
void sim_yield() { event("yield"); yield_point(); }
void sim_faults(int on) { faults_off[cur < 0 ? MAXR : cur] = !on; }
const char *sim_dir() { return scratch.c_str(); }
const char *sim_stdout(int r) {
    static std::string t;
    if (epoch >= 0 && sh->outcome < 0) { t = capbuf->text[r]; return t.c_str(); }
    return sh->out[r];
}
void sim_advance_clock(long long ns) { clock_ns += ns; }
void sim_realtime_jump(long long ns) { for (auto &r : ranks) r.rtskew += ns; event("rtjump"); count("fault.realtime_jump", 1); }
long sim_signals(int r) { return r >= 0 && r < nranks ? ranks[r].sigseen : 0; }
long long sim_clock_ns() { return clock_ns; }
int sim_outcome() { return sh->outcome; }
void sim_finished() { if (cur >= 0) finished[cur] = true; }
int sim_exit_code(int r) { return sh->exit_code[r]; }

// ---- process control seams
void exit(int code) {
    if (cur >= 0) { event("exit", code); rank_exit(code, "exit()"); }
    fflush(nullptr);
    syscall(SYS_exit_group, code);
    __builtin_unreachable();
}
void _exit(int code) {
    if (cur >= 0) { event("_exit", code); rank_exit(code, "_exit()"); }
    syscall(SYS_exit_group, code);
    __builtin_unreachable();
}
void abort(void) {
    if (cur >= 0) {
        event("abort");
        rank_exit(134, "abort()");
    }
    fprintf(stderr, "simrun: abort outside a rank\n");
    syscall(SYS_exit_group, 70);
    __builtin_unreachable();
}
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    if (cur >= 0) {
        event("assert", l);
        char b[800];
        const char *s = strrchr(f, '/');
        snprintf(b, sizeof b, "assertion failed: %s (%s) in %s", e, s ? s + 1 : f, fn);
        b[400] = 0;
        trace_line("%s", b);
        sim_put("assert", b, strlen(b) + 1);
        rank_exit(134, b);
    }
    fprintf(stderr, "simrun: assertion %s at %s:%u\n", e, f, l);
    syscall(SYS_exit_group, 70);
    __builtin_unreachable();
}
// ---- clock seams
int clock_gettime(clockid_t id, struct timespec *tp) {
    if (cur < 0 && epoch < -1) return syscall(SYS_clock_gettime, id, tp);
    advance_time();
    long long t = now_ns(cur);
    if (id == CLOCK_REALTIME) t += 1700000000000000000ll + (cur >= 0 ? ranks[cur].rtskew : 0);
    tp->tv_sec = t / 1000000000ll;
    tp->tv_nsec = t % 1000000000ll;
    if (cur >= 0) event("clock", id);
    return 0;
}
int gettimeofday(struct timeval *tv, void *) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
time_t time(time_t *p) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
clock_t clock(void) {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
static int sim_sleep(long long ns) {
    if (cur < 0) return 0;
    event("sleep");
    Rank &r = ranks[cur];
    r.wake_ns = clock_ns + ns;
    Rank *rp = &r;
    block("sleep", [rp] { return clock_ns >= rp->wake_ns; });
    r.wake_ns = 0;
    return 0;
}
int usleep(useconds_t us) { return sim_sleep((long long)us * 1000); }
unsigned sleep(unsigned s) { return sim_sleep((long long)s * 1000000000ll); }
int nanosleep(const struct timespec *a, struct timespec *) { return sim_sleep(a->tv_sec * 1000000000ll + a->tv_nsec); }
int clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *) {
    long long t = a->tv_sec * 1000000000ll + a->tv_nsec;
    if (fl & TIMER_ABSTIME) { struct timespec n; clock_gettime(id, &n); t -= n.tv_sec * 1000000000ll + n.tv_nsec; }
    return sim_sleep(t > 0 ? t : 0);
}
int gethostname(char *n, size_t l) { snprintf(n, l, "simhost"); return 0; }
pid_t getpid(void) { return cur >= 0 ? 1000 + cur : (pid_t)syscall(SYS_getpid); }
// ---- signal seams
typedef void (*sighandler)(int);
sighandler signal(int s, sighandler h) noexcept {
    if (cur >= 0) {
        sighandler o = ranks[cur].handlers.count(s) ? ranks[cur].handlers[s] : SIG_DFL;
        ranks[cur].handlers[s] = (h == SIG_DFL || h == SIG_IGN) ? (h == SIG_IGN ? +[](int) {} : nullptr) : h;
        return o;
    }
    struct sigaction a {}, o {};
    a.sa_handler = h;
    typedef int (*sa_t)(int, const struct sigaction *, struct sigaction *);
    static sa_t real = (sa_t)dlsym(RTLD_NEXT, "sigaction");
    real(s, &a, &o);
    return o.sa_handler;
}
int sigaction(int s, const struct sigaction *a, struct sigaction *o) noexcept {
    if (cur >= 0) {
        if (o) { memset(o, 0, sizeof *o); o->sa_handler = ranks[cur].handlers.count(s) ? ranks[cur].handlers[s] : SIG_DFL; }
        if (a) ranks[cur].handlers[s] = a->sa_handler;
        return 0;
    }
    typedef int (*sa_t)(int, const struct sigaction *, struct sigaction *);
    static sa_t real = (sa_t)dlsym(RTLD_NEXT, "sigaction");
    return real(s, a, o);
}
int raise(int s) noexcept {
    if (cur >= 0) {
        if (s == SIGABRT) abort();
        auto it = ranks[cur].handlers.find(s);
        if (it != ranks[cur].handlers.end() && it->second) it->second(s);
        else rank_exit(128 + s, "raise()");
        return 0;
    }
    return syscall(SYS_kill, syscall(SYS_getpid), s);
}
} // extern C

// ================================================================== driver
namespace sim {
extern void fs_reset();
extern void omp_reset();

static void parse_plan(const std::string &txt) {
    plan.clear();
    std::istringstream is(txt);
    std::string ln;
    while (std::getline(is, ln)) {
        size_t e = ln.find('=');
        if (ln.empty() || ln[0] == '#' || e == std::string::npos) continue;
        plan[ln.substr(0, e)] = ln.substr(e + 1);
    }
}
static void plan_default(const char *k, long v) {
    if (!plan.count(k)) plan[k] = std::to_string(v);
}
static void fill_generic_plan() {
    Prng r;
    r.seed(seed, hash_str("generic"));
    // swarm: each run draws its own set of schedule and network habits
    plan_default("pol", r.below(6));
    static const int eag[] = {0, 100, 50, 20, 80, 0};
    plan_default("eager", eag[r.below(6)]);
    plan_default("starve", r.below(16));
    plan_default("redorder", r.below(3));
    plan_default("perturb", 1 + r.below(255));
    plan_default("skewms", r.below(2) ? 0 : r.below(4000));
    plan_default("poison", 1);
    plan_default("quar", r.below(3) > 0);
    plan_default("threads", 1 + r.below(6));
    plan_default("thr_pol", r.below(6));
    plan_default("thr_dynamic", r.below(3) == 0);
}

static void epoch_child(int ep) {
    epoch = ep;
    nranks = (int)P("nranks", 2);
    if (nranks > MAXR) nranks = MAXR;
    ep_events = 0;
    crash_at = P("crash_at", -1);
    sig_at = P("sig_at", -1);
    sig_rank = P("sig_rank", 0);
    pol = P("pol", 0);
    starve = nranks ? P("starve", 0) % nranks : 0;
    maxsteps = P("maxsteps", 6000000) + (long)sh->nsteps;
    rng_sched.seed(seed, hash_str("sched") + ep);
    rng_time.seed(seed, hash_str("time") + ep);
    if (replaying) { /* decisions continue from sh->ndec */ }
    for (int i = 0; i < MAXR; i++) sh->exit_code[i] = 0;
    sh->outcome = -1;
    mallopt(M_PERTURB, (int)P("perturb", 0));
    mallopt(M_MMAP_THRESHOLD, 1 << 30);
    struct rlimit rl = {6ull << 30, 6ull << 30};
    setrlimit(RLIMIT_AS, &rl);
    // what the ranks print through C stdio is not collected
    if (FILE *nul = fopen("/dev/null", "w")) stdout = nul;
    // crash handlers on an alternate stack
    stack_t ss{};
    ss.ss_size = 1 << 16;
    ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) {
        struct sigaction a{};
        a.sa_sigaction = fatal_handler;
        a.sa_flags = SA_SIGINFO | SA_ONSTACK;
        sigaction(s, &a, nullptr);
    }
    struct itimerval tv{};
    tv.it_value.tv_sec = P("cpu_s", threaded ? 20 : 4);
    setitimer(ITIMER_PROF, &tv, nullptr);

    // command line
    argv_store.clear();
    argv_store.push_back("harness");
    std::istringstream is(PS("args", ""));
    std::string t;
    while (is >> t) {
        if (t[0] == '\'') { // quoted argument with spaces
            std::string w = t.substr(1);
            while ((w.empty() || w.back() != '\'') && is.good()) w += (char)is.get();
            if (!w.empty() && w.back() == '\'') w.pop_back();
            t = w;
        }
        argv_store.push_back(t);
    }
    argv_ptr.clear();
    for (auto &s : argv_store) argv_ptr.push_back((char *)s.c_str());
    argv_ptr.push_back(nullptr);

    ranks.clear();
    ranks.resize(nranks);
    Prng rs;
    rs.seed(seed, hash_str("skew") + ep);
    long skewms = P("skewms", 0);
    for (int i = 0; i < nranks; i++) {
        Rank &r = ranks[i];
        r.cwd = scratch;
        r.prio = rs.below(1000);
        r.skew = skewms ? (long long)rs.below(skewms) * 1000000ll : 0;
        r.rtskew = skewms ? ((long long)rs.below(2 * skewms) - skewms) * 1000000ll : 0;
        size_t stk = 8u << 20;
        r.stack = (char *)mmap(nullptr, stk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(r.stack, 4096, PROT_NONE);
        getcontext(&r.ctx);
        r.ctx.uc_stack.ss_sp = r.stack;
        r.ctx.uc_stack.ss_size = stk;
        r.ctx.uc_link = nullptr;
        makecontext(&r.ctx, (void (*)())fiber_main, 1, i);
    }
    clock_ns = 1000000000ll * (1 + (long long)P("clock0", 100));
    mpi_reset(nranks);
    fs_reset();
    omp_reset();
    heap_reset();
    last_run = -1;
    pol_change = 0;
    run_scheduler();
    end_epoch(0);
}

extern void list_dir(const std::string &, std::vector<std::string> &);
static void rmtree(const std::string &d) {
    // only ever called on the scratch directory this process made
    std::string cmd = d;
    std::function<void(const std::string &)> rec = [&](const std::string &p) {
        struct stat st;
        if (lstat(p.c_str(), &st)) return;
        if (S_ISDIR(st.st_mode)) {
            // plain readdir
            FILE *f = nullptr;
            (void)f;
            std::vector<std::string> v;
            list_dir(p, v);
            for (auto &n : v) rec(p + "/" + n);
            rmdir(p.c_str());
        } else unlink(p.c_str());
    };
    if (d.size() > 8 && d.find("hilasim") != std::string::npos) rec(d);
}

struct RunResult { bool violated; };

// run one seed with the current `plan_text` (empty: ask the harness)
static void run_one(uint64_t sd, int tier, const std::string *plan_override, const char *scenario) {
    seed = sd;
    sh->violated = 0; sh->cls[0] = sh->msg[0] = 0;
    sh->hash = 1; sh->nevents = sh->nsteps = sh->nswitch = 0; sh->nfault = 0;
    sh->sim_ns = 0; sh->ncounters = 0; sh->ndec = sh->nblob = sh->ntrace = 0; sh->nstates = 0;
    sh->outcome = -1;
    if (plan_override) parse_plan(*plan_override);
    else {
        static char buf[1 << 16];
        buf[0] = 0;
        std::string pre = std::string("scenario=") + scenario + "\n";
        plan.clear();
        parse_plan(pre);
        epoch = 0;
        harness_plan(sd, tier, buf, sizeof buf);
        parse_plan(pre + buf);
        fill_generic_plan();
    }
    rmtree(scratch);
    mkdir(scratch.c_str(), 0755);
    int nep = 1;
    { auto it = plan.find("epochs"); if (it != plan.end()) nep = atoi(it->second.c_str()); }
    for (int e = 0; e < nep && !sh->violated; e++) {
        sh->outcome = -1;
        for (int post = 0; post < 2 && !sh->violated; post++) {
            if (post && !harness_post) break;
            pid_t p = fork();
            if (p == 0) {
                int keep = sh->outcome;
                if (!post) epoch_child(e);
                epoch = e; nranks = (int)P("nranks", 2); cur = -1;
                if (chdir(scratch.c_str())) {}
                signal(SIGSEGV, SIG_DFL);
                sh->outcome = keep;
                harness_post(e);
                syscall(SYS_exit_group, 0);
            }
            int st = 0;
            while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
            if (!sh->violated && (WIFSIGNALED(st) || WEXITSTATUS(st) != 0)) {
                sh->violated = 2;
                snprintf(sh->msg, sizeof sh->msg, "simulator child failed: status 0x%x (post=%d)", st, post);
            }
        }
        char lr[8];
        if (!sh->violated && !harness_post && sh->outcome == 1 && (sim_get("layout_refused", lr, sizeof lr) <= 0 || lr[0] != '1' + e)) {
            char je[400] = "job ended abnormally";
            sim_get("job_end", je, sizeof je);
            sh->violated = 1;
            snprintf(sh->cls, sizeof sh->cls, "abnormal-end");
            snprintf(sh->msg, sizeof sh->msg, "%s", je);
        }
    }
    rmtree(scratch);
}

static std::string json_str(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static std::string plan_text() {
    std::string s;
    for (auto &kv : plan) s += kv.first + "=" + kv.second + "\n";
    return s;
}
static double wall() {
    struct timespec t;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
} // namespace sim

int main(int argc, char **argv) {
    // fixed addresses where allowed, so that pointer values never differ between runs
    if (!getenv("SIM_NOASLR")) {
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE)) {
            setenv("SIM_NOASLR", "1", 1);
            if (personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
        }
    }
    std::string so, copies, scenario = "main", spec, outf, dirbase;
    uint64_t first = 1, step = 1, nmax = 1ull << 60;
    double tlimit = 1e9;
    int tier = 0, twice = 0;
    bool show = false, dump = false;
    std::string hashf;
    int maxviol = 1 << 30, nviol = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--so") so = nx();
        else if (a == "--scenario") scenario = nx();
        else if (a == "--first") first = strtoull(nx().c_str(), 0, 0);
        else if (a == "--step") step = strtoull(nx().c_str(), 0, 0);
        else if (a == "--n") nmax = strtoull(nx().c_str(), 0, 0);
        else if (a == "--time") tlimit = atof(nx().c_str());
        else if (a == "--tier") tier = atoi(nx().c_str());
        else if (a == "--spec") spec = nx();
        else if (a == "--trace") tracing = true;
        else if (a == "--stdout") show = true;
        else if (a == "--dump") dump = true;
        else if (a == "--twice") twice = atoi(nx().c_str());
        else if (a == "--scratch") dirbase = nx();
        else if (a == "--hashes") hashf = nx();
        else if (a == "--maxviol") maxviol = atoi(nx().c_str());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 64; }
    }
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 70; }
    if (dirbase.empty()) dirbase = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    // same length for every process so that path lengths do not matter
    char sb[200];
    snprintf(sb, sizeof sb, "%s/hilasim.%010ld", dirbase.c_str(), (long)syscall(SYS_getpid));
    scratch = sb;
    capbuf = new CaptureBuf;
    std::cout.rdbuf(capbuf);
    std::cerr.rdbuf(capbuf);
    // one private copy of the program image per rank
    for (int r = 0; r < MAXR; r++) {
        std::string f = so + "." + std::to_string(r);
        void *h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) {
            if (r > 0 && access(f.c_str(), F_OK) != 0) break;
            fprintf(stderr, "dlopen: %s\n", dlerror());
            return 70;
        }
        harness_mains[r] = (int (*)(int, char **))dlsym(h, "harness_main");
        if (r == 0) {
            harness_plan = (void (*)(uint64_t, int, char *, size_t))dlsym(h, "harness_plan");
            threaded = dlsym(h, "harness_threads") != nullptr;
            harness_post = (void (*)(int))dlsym(h, "harness_post");
        }
        if (!harness_mains[r]) { fprintf(stderr, "no harness_main in %s\n", f.c_str()); return 70; }
    }
    if (!harness_plan) { fprintf(stderr, "no harness_plan\n"); return 70; }
    int pfd = dup(1);
    FILE *out = fdopen(pfd, "w");
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);

    std::string specplan;
    uint64_t specseed = 0;
    if (!spec.empty()) {
        // spec: "seed=..", "decisions=a,b,c" (optional), then plan lines
        std::ifstream f(spec);
        std::string ln;
        bool have = false;
        while (std::getline(f, ln)) {
            if (ln.rfind("seed=", 0) == 0) specseed = strtoull(ln.c_str() + 5, 0, 0);
            else if (ln.rfind("decisions=", 0) == 0) {
                // run-length: v or vxN
                replaying = true;
                const char *p = ln.c_str() + 10;
                while (*p) {
                    char *e;
                    unsigned long v = strtoul(p, &e, 10), n = 1;
                    if (e == p) break;
                    if (*e == 'x') { p = e + 1; n = strtoul(p, &e, 10); }
                    for (unsigned long k = 0; k < n; k++) replay.push_back((uint16_t)v);
                    p = *e == ',' ? e + 1 : e;
                }
            } else if (!ln.empty() && ln[0] != '#') { specplan += ln + "\n"; have = true; }
        }
        (void)have;
        first = specseed;
        nmax = 1;
    }
    double t0 = wall();
    uint64_t runs = 0, tot_events = 0, tot_steps = 0, tot_switch = 0, nondet = 0, checked2 = 0;
    long long tot_ns = 0;
    std::map<std::string, long> cnt;
    std::set<uint64_t> hashes, states;
    std::map<std::string, int> seen;
    std::string sample;
    for (uint64_t i = 0; i < nmax && wall() - t0 < tlimit && nviol < maxviol; i++) {
        uint64_t sd = first + i * step;
        run_one(sd, tier, spec.empty() ? nullptr : &specplan, scenario.c_str());
        runs++;
        uint64_t h = sh->hash;
        if (twice && i % twice == 0 && spec.empty() && sh->violated != 2) {
            int v1 = sh->violated;
            std::string c1 = sh->cls;
            uint64_t d1 = sh->ndec;
            run_one(sd, tier, nullptr, scenario.c_str());
            checked2++;
            if (sh->hash != h || sh->violated != v1 || c1 != sh->cls || d1 != sh->ndec) {
                nondet++;
                fprintf(out, "{\"type\":\"nondet\",\"seed\":%llu,\"h1\":\"%016llx\",\"h2\":\"%016llx\",\"c1\":%s,\"c2\":%s}\n", (unsigned long long)sd,
                        (unsigned long long)h, (unsigned long long)sh->hash, json_str(c1).c_str(), json_str(sh->cls).c_str());
                fflush(out);
            }
        }
        tot_events += sh->nevents; tot_steps += sh->nsteps; tot_switch += sh->nswitch; tot_ns += sh->sim_ns;
        if (hashes.size() < 4000000 && (sh->nswitch >= 2 || sh->nfault)) hashes.insert(h);
        for (int k = 0; k < sh->nstates; k++) if (states.size() < 2000000) states.insert(sh->states[k]);
        for (int k = 0; k < sh->ncounters; k++) cnt[sh->counters[k].name] += sh->counters[k].v;
        if (sample.empty()) sample = plan_text();
        if (sh->violated) {
            int &n = seen[sh->violated == 2 ? std::string("!internal") : std::string(sh->cls)];
            n++;
            nviol++;
            if (n <= 3 || !spec.empty()) {
                fprintf(out, "{\"type\":\"%s\",\"seed\":%llu,\"cls\":%s,\"msg\":%s,\"hash\":\"%016llx\",\"steps\":%llu,\"ndec\":%llu,\"plan\":%s",
                        sh->violated == 2 ? "internal" : "violation", (unsigned long long)sd, json_str(sh->cls).c_str(),
                        json_str(sh->msg).c_str(), (unsigned long long)h, (unsigned long long)sh->nsteps,
                        (unsigned long long)sh->ndec, json_str(plan_text()).c_str());
                if (dump || !spec.empty()) {
                    fprintf(out, ",\"decisions\":\"");
                    size_t nd = std::min<size_t>(sh->ndec, NDEC);
                    for (size_t k = 0; k < nd;) {
                        size_t j = k;
                        while (j < nd && sh->dec[j] == sh->dec[k]) j++;
                        if (j - k > 1) fprintf(out, "%s%ux%zu", k ? "," : "", sh->dec[k], j - k);
                        else fprintf(out, "%s%u", k ? "," : "", sh->dec[k]);
                        k = j;
                    }
                    fprintf(out, "\"");
                }
                fprintf(out, "}\n");
                fflush(out);
            }
        } else if (!spec.empty()) {
            fprintf(out, "{\"type\":\"ok\",\"seed\":%llu,\"hash\":\"%016llx\",\"steps\":%llu,\"ndec\":%llu,\"plan\":%s}\n", (unsigned long long)sd, (unsigned long long)h,
                    (unsigned long long)sh->nsteps, (unsigned long long)sh->ndec, json_str(plan_text()).c_str());
        }
        if (tracing) { fflush(out); if (write(pfd, sh->trace, sh->ntrace)) {} }
        if (show)
            for (int r = 0; r < (int)P("nranks", 2); r++)
                if (sh->nout[r]) fprintf(out, "--- stdout of rank %d\n%s\n", r, sh->out[r]);
    }
    fprintf(out, "{\"type\":\"stats\",\"runs\":%llu,\"events\":%llu,\"steps\":%llu,\"switches\":%llu,\"sim_s\":%.6f,\"wall_s\":%.3f,\"distinct_schedules\":%zu,\"distinct_states\":%zu,\"twice\":%llu,\"nondet\":%llu,\"sample\":%s,\"classes\":{",
            (unsigned long long)runs, (unsigned long long)tot_events, (unsigned long long)tot_steps, (unsigned long long)tot_switch, tot_ns * 1e-9,
            wall() - t0, hashes.size(), states.size(), (unsigned long long)checked2, (unsigned long long)nondet, json_str(sample).c_str());
    bool f1 = true;
    for (auto &kv : seen) { fprintf(out, "%s%s:%d", f1 ? "" : ",", json_str(kv.first).c_str(), kv.second); f1 = false; }
    fprintf(out, "},\"counters\":{");
    f1 = true;
    for (auto &kv : cnt) { fprintf(out, "%s%s:%ld", f1 ? "" : ",", json_str(kv.first).c_str(), kv.second); f1 = false; }
    fprintf(out, "}}\n");
    fflush(out);
    if (!hashf.empty()) {
        FILE *hf = fopen(hashf.c_str(), "wb");
        if (hf) {
            for (uint64_t x : hashes) fwrite(&x, 8, 1, hf);
            fclose(hf);
        }
    }
    syscall(SYS_exit_group, 0);
}
