// Internal declarations shared by the simulator's translation units.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <ucontext.h>
#include "mpi.h"
#include "simapi.h"

namespace sim {

constexpr int MAXR = 16;

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
struct Prng {
    uint64_t s = 1;
    void seed(uint64_t a, uint64_t b) { s = mix(a * 0x9e3779b97f4a7c15ull + mix(b)); }
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    uint32_t below(uint32_t n) { return n <= 1 ? 0 : (uint32_t)((next() >> 32) % n); }
};
inline uint64_t hash_str(const char *p) {
    uint64_t h = 1469598103934665603ull;
    for (; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ull;
    return h;
}
inline uint64_t hash_bytes(const void *d, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *p = (const unsigned char *)d;
    while (n >= 8) { uint64_t v; __builtin_memcpy(&v, p, 8); h = mix(h ^ v); p += 8; n -= 8; }
    for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ull;
    return mix(h);
}

// ---------------------------------------------------------------- shared arena
constexpr size_t NDEC = 1u << 22;
constexpr size_t BLOBSZ = 24u << 20;
constexpr size_t TRACESZ = 32u << 20;
constexpr size_t OUTSZ = 1u << 16;
struct Counter { char name[48]; long v; };
struct Shared {
    int violated;             // 0 none, 1 violation, 2 internal error
    char cls[96];
    char msg[4096];
    int outcome;              // of the last epoch, -1 while running
    int exit_code[MAXR];
    uint64_t hash, nevents, nsteps, nswitch, nfault;
    long long sim_ns;
    int ncounters;
    Counter counters[256];
    size_t ndec, nblob, ntrace;
    int nstates; uint64_t states[4096];
    size_t nout[MAXR];
    char out[MAXR][OUTSZ];
    uint16_t dec[NDEC];
    char blob[BLOBSZ];
    char trace[TRACESZ];
};
extern Shared *sh;
extern bool tracing;

enum RState { READY, BLOCKED, DONE };
struct Rank {
    ucontext_t ctx;
    RState st = READY;
    std::function<bool()> pred;
    const char *waiting = "";
    void *eh[2] = {nullptr, nullptr};
    int err = 0;
    std::string cwd;
    std::map<int, void (*)(int)> handlers;
    std::vector<int> pending_sig;
    long sigseen = 0;
    bool inited = false, finalized = false, exited = false, in_finalize = false;
    int code = 0;
    long long skew = 0, rtskew = 0;
    int prio = 0;
    long long wake_ns = 0;  // when asleep: until then
    char *stack = nullptr;
    // OpenMP team of this rank lives in simomp.cpp
};
extern std::vector<Rank> ranks;
extern int nranks;
extern int cur;              // running rank, -1 in the scheduler
extern int epoch;
extern bool payload_sent;    // a rank has sent a message which is not empty
extern uint64_t seed;
extern std::string scratch;
extern bool faults_off[];

void event(const char *what, long a = 0, long b = 0, long c = 0); // hash, count, crash injection
void trace_line(const char *fmt, ...);
void yield_point();
void block(const char *what, std::function<bool()> pred);
uint32_t decide(uint32_t n, const std::function<uint32_t()> &propose);
uint32_t choose(uint32_t n);            // uniform, recorded
bool chance(uint32_t percent);          // recorded
[[noreturn]] void end_epoch(int outcome);
[[noreturn]] void violation(const char *cls, const std::string &msg);
[[noreturn]] void rank_exit(int code, const char *how);
long P(const char *key, long def);
const char *PS(const char *key, const char *def);
void count(const char *name, long n = 1);
long long now_ns(int rank);

// actions offered to the scheduler by other components
struct Action { int kind; void *p; int rank; };
void mpi_actions(std::vector<Action> &out);
void mpi_perform(const Action &a);
void mpi_reset(int n);
void mpi_check_finalize(int rank);
bool omp_worker();           // is a thread other than the first of its team running?
std::string describe_waiting();
} // namespace sim
