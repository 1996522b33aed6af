// The heap of the simulated ranks: every block has a guard before and after it, released blocks are kept for a
// while and must stay untouched, and what each rank holds is counted.  An allocation can be made to fail.
#include "sim.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>

using namespace sim;
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void __libc_free(void *);
}
namespace sim {
void heap_fresh(void *p, size_t n); // simomp.cpp: new memory has no access history

struct Hdr {
    uint64_t magic;
    size_t n;
    void *base;
    Hdr *prev, *next;
    int owner; // rank whose program asked for it, or -1: runtime libraries and the simulator
    int rank;  // rank which was running
    unsigned char front[16];
};
static_assert(sizeof(Hdr) == 64, "");
constexpr uint64_t LIVE = 0x11ea5bad0f00d5ull, DEAD = 0xdeadb10cdeadb10cull;
constexpr size_t TAIL = 32;
constexpr unsigned char FRONTB = 0xF1, TAILB = 0xA5, DEADB = 0xDB;
static Hdr *live; // blocks handed out while a rank was running
constexpr int NQ = 1024;
constexpr size_t QMAX = 1 << 20;
static Hdr *quar[NQ];
static int qpos;
static bool quarantine = true;
static long bytes_of[MAXR], blocks_of[MAXR], calls_of[MAXR];
static long fail_at = -1, ncalls, fail_rank = -1;

[[noreturn]] static void bad(const char *what, const Hdr *h) {
    char b[300];
    snprintf(b, sizeof b, "rank %d: %s (block of %zu bytes, obtained by rank %d)", cur, what, h ? h->n : (size_t)0, h ? h->rank : -1);
    violation("heap-misuse", b);
}
static const char *damage(const Hdr *h) {
    for (unsigned char c : h->front)
        if (c != FRONTB) return "memory just before an allocated block was overwritten";
    const unsigned char *t = (const unsigned char *)(h + 1) + h->n;
    for (size_t i = 0; i < TAIL; i++)
        if (t[i] != TAILB) return "memory just after an allocated block was overwritten";
    return nullptr;
}
static const char *dead_damage(const Hdr *h) {
    const unsigned char *t = (const unsigned char *)(h + 1);
    for (size_t i = 0; i < h->n; i++)
        if (t[i] != DEADB) return "memory was written after it was released";
    return nullptr;
}
static void *get(size_t n, size_t al, int owner, bool zero) {
    size_t extra = sizeof(Hdr) + TAIL + (al > 16 ? al : 0);
    if (n > (size_t)1 << 46) { errno = ENOMEM; return nullptr; }
    char *base = (char *)(zero ? __libc_calloc(1, n + extra) : __libc_malloc(n + extra));
    if (!base) { errno = ENOMEM; return nullptr; }
    uintptr_t u = (uintptr_t)base + sizeof(Hdr);
    if (al > 16) u = (u + al - 1) & ~(uintptr_t)(al - 1);
    Hdr *h = (Hdr *)u - 1;
    h->magic = LIVE ^ u;
    h->n = n;
    h->base = base;
    h->owner = owner;
    h->rank = cur;
    h->prev = h->next = nullptr;
    memset(h->front, FRONTB, sizeof h->front);
    memset((char *)u + n, TAILB, TAIL);
    if (cur >= 0) {
        h->next = live;
        if (live) live->prev = h;
        live = h;
    }
    if (owner >= 0) {
        bytes_of[owner] += n;
        blocks_of[owner]++;
        calls_of[owner]++;
    }
    heap_fresh((void *)u, n);
    return (void *)u;
}
static void put(void *p) {
    Hdr *h = (Hdr *)p - 1;
    if (h->magic != (LIVE ^ (uintptr_t)p)) {
        if (cur < 0) return;
        if (h->magic == (DEAD ^ (uintptr_t)p)) bad("memory was released twice", h);
        bad("released memory which was not allocated, or whose guard was overwritten", nullptr);
    }
    if (cur >= 0)
        if (const char *d = damage(h)) bad(d, h);
    if (h->prev) h->prev->next = h->next;
    else if (live == h) live = h->next;
    if (h->next) h->next->prev = h->prev;
    if (h->owner >= 0) {
        bytes_of[h->owner] -= h->n;
        blocks_of[h->owner]--;
    }
    h->magic = DEAD ^ (uintptr_t)p;
    if (cur < 0 || !quarantine || h->n > QMAX) { h->magic = 0; __libc_free(h->base); return; }
    memset(p, DEADB, h->n);
    Hdr *o = quar[qpos];
    quar[qpos] = h;
    qpos = (qpos + 1) % NQ;
    if (o) {
        if (const char *d = dead_damage(o)) bad(d, o);
        o->magic = 0;
        __libc_free(o->base);
    }
}
// at the end of an epoch
const char *heap_check(char *b, size_t nb) {
    const char *d = nullptr;
    const Hdr *w = nullptr;
    for (Hdr *h = live; h && !d; h = h->next)
        if (h->magic != (LIVE ^ (uintptr_t)(h + 1))) { d = "memory just before an allocated block was overwritten"; break; }
        else if ((d = damage(h))) w = h;
    for (int i = 0; i < NQ && !d; i++)
        if (quar[i] && (d = dead_damage(quar[i]))) w = quar[i];
    if (!d) return nullptr;
    snprintf(b, nb, "%s (block of %zu bytes, obtained by rank %d, found at the end of the run)", d, w ? w->n : (size_t)0, w ? w->rank : -1);
    return b;
}
void heap_reset() {
    quarantine = P("quar", 1);
    fail_at = P("alloc_fail_at", -1);
    fail_rank = P("alloc_rank", -1);
    ncalls = 0;
    for (int i = 0; i < MAXR; i++) bytes_of[i] = blocks_of[i] = calls_of[i] = 0;
}
} // namespace sim

extern "C" {
void *malloc(size_t n) { return get(n, 16, -1, false); }
void *calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    return get(n, 16, -1, true);
}
void free(void *p) {
    if (p) put(p);
}
static void *re(void *q, size_t n, int owner) {
    if (!q) return get(n, 16, owner, false);
    if (!n) { put(q); return nullptr; }
    Hdr *h = (Hdr *)q - 1;
    void *p = get(n, 16, h->owner >= 0 ? h->owner : owner, false);
    if (!p) return nullptr;
    memcpy(p, q, h->n < n ? h->n : n);
    put(q);
    return p;
}
void *realloc(void *q, size_t n) { return re(q, n, -1); }
void *memalign(size_t al, size_t n) { return get(n, al, -1, false); }
void *aligned_alloc(size_t al, size_t n) { return get(n, al, -1, false); }
int posix_memalign(void **p, size_t al, size_t n) {
    void *q = get(n, al, -1, false);
    if (!q) return ENOMEM;
    *p = q;
    return 0;
}
size_t malloc_usable_size(void *p) { return p ? ((Hdr *)p - 1)->n : 0; }

// what the program of a rank asks for (harness/rankmem.cpp is linked into every image)
void *sim_alloc(size_t n, size_t al, int zero) {
    if (cur >= 0 && fail_at >= 0 && !(zero & 2) && (fail_rank < 0 || fail_rank == cur)) {
        if (++ncalls == fail_at) {
            sim_put("alloc_failed", "1", 2);
            event("alloc-fails", n);
            sim::count("fault.alloc_fails", 1);
            errno = ENOMEM;
            return nullptr;
        }
    }
    return get(n, al, cur, zero & 1);
}
void *sim_realloc(void *p, size_t n) { return re(p, n, cur); }
long sim_heap_bytes(void) { return cur >= 0 ? bytes_of[cur] : 0; }
long sim_heap_blocks(void) { return cur >= 0 ? blocks_of[cur] : 0; }
long sim_heap_calls(void) { return cur >= 0 ? calls_of[cur] : 0; }
int sim_alloc_failed(void) { char b[4]; return sim_get("alloc_failed", b, sizeof b) > 0; }
}
