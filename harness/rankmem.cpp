// Linked into the image of every rank: what the program allocates is counted for that rank.
#include <cerrno>
#include <cstddef>
#include <new>
extern "C" {
void *sim_alloc(size_t n, size_t al, int zero);
void *sim_realloc(void *p, size_t n);
void *malloc(size_t n) { return sim_alloc(n, 16, 0); }
void *calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return nullptr;
    }
    return sim_alloc(n, 16, 1);
}
void *realloc(void *p, size_t n) { return sim_realloc(p, n); }
void *aligned_alloc(size_t al, size_t n) { return sim_alloc(n, al, 0); }
void *memalign(size_t al, size_t n) { return sim_alloc(n, al, 0); }
int posix_memalign(void **p, size_t al, size_t n) {
    void *q = sim_alloc(n, al, 0);
    if (!q)
        return ENOMEM;
    *p = q;
    return 0;
}
void free(void *);

// the memory and the plans of FFTW
typedef struct Plan *plan;
static struct {
    plan p;
    void *token;
} plans[256];
static plan opened(plan p) {
    if (p)
        for (auto &x : plans)
            if (!x.p) {
                x.p = p;
                x.token = sim_alloc(100, 16, 2);
                return p;
            }
    if (p)
        sim_alloc(100, 16, 2); // more than anything would use: it stays
    return p;
}
static void closed(plan p) {
    for (auto &x : plans)
        if (x.p == p && p) {
            x.p = nullptr;
            free(x.token);
            return;
        }
}
#define FFTW(w)                                                                                          \
    void *__wrap_##w##_malloc(size_t n) { return sim_alloc(n, 64, 0); }                                  \
    void __wrap_##w##_free(void *p) { free(p); }                                                         \
    plan __real_##w##_plan_dft_1d(int, void *, void *, int, unsigned);                                   \
    void __real_##w##_destroy_plan(plan);                                                                \
    plan __wrap_##w##_plan_dft_1d(int n, void *a, void *b, int s, unsigned f) { return opened(__real_##w##_plan_dft_1d(n, a, b, s, f)); } \
    void __wrap_##w##_destroy_plan(plan p) {                                                             \
        closed(p);                                                                                       \
        __real_##w##_destroy_plan(p);                                                                    \
    }
FFTW(fftw)
FFTW(fftwf)
}
static void *nw(size_t n, size_t al) {
    void *p = sim_alloc(n ? n : 1, al, 0);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return nw(n, 16); }
void *operator new[](size_t n) { return nw(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return nw(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return nw(n, (size_t)a); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim_alloc(n ? n : 1, 16, 0); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_alloc(n ? n : 1, 16, 0); }
