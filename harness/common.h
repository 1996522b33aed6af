// Shared by all harnesses: seeded choices, a single-address-space reference lattice, comparison.
#ifndef HARNESS_COMMON_H
#define HARNESS_COMMON_H
#include "hila.h"
#include "simapi.h"
#include <cstdio>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>

// all ranks draw the same numbers from a Gen with the same key
struct Gen {
    uint64_t s;
    static uint64_t mix(uint64_t x) {
        x += 0x9e3779b97f4a7c15ull;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
    Gen(uint64_t seed, uint64_t key = 0) : s(mix(seed * 0x100000001b3ull + key)) {}
    uint64_t next() {
        s += 0x9e3779b97f4a7c15ull;
        return mix(s);
    }
    int below(int n) {
        return n <= 1 ? 0 : (int)((next() >> 33) % (uint64_t)n);
    }
    int in(int a, int b) {
        return a + below(b - a + 1);
    }
    bool pct(int p) {
        return below(100) < p;
    }
};

struct Out {
    char *p;
    size_t n, k = 0;
    Out(char *b, size_t sz) : p(b), n(sz) {
        if (n)
            p[0] = 0;
    }
    void line(const char *fmt, ...) {
        va_list ap;
        va_start(ap, fmt);
        int m = vsnprintf(p + k, n - k - 2, fmt, ap);
        va_end(ap);
        k += m;
        p[k++] = '\n';
        p[k] = 0;
    }
};

#ifdef OPENMP
extern "C" int harness_threads;
int harness_threads = 1;
#endif

// the first seeds of every range run the situations of the recorded findings; all others avoid them
inline bool known_seed(uint64_t seed) {
#ifdef OPENMP
    return false;
#else
    return (seed - 1) % 1000000007ull < 32;
#endif
}

// global lattice geometry, independent of the library's own bookkeeping
struct Geo {
    int n[NDIM];
    long vol;
    bool alleven;
    void set(const int *m) {
        vol = 1;
        alleven = true;
        for (int d = 0; d < NDIM; d++) {
            n[d] = m[d];
            vol *= m[d];
            if (m[d] % 2)
                alleven = false;
        }
    }
    long idx(const int *c) const {
        long i = 0;
        for (int d = NDIM - 1; d >= 0; d--)
            i = i * n[d] + (((c[d] % n[d]) + n[d]) % n[d]);
        return i;
    }
    void coord(long i, int *c) const {
        for (int d = 0; d < NDIM; d++) {
            c[d] = i % n[d];
            i /= n[d];
        }
    }
    int par(long i) const { // 0 even 1 odd
        int c[NDIM], s = 0;
        coord(i, c);
        for (int d = 0; d < NDIM; d++)
            s += c[d];
        return s & 1;
    }
    // direction index as the library numbers them: 0..NDIM-1 up, then NDIRS-1-d down
    long nb(long i, int dir) const {
        int c[NDIM];
        coord(i, c);
        if (dir < NDIM)
            c[dir]++;
        else
            c[NDIRS - 1 - dir]--;
        return idx(c);
    }
    bool wraps(long i, int dir) const {
        int c[NDIM];
        coord(i, c);
        if (dir < NDIM)
            return c[dir] == n[dir] - 1;
        return c[NDIRS - 1 - dir] == 0;
    }
    long shifted(long i, const int *v) const {
        int c[NDIM];
        coord(i, c);
        for (int d = 0; d < NDIM; d++)
            c[d] += v[d];
        return idx(c);
    }
};
inline long geo_idx(const Geo &g, const CoordinateVector &c) {
    int k[NDIM];
    foralldir(d) k[d] = c[d];
    return g.idx(k);
}
inline CoordinateVector geo_cv(const Geo &g, long i) {
    int k[NDIM];
    g.coord(i, k);
    CoordinateVector c;
    foralldir(d) c[d] = k[d];
    return c;
}
inline bool in_par(Parity p, int par) {
    return p == ALL || (p == EVEN && par == 0) || (p == ODD && par == 1);
}
inline const char *par_name(Parity p) {
    return p == ALL ? "ALL" : p == EVEN ? "EVEN" : p == ODD ? "ODD" : "none";
}
inline std::string cvs(const CoordinateVector &c) {
    std::string s = "(";
    foralldir(d) s += (d ? "," : "") + std::to_string(c[d]);
    return s + ")";
}

// give a field the contents fn(global index)
template <typename T, typename F>
inline void fill_field(const Geo &g, Field<T> &f, F fn) {
    f = T(0);
    for (unsigned i = 0; i < lattice->mynode.volume; i++)
        f.set_value_at(fn(geo_idx(g, lattice->coordinates(i))), i);
    f.mark_changed(ALL);
}
// choose sizes for `nr` ranks.  odd: odd extents allowed.  uneven divisions arise by themselves
inline void choose_size(Gen &g, int nr, bool odd, int maxvol, int *n) {
#ifdef SUBNODE_LAYOUT
    // 8 subnodes per rank; extents must be even
    for (int tries = 0; tries < 1000; tries++) {
        int div[NDIM];
        for (int d = 0; d < NDIM; d++)
            div[d] = 1;
        int m = nr * 8;
        for (int f = 2; m > 1; f++)
            while (m % f == 0) {
                div[g.below(NDIM)] *= f;
                m /= f;
            }
        long vol = 1;
        for (int d = 0; d < NDIM; d++) {
            n[d] = div[d] * (g.pct(70) ? 2 : g.in(1, 4));
            if (g.pct(10))
                n[d] += 2 * g.in(1, 2);
            if (n[d] % 2)
                n[d]++;
            vol *= n[d];
        }
        if (vol <= (maxvol < 2500 ? 2500 : maxvol))
            return;
    }
#endif
    for (int tries = 0; tries < 1000; tries++) {
        int div[NDIM];
        for (int d = 0; d < NDIM; d++)
            div[d] = 1;
        int m = nr;
        for (int f = 2; m > 1; f++)
            while (m % f == 0) {
                div[g.below(NDIM)] *= f;
                m /= f;
            }
        long vol = 1;
        for (int d = 0; d < NDIM; d++) {
            n[d] = div[d] * g.in(2, 4);
            if (g.pct(15))
                n[d] += 1 + g.below(2);
            if (!odd && n[d] % 2)
                n[d]++;
            vol *= n[d];
        }
        if (vol <= maxvol)
            return;
    }
    for (int d = 0; d < NDIM; d++)
        n[d] = 4;
    n[NDIM - 1] = 4 * nr;
}
inline void plan_size(Out &o, const int *n) {
    std::string s;
    for (int d = 0; d < NDIM; d++)
        s += (d ? "x" : "") + std::to_string(n[d]);
    o.line("size=%s", s.c_str());
}
inline void get_size(int *n) {
    const char *p = sim_param_s("size", "4x4x4x4");
    for (int d = 0; d < NDIM; d++) {
        n[d] = (int)strtol(p, (char **)&p, 10);
        if (*p == 'x')
            p++;
    }
}
inline CoordinateVector size_cv(const int *n) {
    CoordinateVector c;
    foralldir(d) c[d] = n[d];
    return c;
}
// in harness_post: did the library decline the layout of this epoch?
inline bool layout_refused() {
    char b[8];
    return sim_get("layout_refused", b, sizeof b) > 0 && b[0] == '1' + sim_epoch();
}
// start the library and set up the lattice; false if the library declines the layout (never returns then)
inline void start_hila(int argc, char **argv, Geo &geo) {
    int n[NDIM];
    get_size(n);
    geo.set(n);
    hila::initialize(argc, argv);
    lattice.setup(size_cv(n));
    char ep = '1' + sim_epoch();
    sim_put("setup_done", &ep, 1);
}
// the end of the program: the library may not end it earlier with success
inline void end_hila() {
    sim_finished();
    hila::finishrun();
}
#endif
