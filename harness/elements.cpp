// C05: element, slice, subvolume and local-block access against a single-array reference.
#include "common.h"
#include <algorithm>
#include <array>

static Geo geo;
static long nchk;
static int seq;

template <typename T>
T step_one(Field<T> &f, const CoordinateVector &c, int w) {
    if constexpr (std::is_arithmetic<T>::value) {
        T v;
        if (w == 0)
            v = f[c]++;
        else if (w == 1)
            v = f[c]--;
        else if (w == 2)
            v = ++f[c];
        else
            v = --f[c];
        return v;
    }
    return T();
}

template <typename T>
struct Run {
    using A = hila::arithmetic_type<T>;
    static constexpr int NC = sizeof(T) / sizeof(A);
    typedef std::array<long, NC> E;
    Gen &g;
    const char *tn;
    Field<T> f, h;
    std::vector<E> r;
    Run(Gen &gg, const char *n) : g(gg), tn(n) {}
    T mk(const E &e) {
        T t;
        for (int q = 0; q < NC; q++)
            ((A *)&t)[q] = (A)e[q];
        return t;
    }
    E rnd() {
        E e;
        for (auto &x : e)
            x = g.in(-1000, 1000);
        return e;
    }
    bool same(const T &t, const E &e) {
        for (int q = 0; q < NC; q++)
            if ((double)((const A *)&t)[q] != (double)e[q])
                return false;
        return true;
    }
    void bad(const char *what, long i, const T &t) {
        std::string a, b;
        for (int q = 0; q < NC; q++) {
            a += std::to_string((double)((const A *)&t)[q]) + " ";
            b += std::to_string(r[i][q]) + " ";
        }
        sim_violation("element-value", "%s<%s> at %s gives %s, should be %s", what, tn, cvs(geo_cv(geo, i)).c_str(), a.c_str(), b.c_str());
    }
    void fill() {
        r.resize(geo.vol);
        for (auto &e : r)
            e = rnd();
        fill_field(geo, f, [&](long i) { return mk(r[i]); });
    }
    CoordinateVector rc(long &i) {
        i = g.below(geo.vol);
        return geo_cv(geo, i);
    }
    void checkall() {
        for (unsigned i = 0; i < lattice->mynode.volume; i++) {
            T t = f.get_value_at(i);
            long k = geo_idx(geo, lattice->coordinates(i));
            if (!same(t, r[k]))
                bad("field content", k, t);
            nchk++;
        }
    }
    void neighbours() {
        Direction d = (Direction)g.below(NDIRS);
        Field<T> t;
        if (g.pct(50)) {
            onsites(ALL) t[X] = f[X + d];
        } else {
            onsites(EVEN) t[X] = f[X + d];
            onsites(ODD) t[X] = f[X + d];
        }
        for (unsigned i = 0; i < lattice->mynode.volume; i++) {
            T v = t.get_value_at(i);
            long k = geo.nb(geo_idx(geo, lattice->coordinates(i)), d);
            if (!same(v, r[k]))
                bad("neighbour read", k, v);
            nchk++;
        }
    }
    void list_check(const std::vector<T> &v, const std::vector<long> &idx, bool bc, const char *what) {
        if (bc || hila::myrank() == 0) {
            if (v.size() != idx.size())
                sim_violation("element-count", "%s<%s> gives %zu elements, should be %zu", what, tn, v.size(), idx.size());
            for (size_t k = 0; k < idx.size(); k++) {
                if (!same(v[k], r[idx[k]]))
                    bad(what, idx[k], v[k]);
                nchk++;
            }
        }
    }
    void step() {
        int op = g.below(14);
        sim_note("op %d<%s>", op, tn);
        long i;
        switch (op) {
        case 0: {
            CoordinateVector c = rc(i);
            E e = rnd();
            // only the owner needs the right value
            bool mine = lattice->node_rank(c) == hila::myrank();
            T v = mk(e);
            if (!mine && g.s % 2)
                v = v + v;
            f[c] = v;
            r[i] = e;
            break;
        }
        case 1: {
            CoordinateVector c = rc(i);
            T v = f[c];
            if (!same(v, r[i]))
                bad("element read", i, v);
            T w = f.get_element(c);
            if (!same(w, r[i]))
                bad("get_element", i, w);
            break;
        }
        case 2: {
            CoordinateVector c = rc(i);
            E e = rnd();
            T v = mk(e);
            int how = g.below(7);
            if (how >= 3) {
                // multiply, divide where exact, step by one
                bool even = true;
                for (auto x : r[i])
                    if (x % 2)
                        even = false;
                if (how == 3 && even) {
                    f[c] /= (A)2;
                    for (auto &x : r[i])
                        x /= 2;
                } else if (how <= 4) {
                    f[c] *= (A)-2;
                    for (auto &x : r[i])
                        x *= -2;
                    for (auto x : r[i])
                        if (x > 1000000 || x < -1000000) {
                            r[i] = e;
                            f[c] = v;
                            break;
                        }
                } else if (std::is_arithmetic<T>::value) {
                    int w = g.below(4);
                    E old = r[i];
                    T got = step_one(f, c, w);
                    r[i][0] += w % 2 ? -1 : 1;
                    if (!same(got, w < 2 ? old : r[i]))
                        bad("value of ++ or --", i, got);
                }
            } else if (how == 0) {
                f[c] += v;
                for (int q = 0; q < NC; q++)
                    r[i][q] += e[q];
            } else if (how == 1) {
                f[c] -= v;
                for (int q = 0; q < NC; q++)
                    r[i][q] -= e[q];
            } else {
                f.set_element(c, v);
                r[i] = e;
            }
            break;
        }
        case 3: {
            std::vector<CoordinateVector> l;
            std::vector<long> idx;
            int n = g.in(0, 12);
            for (int k = 0; k < n; k++) {
                l.push_back(rc(i));
                idx.push_back(i);
            }
            bool bc = g.pct(50);
            std::vector<T> v = f.get_elements(l, bc);
            list_check(v, idx, bc, "get_elements");
            break;
        }
        case 4: {
            std::vector<CoordinateVector> l;
            std::vector<T> v;
            int n = g.in(0, 12);
            for (int k = 0; k < n; k++) {
                CoordinateVector c = rc(i);
#ifdef OPENMP
                // threads place the elements in no particular order
                if (std::find(l.begin(), l.end(), c) != l.end())
                    continue;
#endif
                l.push_back(c);
                E e = rnd();
                v.push_back(mk(e));
                r[i] = e; // a repeated coordinate keeps the last value
            }
            f.set_elements(v, l);
            break;
        }
        case 5: {
            CoordinateVector a, b;
            foralldir(d) {
                a[d] = g.below(geo.n[d]);
                b[d] = a[d] + g.below(geo.n[d] - a[d]);
            }
            bool bc = g.pct(50);
            std::vector<T> v = f.get_subvolume(a, b, bc);
            // x runs fastest
            std::vector<long> idx;
            CoordinateVector c = a;
            for (;;) {
                idx.push_back(geo_idx(geo, c));
                int d = 0;
                while (d < NDIM && ++c[(Direction)d] > b[(Direction)d]) {
                    c[(Direction)d] = a[(Direction)d];
                    d++;
                }
                if (d == NDIM)
                    break;
            }
            list_check(v, idx, bc, "get_subvolume");
            break;
        }
        case 6: {
            CoordinateVector a, lo, hi;
            foralldir(d) {
                if (g.pct(50)) {
                    a[d] = -1;
                    lo[d] = 0;
                    hi[d] = geo.n[d] - 1;
                } else
                    a[d] = lo[d] = hi[d] = g.below(geo.n[d]);
            }
            bool bc = g.pct(50);
            std::vector<T> v = f.get_slice(a, bc);
            std::vector<long> idx;
            CoordinateVector c = lo;
            for (;;) {
                idx.push_back(geo_idx(geo, c));
                int d = 0;
                while (d < NDIM && ++c[(Direction)d] > hi[(Direction)d]) {
                    c[(Direction)d] = lo[(Direction)d];
                    d++;
                }
                if (d == NDIM)
                    break;
            }
            list_check(v, idx, bc, "get_slice");
            break;
        }
        case 7: {
            // the local block, x fastest over the box of this rank
            std::vector<T> v;
            f.copy_local_data(v);
            box_check(v, 0, "copy_local_data");
            for (auto &t : v)
                t = t + t;
            f.set_local_data(v);
            for (auto &e : r)
                for (auto &x : e)
                    x = (2 * x) % 1000000;
            // keep numbers small (exact in float)
            for (auto &e : r)
                for (auto &x : e)
                    if (x > 100000 || x < -100000) {
                        fill();
                        return;
                    }
            break;
        }
        case 8: {
            halo();
            break;
        }
        case 9:
            f.start_gather((Direction)g.below(NDIRS), g.pct(50) ? ALL : g.pct(50) ? EVEN : ODD);
            break;
        case 10:
        case 11:
            neighbours();
            break;
        case 12: {
            // an element read from one field and written to another
            CoordinateVector c = rc(i);
            long j;
            CoordinateVector c2 = rc(j);
            f[c] = f[c2];
            r[i] = r[j];
            break;
        }
        case 13: {
            Parity p = g.pct(50) ? EVEN : ODD;
            E e = rnd();
            T v = mk(e);
            f[p] = v;
            for (long k = 0; k < geo.vol; k++)
                if (in_par(p, geo.par(k)))
                    r[k] = e;
            break;
        }
        }
    }
    void halo() {
        std::vector<T> v;
        f.copy_local_data_with_halo(v);
        box_check(v, 1, "copy_local_data_with_halo");
    }
    void box_check(const std::vector<T> &v, int halo, const char *what) {
        const auto &mn = lattice->mynode;
        size_t want = 1;
        foralldir(d) want *= mn.size[d] + 2 * halo;
        if (v.size() != want)
            sim_violation("element-count", "%s<%s> gives %zu elements for a block of %zu", what, tn, v.size(), want);
        for (size_t k = 0; k < want; k++) {
            int c[NDIM];
            size_t q = k;
            int out = 0;
            for (int d = 0; d < NDIM; d++) {
                int s = mn.size[d] + 2 * halo;
                c[d] = (int)(q % s) - halo;
                if (c[d] < 0 || c[d] >= (int)mn.size[d])
                    out++;
                c[d] += mn.min[d];
                q /= s;
            }
            long i = geo.idx(c);
            // recorded finding: entries beyond a side of a rank which is one site thick
            bool thin = false;
            for (int d = 0; d < NDIM; d++)
                if (mn.size[d] == 1 && c[d] != (int)mn.min[d])
                    thin = true;
            if (thin && !sim_param("known", 0))
                continue;
            if (!same(v[k], r[i])) {
                char w[160];
                snprintf(w, sizeof w, "%s (%d coordinates outside the block%s)", what, out, thin ? ", block one site thick" : "");
                bad(w, i, v[k]);
            }
            nchk++;
        }
    }
    void go(int n) {
        fill();
        if (sim_param("known", 0))
            halo();
        for (int k = 0; k < n; k++) {
            step();
            if (g.pct(25))
                checkall();
        }
        checkall();
        neighbours();
    }
};

extern "C" int harness_main(int argc, char **argv) {
    start_hila(argc, argv, geo);
    Gen g(sim_seed(), 7);
    int n = sim_param("ops", 10);
    int ty = sim_param("types", 0);
    switch (ty) {
    case 0: Run<long>(g, "long").go(n); break;
    case 1: Run<double>(g, "double").go(n); break;
    case 2: Run<Vector<3, float>>(g, "Vector<3,float>").go(n); break;
    case 3: Run<Complex<double>>(g, "Complex<double>").go(n); break;
    case 4: Run<int>(g, "int").go(n); break;
    }
    sim_count("checked.elements", nchk);
    end_hila();
    return 0;
}
extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 1000);
    Out o(out, n);
    static const int nrs[] = {1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 8};
    int nr = nrs[g.below(11)];
    int sz[NDIM];
    choose_size(g, nr, g.pct(35), tier ? 800 : 250, sz);
    if (known_seed(seed)) {
        o.line("known=1");
        nr = 2;
        for (int d = 0; d < NDIM; d++)
            sz[d] = 3;
    }
    o.line("nranks=%d", nr);
    plan_size(o, sz);
    o.line("ops=%d", g.in(2, tier ? 60 : 25));
    o.line("types=%d", g.below(5));
}
