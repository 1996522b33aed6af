// Random programs of site loops over several fields, compared with a single-address-space
// reference.  Used for halo coherence (C01), boundary conditions (C20), backend equivalence (C22).
#include "common.h"
#include <array>

#ifdef SUBNODE_LAYOUT
constexpr bool VECTORISED = true;
#else
constexpr bool VECTORISED = false;
#endif
constexpr long PM = 65521;
constexpr int NOPS = 31;
constexpr long ALLOPS = (1l << NOPS) - 1;

inline long red(const long &v) {
    long r = v % PM;
    if (r < 0)
        r += PM;
    return r;
}
inline double red(const double &v) {
    double r = v - (double)PM * floor(v / (double)PM);
    return r;
}
inline float red(const float &v) {
    float r = v - (float)PM * floorf(v / (float)PM);
    return r;
}
#if defined(AVX) && !defined(HILAPP)
inline Vec4d red(const Vec4d &v) {
    return v - (double)PM * floor(v / (double)PM);
}
inline Vec4q red(const Vec4q &v) {
    Vec4q r;
    for (int i = 0; i < 4; i++)
        r.insert(i, red((long)v.extract(i)));
    return r;
}
inline Vec8f red(const Vec8f &v) {
    return v - (float)PM * floor(v / (float)PM);
}
#endif
template <typename S>
inline Complex<S> red(const Complex<S> &v) {
    Complex<S> r;
    r.re = v.re - (double)PM * floor(v.re / (double)PM);
    r.im = v.im - (double)PM * floor(v.im / (double)PM);
    return r;
}
template <typename S>
inline Vector<3, S> red(const Vector<3, S> &v) {
    Vector<3, S> r;
    for (int i = 0; i < 3; i++)
        r[i] = v[i] - (double)PM * floor(v[i] / (double)PM);
    return r;
}
inline int coordval(const CoordinateVector &c) {
    int s = 1;
    foralldir(d) s = (s * 7 + c[d]) % 1009;
    return s;
}
// functions called in loops: one changes its argument, one sets it, one chooses
template <typename T>
inline void add_scaled(T &x, const T &y, int a) {
    x += a * y;
}
template <typename T>
inline void set_scaled(out_only T &x, const T &y, int a) {
    x = a * y;
}
inline int selector(const CoordinateVector &c, int m) {
    int s = 0;
    foralldir(d) s += c[d];
    return s % m;
}
static int ref_selector(const Geo &g, long i, int m) {
    int c[NDIM], s = 0;
    g.coord(i, c);
    for (int d = 0; d < NDIM; d++)
        s += c[d];
    return s % m;
}
static int ref_coordval(const Geo &g, long i) {
    int c[NDIM], s = 1;
    g.coord(i, c);
    for (int d = 0; d < NDIM; d++)
        s = (s * 7 + c[d]) % 1009;
    return s;
}
static long lred(long v) {
    v %= PM;
    return v < 0 ? v + PM : v;
}

template <typename T>
struct Prog {
    using A = hila::arithmetic_type<T>;
    static constexpr int NC = sizeof(T) / sizeof(A);
    typedef std::array<long, NC> E;
    struct Ref {
        std::vector<E> v;
        bool anti[NDIRS];
        Ref() {
            for (auto &a : anti)
                a = false;
        }
    };
    Geo geo;
    Gen g;
    int nf;
    std::vector<Field<T>> f;
    std::vector<Ref> r;
    bool bc;
    const char *tn;

    Prog(const Geo &ge, uint64_t key, const char *name) : geo(ge), g(sim_seed(), key), tn(name) {
        bc = sim_param("bc", 0);
        nf = 3 + g.below(3);
        f.resize(nf);
        r.resize(nf);
        for (int k = 0; k < nf; k++) {
            r[k].v.resize(geo.vol);
            if (bc)
                random_bc(k);
            T c = cst(k);
            E e = ecst(k);
            int m = 1 + g.below(50);
            Field<T> &d = f[k];
            if (g.pct(50)) {
                onsites(ALL) d[X] = red(c * (m * coordval(X.coordinates())));
            } else {
                onsites(EVEN) d[X] = red(c * (m * coordval(X.coordinates())));
                onsites(ODD) d[X] = red(c * (m * coordval(X.coordinates())));
            }
            for (long i = 0; i < geo.vol; i++)
                for (int q = 0; q < NC; q++)
                    r[k].v[i][q] = lred(e[q] * (m * ref_coordval(geo, i)));
        }
    }
    void random_bc(int k) {
#ifdef SPECIAL_BOUNDARY_CONDITIONS
        foralldir(d) {
            bool anti = g.pct(40);
            // both directions are set by one call
            f[k].set_boundary_condition(d, anti ? hila::bc::ANTIPERIODIC : hila::bc::PERIODIC);
            r[k].anti[d] = r[k].anti[NDIRS - 1 - d] = anti;
        }
#endif
    }
    E ecst(int k) {
        E e;
        for (int q = 0; q < NC; q++)
            e[q] = 1 + (k * 5 + q * 3) % 11;
        return e;
    }
    T mk(const E &e) {
        T t;
        for (int q = 0; q < NC; q++)
            ((A *)&t)[q] = (A)e[q];
        return t;
    }
    T cst(int k) {
        return mk(ecst(k));
    }
    E nbval(int k, long i, int dir) {
        E e = r[k].v[geo.nb(i, dir)];
        if (r[k].anti[dir] && geo.wraps(i, dir))
            for (auto &x : e)
                x = -x;
        return e;
    }
    // value at i + v, steps one at a time (the sign is the product over crossings)
    E shval(int k, long i, const int *v) {
        int c[NDIM];
        geo.coord(i, c);
        long sgn = 1;
        for (int d = 0; d < NDIM; d++) {
            int q = c[d] + v[d];
            int w = 0;
            while (q < 0) {
                q += geo.n[d];
                w++;
            }
            while (q >= geo.n[d]) {
                q -= geo.n[d];
                w++;
            }
            if (r[k].anti[d] && w % 2)
                sgn = -sgn;
            c[d] = q;
        }
        E e = r[k].v[geo.idx(c)];
        for (auto &x : e)
            x *= sgn;
        return e;
    }
    template <typename F>
    void refloop(int d, Parity par, F fn) {
        std::vector<E> nv = r[d].v;
        for (long i = 0; i < geo.vol; i++)
            if (in_par(par, geo.par(i)))
                nv[i] = fn(i);
        r[d].v.swap(nv);
    }
    static E lin(long a, const E &x, long b, const E &y) {
        E o;
        for (int q = 0; q < NC; q++)
            o[q] = lred(a * x[q] + b * y[q]);
        return o;
    }
    int other(int k) {
        int j = g.below(nf - 1);
        return j >= k ? j + 1 : j;
    }
    int third(int k, int j) {
        for (int q = 0; q < nf; q++)
            if (q != k && q != j)
                return q;
        return -1;
    }
    Parity rpar() {
        int k = g.below(4);
        return k == 0 ? EVEN : k == 1 ? ODD : ALL;
    }
    Direction rdir() {
        return (Direction)g.below(NDIRS);
    }
    void mismatch(int k, long i, const T &got, const char *when) {
        std::string a, b;
        for (int q = 0; q < NC; q++) {
            a += std::to_string((double)((A *)&got)[q]) + " ";
            b += std::to_string(r[k].v[i][q]) + " ";
        }
        sim_violation("field-value", "field<%s> %d at %s is %s, a single process gives %s (%s)", tn, k, cvs(geo_cv(geo, i)).c_str(), a.c_str(), b.c_str(), when);
    }
    void check(int k, const char *when) {
        uint64_t h = 0;
        long nloc = 0;
        for (unsigned i = 0; i < lattice->mynode.volume; i++) {
            T v = f[k].get_value_at(i);
            long gi = geo_idx(geo, lattice->coordinates(i));
            for (int q = 0; q < NC; q++)
                if ((double)((A *)&v)[q] != (double)r[k].v[gi][q])
                    mismatch(k, gi, v, when);
            h += Gen::mix(gi * 31 + r[k].v[gi][0]);
            nloc++;
        }
        sim_state(h);
        sim_count("checked.sites", nloc);
    }
    void step(int op);
};

template <typename T>
void Prog<T>::step(int op) {
    int kd = g.below(nf), k1 = other(kd), k2 = other(kd);
    Parity par = rpar();
    Direction d1 = rdir(), d2 = rdir();
    int a = g.in(1, 6), b = g.in(1, 6);
    Field<T> &d = f[kd], &s1 = f[k1], &s2 = f[k2];
    sim_note("op %d<%s> d=%d s1=%d s2=%d par=%s d1=%d d2=%d a=%d b=%d", op, tn, kd, k1, k2, par_name(par), (int)d1, (int)d2, a, b);
    char nm[24];
    snprintf(nm, sizeof nm, "op.%d", op);
    if (sim_rank() == 0)
        sim_count(nm, 1);
    switch (op) {
    case 0:
        if (k1 == k2) {
            onsites(par) d[X] = red(a * s1[X + d1] + b * s1[X + d2]);
        } else {
            onsites(par) d[X] = red(a * s1[X + d1] + b * s2[X + d2]);
        }
        refloop(kd, par, [&](long i) { return lin(a, nbval(k1, i, d1), b, nbval(k2, i, d2)); });
        break;
    case 1: {
        int m = g.in(1, 30);
        T c = cst(kd);
        E e = ecst(kd);
        onsites(par) d[X] = red(a * d[X] + b * s1[X] + c * (m * coordval(X.coordinates())));
        refloop(kd, par, [&](long i) {
            E o;
            for (int q = 0; q < NC; q++)
                o[q] = lred(a * r[kd].v[i][q] + b * r[k1].v[i][q] + e[q] * m * ref_coordval(geo, i));
            return o;
        });
        break;
    }
    case 2: {
        // neighbours of the other parity; with odd extents the wrapped neighbour may have the
        // same parity, where the order of updates is the user's business, so it is left out
        if (!geo.alleven)
            break;
        par = g.pct(50) ? EVEN : ODD;
        onsites(par) d[X] = red(d[X] + a * d[X + d1] + b * d[X + d2]);
        refloop(kd, par, [&](long i) {
            E x = lin(a, nbval(kd, i, d1), b, nbval(kd, i, d2));
            return lin(1, r[kd].v[i], 1, x);
        });
        break;
    }
    case 3: {
        onsites(par) {
            T s = 0;
            foralldir(dir) {
                s += s1[X + dir] + s1[X - dir];
            }
            d[X] = red(s);
        }
        refloop(kd, par, [&](long i) {
            E o{};
            for (int dd = 0; dd < NDIRS; dd++) {
                E x = nbval(k1, i, dd);
                for (int q = 0; q < NC; q++)
                    o[q] += x[q];
            }
            for (auto &x : o)
                x = lred(x);
            return o;
        });
        break;
    }
    case 4: {
        CoordinateVector v;
        int vv[NDIM];
        int lim = g.pct(70) ? 2 : 6;
        foralldir(dd) {
            vv[dd] = g.pct(40) ? 0 : g.in(-lim, lim);
            v[dd] = vv[dd];
        }
        if (!geo.alleven)
            par = ALL;
        sim_note("offset %s of field %d, antiperiodic %d%d%d%d", cvs(v).c_str(), k1, r[k1].anti[0], r[k1].anti[1], r[k1].anti[2], r[k1].anti[3]);
        if (par == ALL && g.pct(50)) {
            // the result has the boundary conditions of a new field
            Field<T> t = s1.shift(v);
            refloop(kd, ALL, [&](long i) { return shval(k1, i, vv); });
            onsites(ALL) d[X] = red(t[X]);
        } else {
            Field<T> t;
            t = d;
            s1.shift(v, t, par);
            onsites(par) d[X] = red(t[X]);
            refloop(kd, par, [&](long i) { return shval(k1, i, vv); });
        }
        for (auto &e : r[kd].v)
            for (auto &x : e)
                x = lred(x);
        break;
    }
    case 5: {
        CoordinateVector v;
        int vv[NDIM];
        foralldir(dd) {
            vv[dd] = g.in(-2, 2);
            v[dd] = vv[dd];
        }
        if (!geo.alleven)
            par = ALL;
        sim_note("offset %s of field %d, antiperiodic %d%d%d%d", cvs(v).c_str(), k1, r[k1].anti[0], r[k1].anti[1], r[k1].anti[2], r[k1].anti[3]);
        if (k1 == k2) {
            onsites(par) d[X] = red(a * s1[X + v]);
            refloop(kd, par, [&](long i) { return lin(a, shval(k1, i, vv), 0, r[k1].v[i]); });
        } else {
            onsites(par) d[X] = red(a * s1[X + v] + b * s2[X + d1]);
            refloop(kd, par, [&](long i) { return lin(a, shval(k1, i, vv), b, nbval(k2, i, d1)); });
        }
        break;
    }
    case 6: {
        int n = g.in(1, 4);
        for (int j = 0; j < n; j++) {
            long i = g.below(geo.vol);
            E e;
            for (int q = 0; q < NC; q++)
                e[q] = g.below(PM);
            d[geo_cv(geo, i)] = mk(e);
            r[kd].v[i] = e;
        }
        break;
    }
    case 7: {
        long i = g.below(geo.vol);
        T v = d[geo_cv(geo, i)];
        for (int q = 0; q < NC; q++)
            if ((double)((A *)&v)[q] != (double)r[kd].v[i][q])
                mismatch(kd, i, v, "element read");
        break;
    }
    case 8: {
        int how = g.below(4);
        if (how == 0) {
            d = s1;
            r[kd].v = r[k1].v;
        } else if (how == 1) {
            Field<T> t(s1);
            d = std::move(t);
            r[kd].v = r[k1].v;
            // a new field is periodic, whatever it is a copy of
            for (int q = 0; q < NDIRS; q++)
                r[kd].anti[q] = false;
        } else if (how == 2) {
            std::swap(f[kd], f[k1]);
            std::swap(r[kd].v, r[k1].v);
            for (int q = 0; q < NDIRS; q++)
                std::swap(r[kd].anti[q], r[k1].anti[q]);
        } else {
            d[par] = s1[X];
            refloop(kd, par, [&](long i) { return r[k1].v[i]; });
        }
        break;
    }
    case 9: {
        // communication asked for ahead of its use, maybe never used, maybe overtaken by writes
        int n = g.in(1, 4);
        for (int j = 0; j < n; j++) {
            Direction e = rdir();
            Parity p = rpar();
            if (g.pct(70))
                d.start_gather(e, p);
            else
                d.gather(e, p);
        }
        break;
    }
    case 10: {
#ifdef SUBNODE_LAYOUT
        // a double sum of integers does not compile when vectorised
        if constexpr (std::is_integral<A>::value)
            break;
        else
#endif
        {
        double sum = 0;
        if (g.pct(50)) {
            onsites(par) sum += squarenorm(s1[X + d1]) ;
        } else {
            onsites(par) {
                double w = squarenorm(s1[X + d1]);
                if (X.coordinate(e_x) % 2 == 0)
                    sum += w;
                else
                    sum += w;
            }
        }
        double want = 0;
        for (long i = 0; i < geo.vol; i++)
            if (in_par(par, geo.par(i))) {
                E e = nbval(k1, i, d1);
                for (int q = 0; q < NC; q++)
                    want += (double)e[q] * (double)e[q];
            }
        // sums of squares of integers below 2^16 are exact in double
        if (sizeof(A) == 8 && sum != want)
            sim_violation("reduction-value", "sum of squares of field<%s> %d over %s is %.17g, a single process gives %.17g", tn, k1, par_name(par), sum, want);
        sim_count("checked.sums", 1);
        }
        break;
    }
    case 11: {
        bool keep = !bc;
        if (keep)
            d.clear();
        T c = cst(k1);
        E e = ecst(k1);
        if (g.pct(50)) {
            onsites(EVEN) d[X] = c;
            onsites(ODD) d[X] = red(c * a);
            refloop(kd, EVEN, [&](long) { return e; });
            refloop(kd, ODD, [&](long) { return lin(a, e, 0, e); });
        } else {
            d = c;
            refloop(kd, ALL, [&](long) { return e; });
        }
        break;
    }
    case 12: {
        int m = g.in(2, 3), q0 = g.below(m);
        Direction ax = (Direction)g.below(NDIM);
        onsites(par) {
            if (X.coordinate(ax) % m == q0)
                d[X] = red(a * s1[X + d1] + b * s1[X]);
        }
        refloop(kd, par, [&](long i) {
            int c[NDIM];
            geo.coord(i, c);
            if (c[ax] % m != q0)
                return r[kd].v[i];
            return lin(a, nbval(k1, i, d1), b, r[k1].v[i]);
        });
        break;
    }
    case 13: {
        onsites(EVEN) d[X] = red(a * s1[X + d1]);
        onsites(ODD) d[X] = red(b * s1[X + d2]);
        refloop(kd, EVEN, [&](long i) { return lin(a, nbval(k1, i, d1), 0, r[k1].v[i]); });
        refloop(kd, ODD, [&](long i) { return lin(b, nbval(k1, i, d2), 0, r[k1].v[i]); });
        break;
    }
    case 14: {
        int k3 = -1;
        for (int j = 0; j < nf; j++)
            if (j != kd && j != k1)
                k3 = j;
        if (k3 < 0)
            break;
        Field<T> &e = f[k3];
        onsites(par) {
            T t = s1[X + d1];
            d[X] = red(a * t);
            e[X] = red(e[X] + b * s1[X + d2]);
        }
        std::vector<E> save = r[k1].v;
        refloop(kd, par, [&](long i) { return lin(a, nbval(k1, i, d1), 0, r[k1].v[i]); });
        refloop(k3, par, [&](long i) { return lin(1, r[k3].v[i], b, nbval(k1, i, d2)); });
        break;
    }
    case 15: {
        Field<T> t;
        t = s1 + s2;
        onsites(par) d[X] = red(t[X]);
        refloop(kd, par, [&](long i) { return lin(1, r[k1].v[i], 1, r[k2].v[i]); });
        if (g.pct(40)) {
            d += s2;
            refloop(kd, ALL, [&](long i) {
                E o;
                for (int q = 0; q < NC; q++)
                    o[q] = r[kd].v[i][q] + r[k2].v[i][q];
                return o;
            });
            onsites(ALL) d[X] = red(d[X]);
            refloop(kd, ALL, [&](long i) { return lin(1, r[kd].v[i], 0, r[kd].v[i]); });
        }
        break;
    }
    case 16: {
        std::vector<T> buf;
        d.copy_local_data(buf);
        if (buf.size() != lattice->mynode.volume)
            sim_violation("local-data", "copy_local_data gives %zu elements for %zu sites", buf.size(), (size_t)lattice->mynode.volume);
        f[kd].clear();
        if (bc) {
            foralldir(dd) { r[kd].anti[dd] = r[kd].anti[NDIRS - 1 - dd] = false; }
        }
        f[kd] = mk(ecst(0));
        f[kd].set_local_data(buf);
        break;
    }
    case 17: {
        // reading in a function called with the field by reference, two levels of use before a write
        onsites(par) d[X] = red(s1[X + d1] + s1[X - d1] * a + s1[X]);
        refloop(kd, par, [&](long i) {
            E x = lin(1, nbval(k1, i, d1), a, nbval(k1, i, NDIRS - 1 - d1));
            return lin(1, x, 1, r[k1].v[i]);
        });
        break;
    }
    case 18: {
        if (bc) {
            random_bc(kd);
        }
        break;
    }
    case 19: {
#ifdef SUBNODE_LAYOUT
        // Field == Field does not compile in vectorised builds
        break;
#else
        {
        bool eq = (f[k1] == f[k2]);
        bool req = r[k1].v == r[k2].v;
        if (eq != req)
            sim_violation("field-compare", "field equality gives %d, a single process gives %d", (int)eq, (int)req);
        }
#endif
        break;
    }
    case 20: {
        // different fields changed on different branches
        int k3 = third(kd, k1);
        if (k3 < 0)
            break;
        Field<T> &e = f[k3];
        int m = g.in(2, 3), q0 = g.below(m);
        onsites(par) {
            if (selector(X.coordinates(), m) == q0) {
                d[X] = red(a * s1[X + d1]);
            } else {
                e[X] = red(b * s1[X + d2]);
            }
        }
        refloop(kd, par, [&](long i) { return ref_selector(geo, i, m) == q0 ? lin(a, nbval(k1, i, d1), 0, r[k1].v[i]) : r[kd].v[i]; });
        refloop(k3, par, [&](long i) { return ref_selector(geo, i, m) != q0 ? lin(b, nbval(k1, i, d2), 0, r[k1].v[i]) : r[k3].v[i]; });
        break;
    }
    case 21: {
        // the direction is a variable of the loop
        int m = g.in(1, 3);
        onsites(par) {
            Direction dir = d1;
            if (selector(X.coordinates(), 3) < m)
                dir = d2;
            d[X] = red(a * s1[X + dir]);
        }
        refloop(kd, par, [&](long i) { return lin(a, nbval(k1, i, ref_selector(geo, i, 3) < m ? d2 : d1), 0, r[k1].v[i]); });
        break;
    }
    case 22: {
        // the number of terms depends on the site
        int m = g.in(2, 4);
        onsites(par) {
            int n = selector(X.coordinates(), m);
            T t = a * s1[X];
            for (int j = 0; j < n; j++)
                t += s1[X + d1];
            int j = n;
            while (j > 1) {
                t += s1[X - d2];
                j -= 2;
            }
            d[X] = red(t);
        }
        refloop(kd, par, [&](long i) {
            int n = ref_selector(geo, i, m);
            E x = lin(n, nbval(k1, i, d1), n / 2, nbval(k1, i, NDIRS - 1 - d2));
            return lin(1, x, a, r[k1].v[i]);
        });
        break;
    }
    case 23: {
        // elements changed through reference arguments
        int k3 = third(kd, k1);
        if (k3 < 0)
            break;
        Field<T> &e = f[k3];
        onsites(par) {
            add_scaled(d[X], s1[X + d1], a);
            d[X] = red(d[X]);
            set_scaled(e[X], s1[X + d2], b);
            e[X] = red(e[X]);
        }
        refloop(kd, par, [&](long i) { return lin(1, r[kd].v[i], a, nbval(k1, i, d1)); });
        refloop(k3, par, [&](long i) { return lin(b, nbval(k1, i, d2), 0, r[k1].v[i]); });
        break;
    }
    case 24: {
        // an array of fields, indexed by a direction of an outer loop
        Field<T> v[NDIM];
        foralldir(dir) onsites(ALL) v[dir][X] = red((1 + (int)dir) * s1[X]);
        Direction o = (Direction)g.below(NDIM);
        foralldir(dir) {
            if (dir != o)
                onsites(par) v[o][X] = red(v[o][X] + v[dir][X + dir]);
        }
        onsites(ALL) d[X] = v[o][X];
        refloop(kd, ALL, [&](long i) {
            E x = lin(1 + (int)o, r[k1].v[i], 0, r[k1].v[i]);
            if (in_par(par, geo.par(i)))
                for (int dd = 0; dd < NDIM; dd++)
                    if (dd != o) {
                        // v has the boundary conditions of a new field
                        const E &y = r[k1].v[geo.nb(i, dd)];
                        for (int q = 0; q < NC; q++)
                            x[q] = lred(x[q] + (1 + dd) * y[q]);
                    }
            return x;
        });
        break;
    }
    case 25: {
        // changes by operators, in sequence within one loop
        onsites(par) {
            d[X] *= a;
            d[X] += s1[X + d1];
            d[X] -= b * s1[X - d1];
            d[X] = red(d[X]);
        }
        refloop(kd, par, [&](long i) {
            E x = lin(1, nbval(k1, i, d1), -b, nbval(k1, i, NDIRS - 1 - d1));
            return lin(1, x, a, r[kd].v[i]);
        });
        break;
    }
    case 26: {
        // sum of directions, two steps away
        CoordinateVector v;
        int vv[NDIM];
        for (int q = 0; q < NDIM; q++)
            vv[q] = 0;
        for (Direction e : {d1, d2}) {
            if (e < NDIM)
                vv[e]++;
            else
                vv[NDIRS - 1 - e]--;
        }
        if (!geo.alleven)
            par = ALL;
        onsites(par) d[X] = red(a * s1[X + d1 + d2] + b * s1[X - d2]);
        refloop(kd, par, [&](long i) { return lin(a, shval(k1, i, vv), b, nbval(k1, i, NDIRS - 1 - d2)); });
        break;
    }
    case 27: {
        // a branch which no site of this rank may take, around a neighbour of its own
        int c0 = g.below(geo.n[0]);
        T sum = 0;
        onsites(par) {
            if (X.coordinate(e_x) == c0) {
                sum += s1[X + d1];
                d[X] = red(b * s2[X + d2]);
            }
        }
        if (k1 == kd || k2 == kd)
            break;
        E want{};
        for (long i = 0; i < geo.vol; i++) {
            int c[NDIM];
            geo.coord(i, c);
            if (in_par(par, geo.par(i)) && c[0] == c0) {
                E x = nbval(k1, i, d1);
                for (int q = 0; q < NC; q++)
                    want[q] += x[q];
            }
        }
        for (int q = 0; q < NC; q++)
            if (sizeof(A) == 8 && (double)((A *)&sum)[q] != (double)want[q])
                sim_violation("reduction-value", "sum of field<%s> %d over one plane (%s) is %.17g, a single process gives %ld", tn, k1, par_name(par), (double)((A *)&sum)[q], want[q]);
        refloop(kd, par, [&](long i) {
            int c[NDIM];
            geo.coord(i, c);
            return c[0] == c0 ? lin(b, nbval(k2, i, d2), 0, r[k2].v[i]) : r[kd].v[i];
        });
        break;
    }
    case 28: {
        // one field read with many offsets, or one very long
        bool far = g.pct(25);
        int n = far ? 1 : g.in(2, 12);
        int ext[NDIM];
        foralldir(dd) ext[dd] = 4;
        Direction fd = (Direction)g.below(NDIM);
        std::vector<E> acc(geo.vol);
        Field<T> t;
        t = 0;
        for (int j = 0; j < n; j++) {
            CoordinateVector v;
            int vv[NDIM];
            foralldir(dd) {
                vv[dd] = g.in(-ext[dd], ext[dd]);
                if (far && dd == fd)
                    vv[dd] = (g.pct(50) ? 1 : -1) * g.in(10, 130);
                v[dd] = vv[dd];
            }
            onsites(ALL) t[X] = red(t[X] + a * s1[X + v]);
            for (long i = 0; i < geo.vol; i++)
                acc[i] = lin(1, acc[i], a, shval(k1, i, vv));
        }
        onsites(ALL) d[X] = t[X];
        refloop(kd, ALL, [&](long i) { return acc[i]; });
        break;
    }
    case 29: {
        // fields in a container which grows, some of them not yet set
        std::vector<Field<T>> v(1 + g.below(2));
        v[0] = s1;
        int n = g.in(1, 4);
        for (int j = 0; j < n; j++) {
            if (g.pct(50))
                v.emplace_back();
            else
                v.push_back(s2);
        }
        Field<T> unset, moved(std::move(unset));
        v.back() = std::move(moved);
        if (v.back().is_allocated())
            sim_violation("field-move", "a field moved from a field which was never set is allocated");
        v.back() = s2;
        onsites(par) d[X] = red(a * v[0][X + d1] + b * v.back()[X + d2]);
        // copies are periodic
        refloop(kd, par, [&](long i) { return lin(a, r[k1].v[geo.nb(i, d1)], b, r[k2].v[geo.nb(i, d2)]); });
        break;
    }
    case 30: {
        // whole fields in expressions, between neighbour reads of the same fields
        E ec = ecst(kd);
        T c = mk(ec);
        int how = g.below(16);
        bool fresh = false; // result is a new field, and periodic
        long f1 = 0, f2 = 0, f3 = 0; // d = f1 * d + f2 * s1 + f3 * c
        sim_note("expression %d", how);
        switch (how) {
        case 0: d += s1; f1 = 1; f2 = 1; break;
        case 1: d -= s1; f1 = 1; f2 = -1; break;
        case 2: d += c; f1 = 1; f3 = 1; break;
        case 3: d -= c; f1 = 1; f3 = -1; break;
        case 4: d *= a; f1 = a; break;
        case 5:
            f1 = 2;
            // (vectors of integers have no division)
            if constexpr (VECTORISED && std::is_integral<A>::value) {
                d *= 2;
            } else {
                d *= 8;
                d /= 4;
            }
            break;
        case 6: d = c; f3 = 1; break;
        case 7: d = 0; break;
        case 8: d = -s1; f2 = -1; fresh = true; break;
        case 9: d = s1 + c; f2 = 1; f3 = 1; fresh = true; break;
        case 10: d = c + s1; f2 = 1; f3 = 1; fresh = true; break;
        case 11: d = s1 - c; f2 = 1; f3 = -1; fresh = true; break;
        case 12: d = c - s1; f2 = -1; f3 = 1; fresh = true; break;
        case 13: d = d + a * s1; f1 = 1; f2 = a; fresh = true; break;
        case 14: d = s1 * b - d; f1 = -1; f2 = b; fresh = true; break;
        case 15:
            f1 = 2;
            f2 = 1;
            fresh = true;
            if constexpr (VECTORISED && std::is_integral<A>::value)
                d = d * 2 + (+s1);
            else
                d = (d * 4) / 2 + (+s1);
            break;
        }
        onsites(ALL) d[X] = red(d[X]);
        refloop(kd, ALL, [&](long i) {
            E o;
            for (int q = 0; q < NC; q++)
                o[q] = lred(f1 * r[kd].v[i][q] + f2 * r[k1].v[i][q] + f3 * ec[q]);
            return o;
        });
        if (fresh)
            for (int q = 0; q < NDIRS; q++)
                r[kd].anti[q] = false;
        if (g.pct(30)) {
            double n2 = s1.squarenorm(), want = 0;
            for (long i = 0; i < geo.vol; i++)
                for (int q = 0; q < NC; q++)
                    want += (double)r[k1].v[i][q] * r[k1].v[i][q];
            if (std::abs(n2 - want) > 1e-6 * want)
                sim_violation("reduction-value", "squarenorm() of field<%s> %d is %.15g, a single process gives %.15g", tn, k1, n2, want);
        }
#ifndef SUBNODE_LAYOUT
        if (g.pct(30)) {
            Field<T> e = s1;
            bool eq = (e == s1), ne = (e != s1);
            CoordinateVector cv = geo_cv(geo, g.below(geo.vol));
            e[cv] = e[cv] + c;
            bool eq2 = (e == s1);
            if (!eq || ne || eq2)
                sim_violation("field-equal", "field<%s> and its copy: == %d != %d, after changing one site: == %d", tn, (int)eq, (int)ne, (int)eq2);
        }
#endif
        break;
    }
    }
}

template <typename T>
void run_prog(const Geo &geo, int key, const char *name) {
    Prog<T> p(geo, key, name);
    int nops = sim_param("ops", 12);
    long mask = sim_param("opmask", ALLOPS);
    int checks = sim_param("checks", 25);
    for (int i = 0; i < nops; i++) {
        int op;
        do {
            op = p.g.below(NOPS);
        } while (!((mask >> op) & 1));
        p.step(op);
        if (p.g.pct(checks))
            for (int k = 0; k < p.nf; k++)
                p.check(k, "during the program");
    }
    for (int k = 0; k < p.nf; k++)
        p.check(k, "at the end");
}

extern "C" int harness_main(int argc, char **argv) {
    Geo geo;
    start_hila(argc, argv, geo);
    hila::seed_random(sim_seed());
    int types = sim_param("types", 1);
    if (types & 1)
        run_prog<long>(geo, 1, "long");
    if (types & 2)
        run_prog<double>(geo, 2, "double");
    if (types & 4)
        run_prog<float>(geo, 3, "float");
    if (types & 8)
        run_prog<Vector<3, double>>(geo, 4, "Vector3");
    if (types & 16)
        run_prog<Complex<double>>(geo, 5, "Complex");
    end_hila();
    return 0;
}

extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 1000);
    Out o(out, n);
    static const int nrs[] = {1, 2, 2, 3, 4, 4, 4, 5, 6, 7, 8, 8};
    int nr = nrs[g.below(12)];
    int sz[NDIM];
    bool odd = g.pct(35);
    choose_size(g, nr, odd, tier ? 1500 : 400, sz);
    o.line("nranks=%d", nr);
    plan_size(o, sz);
    o.line("ops=%d", g.in(4, tier ? 60 : 24));
    o.line("types=%d", 1 << g.below(5));
    o.line("checks=%d", g.pct(50) ? 0 : 30);
    // swarm: a random subset of the operations
    long mask = 0;
    for (int i = 0; i < NOPS; i++)
        if (g.pct(60))
            mask |= 1l << i;
    if (g.pct(20))
        mask = ALLOPS;
    if (!mask)
        mask = 1;
    o.line("opmask=%ld", mask);
#ifdef SPECIAL_BOUNDARY_CONDITIONS
    o.line("bc=%d", (int)g.pct(80));
#endif
}
