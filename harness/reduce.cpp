// C03: reductions over site loops compared with exact integer totals.
#include "common.h"
#include <array>

struct Src {
    std::vector<long> a, b; // reference contents of the two source fields
};
static Geo geo;

template <typename T>
struct Elem {
    using A = hila::arithmetic_type<T>;
    static constexpr int NC = sizeof(T) / sizeof(A);
};
static long nchk;

template <typename T>
static void expect(const T &got, const long *want, const char *what, int opno) {
    using A = typename Elem<T>::A;
    for (int q = 0; q < Elem<T>::NC; q++)
        if ((double)((const A *)&got)[q] != (double)want[q])
            sim_violation("reduction-value", "op %d: %s component %d is %.17g, a single process gives %ld", opno, what, q, (double)((const A *)&got)[q], want[q]);
    nchk++;
}

// set the modes; the arguments default to true
template <typename R>
static void set_modes(R &r, bool all, bool nb, bool del, uint64_t h) {
    if (all && (h & 1))
        r.allreduce();
    else
        r.allreduce(all);
    if (nb && (h & 2))
        r.nonblocking();
    else
        r.nonblocking(nb);
    if (del && (h & 4))
        r.delayed();
    else
        r.delayed(del);
    if (r.is_allreduce() != all || r.is_nonblocking() != nb || r.is_delayed() != del)
        sim_violation("reduction-mode", "allreduce %d nonblocking %d delayed %d are %d %d %d after setting them", (int)all, (int)nb, (int)del, (int)r.is_allreduce(),
                      (int)r.is_nonblocking(), (int)r.is_delayed());
}
// per site weight of a loop: value for component q
static inline long wref(long a, long b, int q, int m) {
    return (a * (q + 1) + b * m) % 23;
}

template <typename T>
static T mkT(const long *v) {
    T t;
    for (int q = 0; q < Elem<T>::NC; q++)
        ((typename Elem<T>::A *)&t)[q] = (typename Elem<T>::A)v[q];
    return t;
}

// a field of T with known small integers, its reference, and loops over it
template <typename T>
struct FieldOf {
    static constexpr int NC = Elem<T>::NC;
    Field<T> f;
    std::vector<std::array<long, NC>> r;
    void fill(Gen &g) {
        r.resize(geo.vol);
        bool neg = std::is_signed<typename Elem<T>::A>::value;
        for (long i = 0; i < geo.vol; i++)
            for (int q = 0; q < NC; q++)
                r[i][q] = neg ? g.in(-20, 20) : g.in(0, 20);
        fill_field(geo, f, [&](long i) { return mkT<T>(r[i].data()); });
    }
    template <typename P>
    void total(P in, std::array<long, NC> &s) {
        for (long i = 0; i < geo.vol; i++)
            if (in(i))
                for (int q = 0; q < NC; q++)
                    s[q] += r[i][q];
    }
};

static Parity rpar(Gen &g) {
    int k = g.below(4);
    return k == 0 ? EVEN : k == 1 ? ODD : ALL;
}
static int xcoord(long i, int d) {
    int c[NDIM];
    geo.coord(i, c);
    return c[d];
}

// ---------------------------------------------------------------- plain variables
template <typename T>
static void plain(Gen &g, const char *tn) {
    constexpr int NC = Elem<T>::NC;
    FieldOf<T> F;
    F.fill(g);
    Field<T> &f = F.f;
    std::array<long, NC> st, ref{};
    bool have_all = true; // the variable is valid on all ranks
    for (int q = 0; q < NC; q++)
        st[q] = g.in(0, 9);
    T s = mkT<T>(st.data());
    // documented: the starting value is the one of rank 0
    if (hila::myrank() != 0 && g.s % 2)
        s = s + s;
    ref = st;
    int n = g.in(1, 5);
    for (int k = 0; k < n; k++) {
        Parity par = rpar(g);
        bool all = g.pct(65);
        int how = g.below(4);
        Direction ax = (Direction)g.below(NDIM);
        int m = g.in(2, 3), z = g.below(m);
        Direction dir = (Direction)g.below(NDIRS);
        sim_note("plain<%s> loop %d all=%d par=%s", tn, how, (int)all, par_name(par));
        if (!all)
            hila::set_allreduce(false);
        have_all = all;
        switch (how) {
        case 0:
            onsites(par) s += f[X];
            F.total([&](long i) { return in_par(par, geo.par(i)); }, ref);
            break;
        case 1:
            onsites(par) {
                if (X.coordinate(ax) % m == z)
                    s += f[X];
            }
            F.total([&](long i) { return in_par(par, geo.par(i)) && xcoord(i, ax) % m == z; }, ref);
            break;
        case 2:
            onsites(par) {
                T t = f[X + dir];
                if (X.coordinate(ax) % m == z)
                    s += t;
                s += f[X];
            }
            F.total([&](long i) { return in_par(par, geo.par(i)); }, ref);
            for (long i = 0; i < geo.vol; i++)
                if (in_par(par, geo.par(i)) && xcoord(i, ax) % m == z)
                    for (int q = 0; q < NC; q++)
                        ref[q] += F.r[geo.nb(i, dir)][q];
            break;
        case 3: {
            // several reductions of different types in one loop
            double d = 3;
            long l = 4;
            float e = 0;
            onsites(par) {
                s += f[X];
                d += X.coordinate(ax);
                l += 1;
                if (X.coordinate(ax) % m == z)
                    e += 1;
            }
            F.total([&](long i) { return in_par(par, geo.par(i)); }, ref);
            if (all || hila::myrank() == 0) {
                long wd = 3, wl = 4, we = 0;
                for (long i = 0; i < geo.vol; i++)
                    if (in_par(par, geo.par(i))) {
                        wd += xcoord(i, ax);
                        wl++;
                        we += xcoord(i, ax) % m == z;
                    }
                expect(d, &wd, "double in a loop with several reductions", k);
                expect(l, &wl, "long in a loop with several reductions", k);
                expect(e, &we, "float in a loop with several reductions", k);
            }
            break;
        }
        }
        if (have_all || hila::myrank() == 0)
            expect(s, ref.data(), tn, k);
    }
    // Field::sum, with and without all-reduction
    Parity par = rpar(g);
    bool all = g.pct(60);
    T v = f.sum(par, all);
    std::array<long, NC> w{};
    F.total([&](long i) { return in_par(par, geo.par(i)); }, w);
    if (all || hila::myrank() == 0)
        expect(v, w.data(), "Field::sum", 99);
}

// ---------------------------------------------------------------- products
template <typename T>
static void products(Gen &g, const char *tn) {
    Field<T> f;
    std::vector<long> r(geo.vol);
    int big = 0;
    for (long i = 0; i < geo.vol; i++) {
        r[i] = std::is_signed<T>::value && g.pct(20) ? -1 : 1;
        if (big < 16 && g.pct(6)) {
            r[i] *= 2;
            big++;
        }
    }
    fill_field(geo, f, [&](long i) { return (T)r[i]; });
    T p = 3;
    if (hila::myrank() != 0)
        p = 5;
    long ref = 3;
    for (int k = 0; k < 2; k++) {
        Parity par = k == 0 ? (g.pct(50) ? EVEN : ODD) : ALL;
        if (k == 1) {
            p = 1;
            ref = 1;
        }
        if (g.pct(40)) {
#ifdef SUBNODE_LAYOUT
            // recorded finding: a counter of another size than the field
            typename std::conditional<sizeof(T) == 4, int, long>::type cnt = 2;
            long wc = 2;
#else
            long cnt = 2, wc = 2;
#endif
            onsites(par) {
                p *= f[X];
                cnt += 1;
            }
            for (long i = 0; i < geo.vol; i++)
                wc += in_par(par, geo.par(i));
            expect(cnt, &wc, "sum next to a product", k);
        } else if (g.pct(40)) {
            Direction dir = (Direction)g.below(NDIRS);
            onsites(par) p *= f[X + dir];
            for (long i = 0; i < geo.vol; i++)
                if (in_par(par, geo.par(i)))
                    ref *= r[geo.nb(i, dir)];
            expect(p, &ref, tn, k);
            continue;
        } else {
            onsites(par) p *= f[X];
        }
        for (long i = 0; i < geo.vol; i++)
            if (in_par(par, geo.par(i)))
                ref *= r[i];
        expect(p, &ref, tn, k);
    }
#ifndef NO_FIELD_PRODUCT
    Parity par = rpar(g);
    bool all = g.pct(60);
    T v = f.product(par, all);
    long w = 1;
    for (long i = 0; i < geo.vol; i++)
        if (in_par(par, geo.par(i)))
            w *= r[i];
    if (all || hila::myrank() == 0)
        expect(v, &w, "Field::product", 99);
#endif
}

// ---------------------------------------------------------------- Reduction<T>
template <typename T>
static void reductions(Gen &g, const char *tn) {
    constexpr int NC = Elem<T>::NC;
    typedef std::array<long, NC> E;
    FieldOf<T> F;
    F.fill(g);
    Field<T> &f = F.f;
    const int NR = 2;
    Reduction<T> ra, rb;
    Reduction<T> *r[NR] = {&ra, &rb};
    E ref[NR];
    bool all[NR], nb[NR], del[NR], open[NR];
    for (int j = 0; j < NR; j++) {
        ref[j].fill(0);
        all[j] = true;
        nb[j] = del[j] = open[j] = false;
    }
    auto check = [&](int j, int k) {
        const T v = r[j]->value(); // on all ranks
        // without any loop since the assignment only rank 0 holds the value
        if ((all[j] && open[j]) || hila::myrank() == 0)
            expect(v, ref[j].data(), tn, k);
    };
    auto reset = [&](int j) {
        long v = g.in(0, 7);
        E e;
        e.fill(0);
        if (NC == 1)
            e[0] = v;
        T t = mkT<T>(e.data());
        if (g.pct(70))
            *r[j] = t;
        else
            r[j]->set(t);
        ref[j] = e;
        all[j] = g.pct(60);
        nb[j] = g.pct(50);
        del[j] = g.pct(50);
        set_modes(*r[j], all[j], nb[j], del[j], sim_seed() + j);
        open[j] = false;
    };
    for (int j = 0; j < NR; j++)
        if (g.pct(80))
            reset(j);
    int n = g.in(3, 16);
    for (int k = 0; k < n; k++) {
        int j = g.below(NR);
        int op = g.below(9);
        Parity par = rpar(g);
        sim_note("Reduction<%s> %d op %d all=%d nb=%d delayed=%d", tn, j, op, (int)all[j], (int)nb[j], (int)del[j]);
        auto in = [&](long i) { return in_par(par, geo.par(i)); };
        switch (op) {
        case 0:
        case 1:
        case 2: {
            Reduction<T> &q = *r[j];
            onsites(par) q += f[X];
            F.total(in, ref[j]);
            open[j] = true;
            break;
        }
        case 3:
            onsites(par) {
                ra += f[X];
                rb += f[X];
            }
            F.total(in, ref[0]);
            F.total(in, ref[1]);
            open[0] = open[1] = true;
            break;
        case 4:
            r[j]->start_reduce();
            break;
        case 5:
            r[j]->reduce();
            break;
        case 6:
            check(j, k);
            break;
        case 7:
            // something else meanwhile
            if (g.pct(50)) {
                long s = 1, w = 1 + geo.vol;
                onsites(ALL) s += 1;
                expect(s, &w, "plain sum between", k);
            } else {
                Direction d = (Direction)g.below(NDIRS);
                f.start_gather(d, par);
            }
            break;
        case 8:
            if (g.pct(40)) {
                if (g.pct(50))
                    check(j, k);
                reset(j);
            }
            break;
        }
    }
    if (g.pct(85))
        for (int j = 0; j < NR; j++)
            check(j, n);
}

// ---------------------------------------------------------------- members of objects
// reductions to data members, inside of the methods of the object and outside of it
template <typename T>
struct Holder {
    static constexpr int NC = Elem<T>::NC;
    typedef std::array<long, NC> E;
    T sum;
    double arr[3];
    struct {
        long n;
    } in;
    Reduction<T> red;
    Reduction<double> reds[2];
    ReductionVector<double> vec;
    Complex<double> z;
    Holder() : vec(3) {}
    void clear(bool all, bool nb, bool del) {
        std::array<long, NC> zero{};
        sum = mkT<T>(zero.data());
        for (auto &x : arr)
            x = 1;
        in.n = 5;
        red = sum;
        set_modes(red, all, nb, del, sim_seed());
        for (auto &x : reds) {
            x = 0;
            set_modes(x, all, nb, del, sim_seed());
        }
        vec = 0;
        set_modes(vec, all, nb, del, sim_seed());
        z = 0;
    }
    void add(const Field<T> &f, Parity par, int how, int k) {
        switch (how) {
        case 0:
            onsites(par) sum += f[X];
            break;
        case 1:
            onsites(par) {
                this->in.n += 2;
                sum += f[X];
                arr[k] += 1;
            }
            break;
        case 2:
            onsites(par) red += f[X];
            break;
        case 3:
            onsites(par) {
                reds[1] += X.coordinate(e_x);
                red += f[X];
            }
            break;
        case 4:
            onsites(par) vec[X.coordinate(e_x) % 3] += 1;
            break;
        case 5:
            onsites(par) {
                z.im += X.coordinate(e_y);
                in.n += 1;
            }
            break;
        }
    }
};
template <typename T>
static void members(Gen &g, const char *tn) {
    constexpr int NC = Elem<T>::NC;
    FieldOf<T> F;
    F.fill(g);
    Holder<T> h;
    bool all = g.pct(60);
    h.clear(all, g.pct(50), g.pct(50));
    std::array<long, NC> sum{}, red{};
    long arr[3] = {1, 1, 1}, n = 5, r1 = 0, vec[3] = {0, 0, 0}, y = 0;
    int steps = g.in(1, 8);
    bool used[6] = {};
    for (int i = 0; i < steps; i++) {
        Parity par = rpar(g);
        int how = g.below(6), k = g.below(3);
        sim_note("members<%s> %d par=%s", tn, how, par_name(par));
        used[how] = true;
        h.add(F.f, par, how, k);
        auto in = [&](long i) { return in_par(par, geo.par(i)); };
        if (how < 2)
            F.total(in, sum);
        if (how == 2 || how == 3)
            F.total(in, red);
        for (long i = 0; i < geo.vol; i++)
            if (in(i)) {
                if (how == 1) {
                    n += 2;
                    arr[k]++;
                }
                if (how == 3)
                    r1 += xcoord(i, 0);
                if (how == 4)
                    vec[xcoord(i, 0) % 3]++;
                if (how == 5) {
                    y += xcoord(i, 1);
                    n++;
                }
            }
    }
    expect(h.sum, sum.data(), "sum in a member", steps);
    for (int k = 0; k < 3; k++)
        expect(h.arr[k], &arr[k], "member array element", k);
    expect(h.in.n, &n, "member of a member", steps);
    long zz[2] = {0, y};
    expect(h.z, zz, "part of a complex member", steps);
    const T v = h.red.value();
    if ((all && (used[2] || used[3])) || hila::myrank() == 0)
        expect(v, red.data(), "Reduction member", steps);
    double w = h.reds[1].value();
    if ((all && used[3]) || hila::myrank() == 0)
        expect(w, &r1, "Reduction in a member array", steps);
    for (int k = 0; k < 3; k++) {
        double x = h.vec[k];
        if ((all && used[4]) || hila::myrank() == 0)
            expect(x, &vec[k], "ReductionVector member", k);
    }
}

// ---------------------------------------------------------------- ReductionVector<T>
template <typename T>
static void vectors(Gen &g, const char *tn) {
    constexpr int NC = Elem<T>::NC;
    typedef std::array<long, NC> E;
    FieldOf<T> F;
    F.fill(g);
    Field<T> &f = F.f;
    int len = g.in(1, 9);
    ReductionVector<T> v(len);
    std::vector<E> ref(len);
    for (auto &e : ref)
        e.fill(0);
    bool all = true, nb = false, del = false, pending = false, valid_all = true;
    auto opts = [&]() {
        all = g.pct(60);
        nb = g.pct(40);
        del = g.pct(40);
        set_modes(v, all, nb, del, sim_seed() + len);
    };
    opts();
    auto check = [&](int k) {
        if (pending) {
            if (del)
                v.reduce();
            else if (nb)
                v.wait();
            pending = false;
        }
        if (valid_all || hila::myrank() == 0)
            for (int i = 0; i < len; i++)
                expect(T(v[i]), ref[i].data(), tn, k);
    };
    int n = g.in(2, 10);
    for (int k = 0; k < n; k++) {
        int op = g.below(8);
        Parity par = rpar(g);
        Direction ax = (Direction)g.below(NDIM);
        int m = g.in(2, 9);
        sim_note("ReductionVector<%s> op %d len=%d all=%d nb=%d delayed=%d", tn, op, len, (int)all, (int)nb, (int)del);
        switch (op) {
        case 0:
        case 1:
        case 2:
            onsites(par) {
                v[X.coordinate(ax) % len] += f[X];
            }
            for (long i = 0; i < geo.vol; i++)
                if (in_par(par, geo.par(i)))
                    for (int q = 0; q < NC; q++)
                        ref[xcoord(i, ax) % len][q] += F.r[i][q];
            pending = true;
            valid_all = all;
            break;
        case 3:
            onsites(par) {
                if (X.coordinate(ax) % m == 0)
                    v[(X.coordinate(ax) + m) % len] += f[X];
            }
            for (long i = 0; i < geo.vol; i++)
                if (in_par(par, geo.par(i)) && xcoord(i, ax) % m == 0)
                    for (int q = 0; q < NC; q++)
                        ref[(xcoord(i, ax) + m) % len][q] += F.r[i][q];
            pending = true;
            valid_all = all;
            break;
        case 4:
            if (del && pending) {
                if (g.pct(50)) {
                    v.start_reduce();
                    v.reduce();
                } else
                    v.reduce();
                pending = false;
            }
            break;
        case 5:
            check(k);
            break;
        case 6: {
            if (g.pct(50))
                check(k);
            // assignment drops what was there, also a reduction under way
            long c = NC == 1 ? g.in(0, 5) : 0;
            E e;
            e.fill(0);
            e[0] = c;
            if (c == 0 && g.pct(50))
                v = 0;
            else
                v = mkT<T>(e.data());
            for (auto &x : ref)
                x = e;
            pending = false;
            valid_all = true;
            opts();
            break;
        }
        case 7: {
            check(k);
            int l2 = g.in(1, 9);
            E e;
            e.fill(0);
            v.resize(l2, mkT<T>(e.data()));
            ref.resize(l2, e);
            len = l2;
            break;
        }
        }
        if (v.size() != (size_t)len)
            sim_violation("reduction-value", "ReductionVector has size %zu, should be %d", v.size(), len);
    }
    // or it is destroyed with the reduction under way
    if (g.pct(60))
        check(n);
}
template <typename T>
static void vecprod(Gen &g, const char *tn) {
    int len = g.in(1, 4);
    ReductionVector<T> v(len, (T)1);
    std::vector<long> ref(len, 1);
    bool all = g.pct(60), del = g.pct(50);
    v.allreduce(all).delayed(del);
    int n = g.in(1, 3);
    for (int k = 0; k < n; k++) {
        Direction ax = (Direction)g.below(NDIM);
        long site = g.below(geo.vol);
        CoordinateVector c = geo_cv(geo, site);
        onsites(ALL) {
            v[X.coordinate(ax) % len] *= (X.coordinates() == c) ? 3 : (X.coordinate(e_x) == 1 ? -1 : 1);
        }
        for (long i = 0; i < geo.vol; i++)
            ref[xcoord(i, ax) % len] *= i == site ? 3 : (xcoord(i, 0) == 1 ? -1 : 1);
        if (!del && (all || hila::myrank() == 0))
            for (int i = 0; i < len; i++)
                expect(T(v[i]), &ref[i], tn, k);
    }
    if (del)
        v.reduce();
    if (all || hila::myrank() == 0)
        for (int i = 0; i < len; i++)
            expect(T(v[i]), &ref[i], tn, n);
}

// ---------------------------------------------------------------- extended precision, helpers
static void extended(Gen &g) {
    // large values of both signs that cancel in the total, and small ones
    std::vector<double> r(geo.vol);
    double big = g.pct(50) ? 1152921504606846976.0 : 1e22;
    long small = 0;
    std::vector<double> bigs;
    for (long i = 0; i < geo.vol; i++) {
        long s = g.in(-9, 9);
        small += s;
        r[i] = s;
    }
    int nb = g.in(0, (int)std::min<long>(geo.vol / 2, 6));
    for (int k = 0; k < nb; k++) {
        long i = 2 * k, j = geo.vol - 1 - 2 * k;
        if (i >= j)
            break;
        small -= (long)r[i] + (long)r[j];
        r[i] = big * (k + 1);
        r[j] = -big * (k + 1);
    }
    Field<double> f;
    fill_field(geo, f, [&](long i) { return r[i]; });
    ExtendedPrecision s = 7;
    bool all = g.pct(60);
    int times = g.in(1, 2);
    for (int k = 0; k < times; k++) {
        if (!all)
            hila::set_allreduce(false);
        double plain = 0;
        onsites(ALL) {
            s += f[X];
            plain += 1;
        }
    }
    long want = 7 + times * small;
    double got = s.to_double();
    if (all || hila::myrank() == 0)
        expect(got, &want, "ExtendedPrecision", 0);
}
static void nodesums(Gen &g) {
    int n = g.in(1, 5);
    bool all = g.pct(60);
    std::vector<long> v(n), w(n, 0), p(n), wp(n, 1);
    std::vector<Complex<double>> c(n);
    std::vector<long> wc(2 * n, 0);
    for (int r = 0; r < hila::number_of_nodes(); r++)
        for (int i = 0; i < n; i++) {
            long x = g.in(-50, 50), y = g.in(1, 3);
            if (r == hila::myrank()) {
                v[i] = x;
                p[i] = y;
                c[i].re = x;
                c[i].im = y;
            }
            w[i] += x;
            wp[i] *= y;
            wc[2 * i] += x;
            wc[2 * i + 1] += y;
        }
    hila::reduce_node_sum(v.data(), n, all);
    hila::reduce_node_product(p.data(), n, all);
    hila::reduce_node_sum(c.data(), n, all);
    if (all || hila::myrank() == 0)
        for (int i = 0; i < n; i++) {
            expect(v[i], &w[i], "reduce_node_sum", i);
            expect(p[i], &wp[i], "reduce_node_product", i);
            expect(c[i], &wc[2 * i], "reduce_node_sum of complex", i);
        }
}

#ifdef SUBNODE_LAYOUT
static void mixed_count(Gen &g) {
    Field<float> f;
    fill_field(geo, f, [&](long i) { return (float)(i % 7); });
    long cnt = 2, wc = 2 + geo.vol;
    float s = 0;
    onsites(ALL) {
        s += f[X];
        cnt += 1;
    }
    expect(cnt, &wc, "long counter in a loop over a float field", 0);
}
#endif

extern "C" int harness_main(int argc, char **argv) {
    start_hila(argc, argv, geo);
    Gen g(sim_seed(), 7);
    int n = sim_param("ops", 6);
#ifdef SUBNODE_LAYOUT
    if (sim_param("known", 0))
        mixed_count(g);
#endif
    long mask = sim_param("opmask", -1);
    for (int i = 0; i < n; i++) {
        int op;
        do {
            op = g.below(28);
        } while (!((mask >> op) & 1));
        char nm[24];
        snprintf(nm, sizeof nm, "kind.%d", op);
        if (sim_rank() == 0)
            sim_count(nm, 1);
        switch (op) {
        case 0: plain<double>(g, "double"); break;
        case 1: plain<float>(g, "float"); break;
        case 2: plain<int>(g, "int"); break;
        case 3: plain<long>(g, "long"); break;
        case 4: plain<unsigned>(g, "unsigned"); break;
        case 5: plain<Complex<double>>(g, "Complex<double>"); break;
        case 6: plain<Vector<3, float>>(g, "Vector<3,float>"); break;
        case 7: plain<Matrix<2, 2, Complex<double>>>(g, "Matrix<2,2,Complex<double>>"); break;
        case 8: products<double>(g, "product double"); break;
        case 9: products<int>(g, "product int"); break;
        case 10: products<long>(g, "product long"); break;
        case 11: products<float>(g, "product float"); break;
        case 12:
        case 13: reductions<double>(g, "Reduction<double>"); break;
        case 14: reductions<float>(g, "Reduction<float>"); break;
        case 15: reductions<long>(g, "Reduction<long>"); break;
        case 16: reductions<Complex<double>>(g, "Reduction<Complex<double>>"); break;
        case 17: reductions<Vector<3, float>>(g, "Reduction<Vector<3,float>>"); break;
        case 18: vectors<double>(g, "ReductionVector<double>"); break;
        case 19: vectors<int>(g, "ReductionVector<int>"); break;
        case 20: vectors<Complex<float>>(g, "ReductionVector<Complex<float>>"); break;
        case 21: vecprod<double>(g, "ReductionVector<double> product"); break;
        case 22: vecprod<long>(g, "ReductionVector<long> product"); break;
        case 23: extended(g); break;
        case 24: nodesums(g); break;
        case 25: members<double>(g, "double"); break;
        case 26: members<long>(g, "long"); break;
        case 27: members<Vector<3, float>>(g, "Vector<3,float>"); break;
        }
    }
    sim_count("checked.reductions", nchk);
    end_hila();
    return 0;
}

extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 1000);
    Out o(out, n);
    static const int nrs[] = {1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 8};
    int nr = nrs[g.below(11)];
    int sz[NDIM];
    choose_size(g, nr, g.pct(35), tier ? 800 : 250, sz);
    if (known_seed(seed))
        o.line("known=1");
    o.line("nranks=%d", nr);
    plan_size(o, sz);
    o.line("ops=%d", g.in(1, tier ? 16 : 6));
    long mask = 0;
    for (int i = 0; i < 25; i++)
        if (g.pct(35))
            mask |= 1l << i;
    if (!mask)
        mask = 0x1ffffff;
    o.line("opmask=%ld", mask);
}
