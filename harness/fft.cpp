// C12: the distributed Fourier transform is the defining sum; reflection mirrors.
#include "common.h"
#include <complex>
#include <cmath>

static Geo base;
static long nchk;
typedef std::complex<double> C;
typedef std::vector<C> Vec;

// the defining sum, direction by direction
static Vec dft(const Geo &geo, const Vec &in, const int *on, int sign) {
    Vec a = in;
    for (int d = 0; d < NDIM; d++)
        if (on[d]) {
            int L = geo.n[d];
            std::vector<C> w(L);
            for (int k = 0; k < L; k++)
                w[k] = std::polar(1.0, sign * 2 * M_PI * k / L);
            Vec b(geo.vol);
            for (long i = 0; i < geo.vol; i++) {
                int c[NDIM];
                geo.coord(i, c);
                int k = c[d];
                C s = 0;
                for (int x = 0; x < L; x++) {
                    c[d] = x;
                    s += a[geo.idx(c)] * w[(long)k * x % L];
                }
                b[i] = s;
            }
            a = b;
        }
    return a;
}
static long mirror(const Geo &geo, long i, const int *on) {
    int c[NDIM];
    geo.coord(i, c);
    for (int d = 0; d < NDIM; d++)
        if (on[d])
            c[d] = (geo.n[d] - c[d]) % geo.n[d];
    return geo.idx(c);
}
static std::string dirs_s(const int *on) {
    std::string s;
    for (int d = 0; d < NDIM; d++)
        s += on[d] ? char('x' + d == '{' ? 't' : 'x' + d) : '-';
    return s;
}

// the complex components of a value
template <typename T>
struct Comp {
    typedef hila::arithmetic_type<T> A;
    static constexpr int n = sizeof(T) / sizeof(Complex<A>);
    static C get(const T &t, int k) {
        const A *p = (const A *)&t;
        return C((double)p[2 * k], (double)p[2 * k + 1]);
    }
    static void set(T &t, int k, C v) {
        A *p = (A *)&t;
        p[2 * k] = (A)v.real();
        p[2 * k + 1] = (A)v.imag();
    }
    static constexpr double eps = std::is_same<A, float>::value ? 1e-6 : 1e-14;
};

// site loops (hilapp specialises the templates which hold one)
template <typename T>
static void set_all(Field<T> &f, T z) {
    onsites(ALL) f[X] = z;
}
template <typename T>
static void get_nb(Field<T> &h, const Field<T> &f, Direction d) {
    onsites(ALL) h[X] = f[X + d];
}

struct Run {
    Gen &g;
    Geo geo;
    Run(Gen &gg) : g(gg) {}
    void draw_dirs(int *on, bool none) {
        int n = 0;
        for (int d = 0; d < NDIM; d++)
            n += on[d] = g.pct(65);
        if (n == 0 && !none)
            on[g.below(NDIM)] = 1;
        if (g.pct(30))
            for (int d = 0; d < NDIM; d++)
                on[d] = 1;
    }
    static CoordinateVector cv(const int *on) {
        CoordinateVector c;
        foralldir(d) c[d] = on[d];
        return c;
    }
    // input for each component; of several kinds
    Vec draw() {
        Vec v(geo.vol);
        int kind = g.below(4);
        if (kind == 0) { // a plane wave
            int k[NDIM];
            for (int d = 0; d < NDIM; d++)
                k[d] = g.below(geo.n[d]);
            for (long i = 0; i < geo.vol; i++) {
                int c[NDIM];
                geo.coord(i, c);
                double ph = 0;
                for (int d = 0; d < NDIM; d++)
                    ph += (double)((long)k[d] * c[d] % geo.n[d]) / geo.n[d];
                v[i] = std::polar(4.0, 2 * M_PI * ph);
            }
        } else if (kind == 1) // one site
            v[g.next() % geo.vol] = C(g.in(-9, 9), g.in(1, 9));
        else
            for (auto &x : v)
                x = C(g.in(-99, 99) / 8.0, g.in(-99, 99) / 8.0);
        return v;
    }
    template <typename T>
    void fill(Field<T> &f, const std::vector<Vec> &v) {
        T z = T(0);
        set_all(f, z);
        for (unsigned s = 0; s < lattice->mynode.volume; s++) {
            long i = geo_idx(geo, lattice->coordinates(s));
            T t = z;
            for (int k = 0; k < Comp<T>::n; k++)
                Comp<T>::set(t, k, v[k][i]);
            f.set_value_at(t, s);
        }
        f.mark_changed(ALL);
    }
    template <typename T>
    void judge(const Field<T> &f, const std::vector<Vec> &w, double scale, const char *cls, const std::string &what) {
        double tol = Comp<T>::eps * 30 * (scale + 1);
        for (unsigned s = 0; s < lattice->mynode.volume; s++) {
            CoordinateVector c = lattice->coordinates(s);
            long i = geo_idx(geo, c);
            T t = f.get_value_at(s);
            for (int k = 0; k < Comp<T>::n; k++) {
                C got = Comp<T>::get(t, k), want = w[k][i];
                if (!(std::abs(got - want) <= tol))
                    sim_violation(cls, "%s: component %d at %s is (%g,%g), should be (%g,%g)", what.c_str(), k, cvs(c).c_str(), got.real(), got.imag(), want.real(), want.imag());
                nchk++;
            }
        }
    }
    static double norm1(const std::vector<Vec> &v) {
        double m = 0;
        for (auto &a : v) {
            double s = 0;
            for (auto &x : a)
                s += std::abs(x);
            m = std::max(m, s);
        }
        return m;
    }
    template <typename T>
    void fft(const char *tn) {
        int on[NDIM];
        draw_dirs(on, g.pct(10));
        bool all = true;
        long vol = 1;
        for (int d = 0; d < NDIM; d++) {
            all = all && on[d];
            if (on[d])
                vol *= geo.n[d];
        }
        int sign = g.pct(50) ? -1 : 1; // forward: exp(-ikx)
        fft_direction fd = sign < 0 ? fft_direction::forward : fft_direction::back;
        std::vector<Vec> v, w;
        for (int k = 0; k < Comp<T>::n; k++) {
            v.push_back(draw());
            w.push_back(dft(geo, v[k], on, sign));
        }
        double sc = norm1(v);
        Field<T> f, r;
        fill(f, v);
        int how = g.below(5);
        std::string what = std::string("FFT of ") + tn + " in directions " + dirs_s(on) + (sign < 0 ? " forward" : " back") + " on " + size_s() + " way " + std::to_string(how);
        sim_note("%s", what.c_str());
        bool inplace = false;
        if (how == 0 && all)
            r = f.FFT(fd);
        else if (how == 1 && all)
            FFT_field(f, r, fd);
        else if (how == 2) {
            FFT_field(f, f, cv(on), fd);
            inplace = true;
        } else if (how == 3) {
            if (g.pct(50))
                r = T(0); // an existing result field, with halo in use
            else
                fill(r, v);
            if (g.pct(50))
                r.gather(e_x, ALL);
            FFT_field(f, r, cv(on), fd);
        } else
            r = f.FFT(cv(on), fd);
        if (inplace)
            judge(f, w, sc, "fft-value", what + " (in place)");
        else {
            judge(r, w, sc, "fft-value", what);
            judge(f, v, 0, "fft-input-changed", what);
        }
        Field<T> &res = inplace ? f : r;
        if (g.pct(40)) { // the halo of the result
            Direction d = (Direction)g.below(NDIRS);
            Field<T> h;
            get_nb(h, res, d);
            std::vector<Vec> wh = w;
            for (int k = 0; k < Comp<T>::n; k++)
                for (long i = 0; i < geo.vol; i++)
                    wh[k][i] = w[k][geo.nb(i, d)];
            judge(h, wh, sc, "fft-value", what + ": neighbour");
        }
        if (g.pct(50)) { // and back
            Field<T> b = res.FFT(cv(on), sign < 0 ? fft_direction::back : fft_direction::forward);
            std::vector<Vec> wb = v;
            for (auto &a : wb)
                for (auto &x : a)
                    x *= (double)vol;
            judge(b, wb, sc * vol, "fft-roundtrip", what + " and back");
        }
    }
    template <typename T>
    void real(const char *tn) {
        int sign = g.pct(50) ? -1 : 1;
        fft_direction fd = sign < 0 ? fft_direction::forward : fft_direction::back;
        int on[NDIM];
        for (int d = 0; d < NDIM; d++)
            on[d] = 1;
        bool even = true;
        for (int d = 0; d < NDIM; d++)
            even = even && geo.n[d] % 2 == 0;
        Vec v = draw();
        if (!even || g.pct(50)) {
            for (auto &x : v)
                x = x.real();
            Field<T> f;
            fill_field(geo, f, [&](long i) { return (T)v[i].real(); });
            for (auto &x : v)
                x = (double)(T)x.real();
            std::string what = std::string("FFT_real_to_complex of ") + tn + " on " + size_s();
            sim_note("%s", what.c_str());
            auto r = f.FFT_real_to_complex(fd);
            judge(r, {dft(geo, v, on, sign)}, norm1({v}), "fft-real", what);
        } else {
            // any complex field: the ignored half must not matter
            Field<Complex<T>> f;
            fill(f, std::vector<Vec>{v});
            Vec s(geo.vol);
            for (long i = 0; i < geo.vol; i++) {
                long m = mirror(geo, i, on);
                int c[NDIM], ty = 0;
                geo.coord(i, c);
                for (int d = 0; d < NDIM && !ty; d++)
                    ty = c[d] == 0 || 2 * c[d] == geo.n[d] ? 0 : 2 * c[d] < geo.n[d] ? 1 : -1;
                CoordinateVector cc = geo_cv(geo, i);
                if (hila::FFT_complex_to_real_site(cc) != ty)
                    sim_violation("fft-real", "FFT_complex_to_real_site at %s is %d, should be %d", cvs(cc).c_str(), hila::FFT_complex_to_real_site(cc), ty);
                s[i] = ty > 0 ? v[i] : ty < 0 ? std::conj(v[m]) : C(v[i].real());
            }
            std::string what = std::string("FFT_complex_to_real of ") + tn + " on " + size_s();
            sim_note("%s", what.c_str());
            auto r = f.FFT_complex_to_real(fd);
            Vec w = dft(geo, s, on, sign);
            double tol = Comp<Complex<T>>::eps * 30 * (norm1({s}) + 1);
            for (unsigned q = 0; q < lattice->mynode.volume; q++) {
                long i = geo_idx(geo, lattice->coordinates(q));
                if (std::abs(w[i].imag()) > tol)
                    sim_violation("model", "reference of the real transform is not real");
                if (!(std::abs((double)r.get_value_at(q) - w[i].real()) <= tol))
                    sim_violation("fft-real", "%s: %g at %s, should be %g", what.c_str(), (double)r.get_value_at(q), cvs(lattice->coordinates(q)).c_str(), w[i].real());
                nchk++;
            }
        }
    }
    template <typename T, typename M>
    void reflect(const char *tn, M mk) {
        int on[NDIM];
        draw_dirs(on, g.pct(10));
        int how = g.below(3), one = g.below(NDIM);
        if (how == 1)
            for (int d = 0; d < NDIM; d++)
                on[d] = d == one;
        if (how == 2)
            for (int d = 0; d < NDIM; d++)
                on[d] = 1;
        std::vector<long> v(geo.vol);
        for (auto &x : v)
            x = g.in(-100000, 100000);
        Field<T> f, r;
        for (int k = 0; k < 1; k++) {
            T z = mk(0);
            set_all(f, z);
            for (unsigned s = 0; s < lattice->mynode.volume; s++)
                f.set_value_at(mk(v[geo_idx(geo, lattice->coordinates(s))]), s);
            f.mark_changed(ALL);
        }
        std::string what = std::string("reflection of ") + tn + " in directions " + dirs_s(on) + " on " + size_s();
        sim_note("%s", what.c_str());
        if (how == 1)
            r = f.reflect((Direction)one);
        else if (how == 2)
            r = f.reflect();
        else
            r = f.reflect(cv(on));
        for (unsigned s = 0; s < lattice->mynode.volume; s++) {
            CoordinateVector c = lattice->coordinates(s);
            long i = geo_idx(geo, c);
            T got = r.get_value_at(s), want = mk(v[mirror(geo, i, on)]);
            if (memcmp(&got, &want, sizeof(T)))
                sim_violation("reflect-value", "%s: wrong value at %s", what.c_str(), cvs(c).c_str());
            nchk++;
        }
    }
    std::string size_s() {
        std::string s;
        for (int d = 0; d < NDIM; d++)
            s += (d ? "x" : "") + std::to_string(geo.n[d]);
        return s;
    }
    void wave() { // momentum of a coordinate
        CoordinateVector c;
        foralldir(d) c[d] = g.in(-2 * geo.n[d], 2 * geo.n[d]);
        auto k = c.convert_to_k();
        foralldir(d) {
            int n = ((c[d] % geo.n[d]) + geo.n[d]) % geo.n[d];
            if (2 * n > geo.n[d])
                n -= geo.n[d];
            if (std::abs(k[d] - 2 * M_PI * n / geo.n[d]) > 1e-12)
                sim_violation("fft-momentum", "convert_to_k of %s gives %g in direction %d on %s", cvs(c).c_str(), (double)k[d], (int)d, size_s().c_str());
        }
        nchk++;
    }
    void step() {
        switch (g.below(12)) {
        case 0:
        case 1:
            fft<Complex<double>>("Complex<double>");
            break;
        case 2:
            fft<Complex<float>>("Complex<float>");
            break;
        case 3:
            fft<Vector<3, Complex<double>>>("Vector<3,Complex<double>>");
            break;
        case 4:
            fft<SquareMatrix<2, Complex<float>>>("SquareMatrix<2,Complex<float>>");
            break;
        case 5:
            real<double>("double");
            break;
        case 6:
            real<float>("float");
            break;
        case 7:
        case 8: // (reflect() compiles for complex elements only)
            reflect<Complex<float>>("Complex<float>", [](long x) { return Complex<float>((float)x, (float)-x); });
            break;
        case 9:
            reflect<Complex<double>>("Complex<double>", [](long x) { return Complex<double>((double)x, (double)-x); });
            break;
        case 10:
            wave();
            break;
        default: { // another lattice
            if (!sim_param("block", 0))
                break;
            if (lattice.is_base()) {
                CoordinateVector f;
                Geo G;
                int n[NDIM];
                foralldir(d) {
                    f[d] = geo.n[d] % 2 == 0 && g.pct(60) ? 2 : geo.n[d] % 3 == 0 && g.pct(60) ? 3 : 1;
                    n[d] = geo.n[d] / f[d];
                }
                lattice.block(f);
                geo.set(n);
            } else {
                lattice.switch_to_base();
                geo = base;
            }
        }
        }
    }
};

extern "C" int harness_main(int argc, char **argv) {
    start_hila(argc, argv, base);
    {
        Gen g(sim_seed(), 7);
        int n = sim_param("ops", 3);
        Run R(g);
        R.geo = base;
        for (int i = 0; i < n; i++)
            R.step();
        lattice.switch_to_base();
    }
    sim_count("checked.entries", nchk);
    end_hila();
    return 0;
}
extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 1000);
    Out o(out, n);
    static const int nrs[] = {1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 8};
    int nr = nrs[g.below(11)];
    int sz[NDIM];
    choose_size(g, nr, g.pct(50), tier ? 900 : 350, sz);
    o.line("nranks=%d", nr);
    plan_size(o, sz);
    o.line("block=%d", g.pct(40) ? 1 : 0);
    o.line("ops=%d", g.in(1, tier ? 14 : 7));
}
