// C25: binning over momentum shells accounts for every momentum once.
#include "common.h"
#include <complex>
#include <cmath>

static Geo base;
static long nchk, nquery;
typedef std::complex<double> C;
typedef std::vector<C> Vec;

static Vec dft(const Geo &geo, const Vec &in) {
    Vec a = in;
    for (int d = 0; d < NDIM; d++) {
        int L = geo.n[d];
        std::vector<C> w(L);
        for (int k = 0; k < L; k++)
            w[k] = std::polar(1.0, -2 * M_PI * k / L);
        Vec b(geo.vol);
        for (long i = 0; i < geo.vol; i++) {
            int c[NDIM];
            geo.coord(i, c);
            int k = c[d];
            C s = 0;
            for (int x = 0; x < L; x++) {
                c[d] = x;
                s += a[geo.idx(c)] * w[(long)k * x % L];
            }
            b[i] = s;
        }
        a = b;
    }
    return a;
}
static double knorm(const Geo &geo, long i) {
    int c[NDIM];
    geo.coord(i, c);
    double s = 0;
    for (int d = 0; d < NDIM; d++) {
        int n = 2 * c[d] > geo.n[d] ? c[d] - geo.n[d] : c[d];
        double k = 2 * M_PI * n / geo.n[d];
        s += k * k;
    }
    return std::sqrt(s);
}

template <typename T>
static void set_all(Field<T> &f, T z) {
    onsites(ALL) f[X] = z;
}

// the settings as documented
struct Ref {
    double max, power, width;
    int bins;
    bool fixed;
};
// which bin each momentum belongs to; momenta at an edge (to rounding) may go either way
struct Shells {
    std::vector<int> lo, hi; // bin numbers, -1: above the cutoff
    std::vector<long> sure, maybe;
    std::vector<double> ksum;
    long total = 0, edge = 0;
    std::vector<char> shaky;
    void set(const Geo &geo, const Ref &r) {
        lo.assign(geo.vol, 0);
        hi = lo;
        sure.assign(r.bins, 0);
        maybe = sure;
        shaky.assign(r.bins, 0);
        ksum.assign(r.bins, 0);
        total = edge = 0;
        for (long i = 0; i < geo.vol; i++) {
            double k = knorm(geo, i), x = std::pow(k / r.max, r.power) * r.bins, e = 1e-9 * (1 + x);
            long a = x - e < 0 ? 0 : (long)std::floor(x - e), b = (long)std::floor(x + e);
            lo[i] = a >= r.bins ? -1 : (int)a;
            hi[i] = b >= r.bins ? -1 : (int)b;
            if (lo[i] == hi[i]) {
                if (lo[i] >= 0) {
                    sure[lo[i]]++;
                    ksum[lo[i]] += k;
                    total++;
                }
            } else {
                for (int q : {lo[i], hi[i]})
                    if (q >= 0) {
                        maybe[q]++;
                        shaky[q] = 1;
                    }
                edge++;
            }
        }
    }
};

struct Run {
    Gen &g;
    Geo geo;
    hila::k_binning *kb = nullptr;
    Ref r;
    Shells sh;
    std::string hist;
    Run(Gen &gg) : g(gg) {}
    std::string size_s() {
        std::string s;
        for (int d = 0; d < NDIM; d++)
            s += (d ? "x" : "") + std::to_string(geo.n[d]);
        return s;
    }
    std::string what(const char *q) {
        char b[600];
        snprintf(b, sizeof b, "%s on %s with %d bins, max %.12g, power %g (%s)", q, size_s().c_str(), r.bins, r.max, r.power, hist.c_str());
        return b;
    }
    void note(const std::string &s) {
        hist += s;
        if (hist.size() > 200)
            hist = hist.substr(hist.size() - 200);
        sim_note("k_binning %s", s.c_str());
    }
    void make() {
        delete kb;
        hist = "";
        r.max = M_PI;
        r.power = 1;
        if (g.pct(50)) {
            kb = new hila::k_binning;
            r.bins = 1;
            for (int d = 0; d < NDIM; d++) // bins: the largest size(d)/2
                r.bins = std::max(r.bins, geo.n[d] / 2);
            r.fixed = false;
            note(" default");
        } else {
            r.bins = g.in(1, 40);
            kb = new hila::k_binning(r.bins);
            r.fixed = true;
            note(" (" + std::to_string(r.bins) + ")");
        }
        r.width = r.max / r.bins;
        settings();
    }
    void settings() {
        auto near = [](double a, double b) { return std::abs(a - b) <= 1e-12 * (std::abs(a) + std::abs(b)); };
        if (kb->bins() != r.bins || !near(kb->k_max(), r.max) || !near(kb->power(), r.power) || !near(kb->binwidth(), r.width))
            sim_violation("bin-settings", "%s: the object says %d bins, max %.12g, power %g, binwidth %.12g; should be binwidth %.12g", what("settings").c_str(), kb->bins(), kb->k_max(), kb->power(), kb->binwidth(), r.width);
        r.max = kb->k_max();
        r.width = kb->binwidth();
        sh.set(geo, r);
        nchk++;
    }
    // a ceil() which does not sit on an edge
    static bool clear_ceil(double x) {
        return std::abs(x - std::round(x)) > 1e-6;
    }
    void change() {
        switch (g.below(4)) {
        case 0: {
            int n = g.pct(20) ? 1 : g.in(1, 50);
            kb->bins(n);
            r.bins = n;
            r.fixed = true;
            r.width = r.max / n;
            note(" bins" + std::to_string(n));
            break;
        }
        case 1: {
            double m = g.in(20, 800) / 100.0;
            if (!r.fixed && !clear_ceil(m / r.width))
                return;
            kb->k_max(m);
            r.max = m;
            if (!r.fixed) {
                r.bins = (int)std::ceil(m / r.width);
                r.max = r.bins * r.width;
            } else
                r.width = r.max / r.bins;
            note(" k_max" + std::to_string(m));
            break;
        }
        case 2: {
            double w = g.in(8, 300) / 100.0 + 0.0012345;
            if (!clear_ceil(r.max / w) || r.max / w > 200)
                return;
            kb->binwidth(w);
            r.width = w;
            r.bins = (int)std::ceil(r.max / w);
            r.max = w * r.bins;
            r.fixed = false;
            note(" binwidth" + std::to_string(w));
            break;
        }
        default: {
            double p = g.in(1, 6) / 2.0;
            kb->power(p);
            r.power = p;
            note(" power" + std::to_string(p));
        }
        }
        settings();
    }
    void counts() {
        long tot = 0, tmax = sh.total + sh.edge;
        for (int b = -1; b <= r.bins; b++) {
            long c = kb->count(b);
            if (b < 0 || b == r.bins) {
                if (c || kb->k(b) != 0)
                    sim_violation("bin-count", "%s: a bin which does not exist has %ld momenta", what("count").c_str(), c);
                continue;
            }
            tot += c;
            if (c < sh.sure[b] || c > sh.sure[b] + sh.maybe[b])
                sim_violation("bin-count", "%s: bin %d counts %ld momenta, should be %ld", what("count").c_str(), b, c, sh.sure[b]);
            if (c > 0) {
                double k = kb->k(b), e = 1e-8 * (1 + r.max);
                double lo = std::pow((double)b / r.bins, 1 / r.power) * r.max, hi = std::pow((b + 1.0) / r.bins, 1 / r.power) * r.max;
                if (!(k >= lo - e && k <= hi + e) || (!sh.shaky[b] && std::abs(k - sh.ksum[b] / c) > 1e-9 * (1 + k)))
                    sim_violation("bin-average", "%s: bin %d has average momentum %.12g, should be %.12g", what("k").c_str(), b, k, sh.ksum[b] / c);
                if (std::abs(kb->bin_min(b) - lo) > e || std::abs(kb->bin_max(b) - hi) > e)
                    sim_violation("bin-limits", "%s: bin %d has limits %g %g", what("limits").c_str(), b, kb->bin_min(b), kb->bin_max(b));
            }
            nchk++;
        }
        long most = sh.total;
        for (size_t i = 0; i < sh.lo.size(); i++)
            most += sh.lo[i] != sh.hi[i];
        if (tot < sh.total || tot > most || tot > tmax)
            sim_violation("bin-count", "%s: counts add up to %ld", what("count").c_str(), tot);
    }
    // sums per bin against per-momentum values
    template <typename R>
    void judge(const R &got, const std::vector<C> &val, double tol, const char *cls, const std::string &w) {
        if ((int)got.size() != r.bins)
            sim_violation(cls, "%s: %zu bins in the result", w.c_str(), got.size());
        C all = 0, want = 0;
        bool cut = false;
        std::vector<C> s(r.bins);
        for (size_t i = 0; i < val.size(); i++) {
            if (sh.lo[i] == sh.hi[i] && sh.lo[i] >= 0)
                s[sh.lo[i]] += val[i];
            if (sh.lo[i] >= 0 && sh.hi[i] >= 0)
                want += val[i];
            cut = cut || (sh.lo[i] < 0) != (sh.hi[i] < 0);
        }
        for (int b = 0; b < r.bins; b++) {
            all += got[b];
            if (!sh.shaky[b] && !(std::abs(got[b] - s[b]) <= tol))
                sim_violation(cls, "%s: bin %d has (%.12g,%.12g), should be (%.12g,%.12g)", w.c_str(), b, got[b].real(), got[b].imag(), s[b].real(), s[b].imag());
            nchk++;
        }
        if (!cut && !(std::abs(all - want) <= tol * r.bins))
            sim_violation(cls, "%s: bins add up to (%.12g,%.12g), should be (%.12g,%.12g)", w.c_str(), all.real(), all.imag(), want.real(), want.imag());
    }
    Vec draw(bool real) {
        Vec v(geo.vol);
        for (auto &x : v)
            x = C(g.in(-99, 99) / 8.0, real ? 0 : g.in(-99, 99) / 8.0);
        return v;
    }
    template <typename T>
    static C toC(const T &t) {
        if constexpr (std::is_arithmetic<T>::value)
            return C((double)t, 0);
        else
            return C(t.real(), t.imag());
    }
    template <typename T>
    void sums(const char *tn) {
        constexpr bool real = std::is_arithmetic<T>::value;
        Vec v = draw(real);
        if (g.pct(25))
            for (auto &x : v)
                x = 1.0;
        if (std::is_integral<T>::value)
            for (auto &x : v)
                x = std::round(x.real() * 8);
        Field<T> f;
        T z = 0;
        set_all(f, z);
        for (unsigned s = 0; s < lattice->mynode.volume; s++) {
            C x = v[geo_idx(geo, lattice->coordinates(s))];
            T t;
            if constexpr (real)
                t = (T)x.real();
            else
                t = T(x.real(), x.imag());
            f.set_value_at(t, s);
        }
        f.mark_changed(ALL);
        std::vector<T> got = kb->bin_k_field(f);
        nquery++;
        if (hila::myrank() != 0)
            return;
        std::vector<C> gc;
        for (auto &x : got)
            gc.push_back(toC(x));
        judge(gc, v, 1e-9, "bin-sum", what((std::string("bin_k_field of ") + tn).c_str()));
    }
    // components: real numbers per site
    template <typename T>
    void squares(const char *tn, bool transform) {
        typedef hila::arithmetic_type<T> A;
        constexpr int n = sizeof(T) / sizeof(A);
        constexpr bool cplx = hila::contains_complex<T>::value;
        std::vector<Vec> v;
        int nc = cplx ? n / 2 : n;
        for (int k = 0; k < nc; k++)
            v.push_back(draw(!cplx));
        Field<T> f;
        T z = 0;
        set_all(f, z);
        for (unsigned s = 0; s < lattice->mynode.volume; s++) {
            long i = geo_idx(geo, lattice->coordinates(s));
            T t;
            A *p = (A *)&t;
            for (int k = 0; k < nc; k++)
                if (cplx) {
                    p[2 * k] = v[k][i].real();
                    p[2 * k + 1] = v[k][i].imag();
                } else
                    p[k] = v[k][i].real();
            f.set_value_at(t, s);
        }
        f.mark_changed(ALL);
        std::vector<double> got;
        if (transform)
            got = kb->spectraldensity(f);
        else
            got = kb->bin_k_field_squarenorm(f);
        nquery++;
        if (hila::myrank() != 0)
            return;
        std::vector<C> val(geo.vol), gc;
        double scale = 0;
        for (int k = 0; k < nc; k++) {
            Vec w = transform ? dft(geo, v[k]) : v[k];
            for (long i = 0; i < geo.vol; i++)
                val[i] += std::norm(w[i]);
        }
        for (auto &x : val)
            scale += x.real();
        for (double x : got)
            gc.push_back(x);
        judge(gc, val, (sizeof(A) == 4 ? 1e-4 : 1e-10) * (scale + 1), "bin-square", what((std::string(transform ? "spectraldensity of " : "bin_k_field_squarenorm of ") + tn).c_str()));
    }
    void step() {
        bool t = g.pct(60);
        switch (g.below(15)) {
        case 0:
        case 1:
        case 2:
        case 3:
            change();
            break;
        case 4:
        case 5:
            counts();
            break;
        case 6:
            sums<double>("double");
            break;
        case 7:
            sums<Complex<double>>("Complex<double>");
            break;
        case 8:
            sums<long>("long");
            break;
        case 9:
            squares<double>("double", t);
            break;
        case 10:
            squares<Complex<double>>("Complex<double>", t);
            break;
        case 11:
            squares<Vector<3, Complex<float>>>("Vector<3,Complex<float>>", t);
            break;
        case 12:
            squares<Vector<4, double>>("Vector<4,double>", t);
            break;
        case 13:
            squares<Vector<3, float>>("Vector<3,float>", t);
            break;
        default:
            if (sim_param("block", 0)) {
                if (lattice.is_base()) {
                    CoordinateVector f;
                    int n[NDIM];
                    foralldir(d) {
                        f[d] = geo.n[d] % 2 == 0 && g.pct(60) ? 2 : geo.n[d] % 3 == 0 && g.pct(60) ? 3 : 1;
                        n[d] = geo.n[d] / f[d];
                    }
                    lattice.block(f);
                    geo.set(n);
                } else {
                    lattice.switch_to_base();
                    geo = base;
                }
            }
            make();
        }
    }
};

extern "C" int harness_main(int argc, char **argv) {
    start_hila(argc, argv, base);
    {
        Gen g(sim_seed(), 25);
        int n = sim_param("ops", 3);
        Run R(g);
        R.geo = base;
        R.make();
        for (int i = 0; i < n; i++)
            R.step();
        R.counts();
        delete R.kb;
        lattice.switch_to_base();
    }
    sim_count("checked.bins", nchk);
    sim_count("checked.fields", nquery);
    end_hila();
    return 0;
}
extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 2500);
    Out o(out, n);
    static const int nrs[] = {1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 8};
    int nr = nrs[g.below(11)];
    int sz[NDIM];
    choose_size(g, nr, g.pct(50), tier ? 900 : 350, sz);
    o.line("nranks=%d", nr);
    plan_size(o, sz);
    o.line("block=%d", g.pct(30) ? 1 : 0);
    o.line("ops=%d", g.in(2, tier ? 24 : 12));
}
