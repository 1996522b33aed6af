// C10: site selection collects exactly the selected sites once, with their values.
#include "common.h"
#include <map>

static Geo geo;
static long nchk;
static int seq;

// what the loop should select: global index -> value (component 0), for the sites of one rank or all
typedef std::map<long, std::vector<double>> Want; // accepted values

template <typename S>
static void check_sites(S &s, const Want &w, long limit, bool local, const char *what) {
    long n = s.size();
    long total = w.size();
    long exp = limit >= 0 && limit < total ? limit : total;
    if (n != exp)
        sim_violation("select-count", "%s: %ld sites, should be %ld (selected %ld, limit %ld)", what, n, exp, total, limit);
    if ((long)s.overflow() != total - exp)
        sim_violation("select-overflow", "%s: overflow %ld, should be %ld (selected %ld, limit %ld)", what, (long)s.overflow(), total - exp, total, limit);
    std::vector<char> seen(geo.vol, 0);
    for (long k = 0; k < n; k++) {
        CoordinateVector c = s.coordinates(k);
        foralldir(d) if (c[d] < 0 || c[d] >= geo.n[d]) sim_violation("select-site", "%s: entry %ld is %s, outside the lattice", what, k, cvs(c).c_str());
        long i = geo_idx(geo, c);
        if ((long)s.site_index(k).value != i)
            sim_violation("select-site", "%s: entry %ld has index %ld for %s", what, k, (long)s.site_index(k).value, cvs(c).c_str());
        if (!w.count(i))
            sim_violation("select-site", "%s: %s was not selected", what, cvs(c).c_str());
        if (seen[i])
            sim_violation("select-site", "%s: %s appears twice", what, cvs(c).c_str());
        seen[i] = 1;
        nchk++;
    }
}
template <typename T>
static double first(const T &t) {
    if constexpr (std::is_arithmetic<T>::value)
        return (double)t;
    else
        return (double)*(const hila::arithmetic_type<T> *)&t;
}
template <typename S>
static void check_values(S &s, const Want &w, const char *what) {
    for (long k = 0; k < (long)s.size(); k++) {
        auto v = s.value(k);
        double got = first(v);
        const std::vector<double> &ok = w.at(geo_idx(geo, s.coordinates(k)));
        bool hit = false;
        for (double x : ok)
            if (x == got)
                hit = true;
        if (!hit)
            sim_violation("select-value", "%s: the value for %s is %g, selected with %g", what, cvs(s.coordinates(k)).c_str(), got, ok[0]);
        nchk++;
    }
}

struct Run {
    Gen &g;
    Field<int> f;
    std::vector<int> r;
    SiteSelect s;
    SiteValueSelect<double> sv;
    SiteValueSelect<Complex<double>> sc;
    SiteValueSelect<int> si;
    bool reuse;
    Run(Gen &gg) : g(gg) {
        reuse = g.pct(50);
    }
    void fill() {
        r.resize(geo.vol);
        for (auto &x : r)
            x = g.in(0, 99);
        fill_field(geo, f, [&](long i) { return r[i]; });
    }
    // the part of w on this rank
    Want mine(const Want &w) {
        Want m;
        for (auto &p : w)
            if (lattice->node_rank(geo_cv(geo, p.first)) == hila::myrank())
                m.insert(p);
        return m;
    }
    // judge a selection after its loop; limit < 0: none
    template <typename S>
    void judge(S &x, const Want &w, long limit, bool nojoin, bool vals, const char *what) {
        if (nojoin) {
            check_sites(x, mine(w), limit, true, what);
            if constexpr (!std::is_same<S, SiteSelect>::value)
                check_values(x, w, what);
            if (g.pct(30))
                hila::synchronize();
            if (g.pct(70)) {
                x.join();
                if (g.pct(30))
                    x.join();
            } else
                return;
        }
        if (hila::myrank() == 0) {
            check_sites(x, w, limit, false, what);
            if constexpr (!std::is_same<S, SiteSelect>::value)
                check_values(x, w, what);
        } else if (x.size() != 0)
            sim_violation("select-count", "%s: rank %d keeps %ld sites after joining", what, hila::myrank(), (long)x.size());
    }
    void step() {
        int lo = g.in(0, 110), hi = g.in(0, 110), lo2 = g.in(0, 110);
        if (g.pct(50))
            lo = 0;
        if (g.pct(10))
            hi = 100;
        int op = g.below(8);
        int q = g.below(3);
        Parity par = q == 0 ? EVEN : q == 1 ? ODD : ALL;
        long limit = g.pct(35) ? g.in(0, (int)(g.pct(50) ? geo.vol : 1 + geo.vol / 8)) : -1;
        bool nojoin = g.pct(25);
        sim_note("op %d %s [%d,%d) limit %ld nojoin %d", op, par_name(par), lo, hi, limit, (int)nojoin);
        Want w, w2;
        auto want = [&](int a, int b, Want &o, int mul) {
            for (long i = 0; i < geo.vol; i++)
                if (in_par(par, geo.par(i)) && r[i] >= a && r[i] < b)
                    o[i].push_back(r[i] * mul);
        };
        if (op == 7) {
            fill();
            return;
        }
        if (op == 0 || (op == 1 && !reuse)) {
            SiteSelect t;
            if (limit >= 0)
                t.max_size(limit);
            if (nojoin)
                t.no_join();
            onsites(par) {
                if (f[X] >= lo && f[X] < hi)
                    t.select(X);
            }
            want(lo, hi, w, 1);
            judge(t, w, limit, nojoin, false, "SiteSelect");
        } else if (op == 1) {
            onsites(par) {
                if (f[X] >= lo && f[X] < hi)
                    s.select(X);
            }
            want(lo, hi, w, 1);
            judge(s, w, -1, false, false, "SiteSelect (used again)");
        } else if (op == 2 || (op == 3 && !reuse)) {
            SiteValueSelect<double> t;
            if (limit >= 0)
                t.max_size(limit);
            if (nojoin)
                t.no_join();
            onsites(par) {
                if (f[X] >= lo && f[X] < hi)
                    t.select(X, 3.0 * f[X]);
            }
            want(lo, hi, w, 3);
            judge(t, w, limit, nojoin, true, "SiteValueSelect<double>");
        } else if (op == 3) {
            if (limit >= 0)
                sv.max_size(limit);
            else
                sv.max_size(geo.vol);
            onsites(par) {
                if (f[X] >= lo && f[X] < hi)
                    sv.select(X, 3.0 * f[X]);
            }
            want(lo, hi, w, 3);
            judge(sv, w, limit, false, true, "SiteValueSelect<double> (used again)");
        } else if (op == 4) {
            // two selections in one loop
            SiteSelect t;
            onsites(par) {
                if (f[X] >= lo && f[X] < hi)
                    t.select(X);
                if (f[X] >= lo2)
                    sc.select(X, Complex<double>(7 * f[X], 1));
            }
            want(lo, hi, w, 1);
            want(lo2, 1000, w2, 7);
            judge(t, w, -1, false, false, "SiteSelect beside another");
            judge(sc, w2, -1, false, true, "SiteValueSelect<Complex> beside another");
        } else if (op == 5) {
            // a site may be selected twice in one loop
            onsites(par) {
                if (f[X] >= lo && f[X] < hi)
                    si.select(X, 2 * f[X]);
                if (f[X] >= lo2)
                    si.select(X, 5 * f[X]);
            }
            want(lo, hi, w, 2);
            want(lo2, 1000, w, 5);
            judge(si, w, -1, false, true, "SiteValueSelect<int> with two selects in a loop");
        } else if (op == 6) {
            Direction d = (Direction)g.below(NDIRS);
            SiteValueSelect<CoordinateVector> t;
            onsites(par) {
                if (f[X + d] >= lo && f[X + d] < hi)
                    t.select(X, X.coordinates());
            }
            for (long i = 0; i < geo.vol; i++) {
                int v = r[geo.nb(i, d)];
                if (in_par(par, geo.par(i)) && v >= lo && v < hi)
                    w[i].push_back(geo_cv(geo, i)[e_x]);
            }
            judge(t, w, -1, false, true, "SiteValueSelect<CoordinateVector>");
            if (hila::myrank() == 0) {
                for (long k = 0; k < (long)t.size(); k++)
                    if (!(t.value(k) == t.coordinates(k)))
                        sim_violation("select-value", "the coordinates selected as value at %s are %s", cvs(t.coordinates(k)).c_str(), cvs(t.value(k)).c_str());
                std::vector<SiteIndex> m = t.move_sites();
                if (m.size() != w.size())
                    sim_violation("select-count", "move_sites gives %zu sites of %zu", m.size(), w.size());
            }
        }
    }
};

extern "C" int harness_main(int argc, char **argv) {
    start_hila(argc, argv, geo);
    {
        Gen g(sim_seed(), 7);
        int n = sim_param("ops", 6);
        Run R(g);
        R.fill();
        for (int i = 0; i < n; i++)
            R.step();
    }
    sim_count("checked.entries", nchk);
    end_hila();
    return 0;
}
extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 1000);
    Out o(out, n);
    static const int nrs[] = {1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 8};
    int nr = nrs[g.below(11)];
    int sz[NDIM];
    choose_size(g, nr, g.pct(35), tier ? 800 : 250, sz);
    o.line("nranks=%d", nr);
    plan_size(o, sz);
    o.line("ops=%d", g.in(1, tier ? 20 : 8));
}
