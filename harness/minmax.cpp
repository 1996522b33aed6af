// C04: minimum and maximum over sites with location.
#include "common.h"
#include <limits>

static Geo geo;
static long nchk;
static int seq;

template <typename T>
static void run(Gen &g, const char *tn) {
    Field<T> f;
    std::vector<T> r(geo.vol);
    int mode = g.below(8);
    auto val = [&](int m) -> T {
        switch (m) {
        case 0: return (T)g.in(-1000, 1000);
        case 1: return (T)(-1 - g.below(5000));
        case 2: return (T)(1 + g.below(5000));
        case 3: return (T)g.in(-1, 1);
        case 4: return std::numeric_limits<T>::lowest();
        case 5: return std::numeric_limits<T>::max();
        case 6: return (T)((double)g.in(-1000000, 1000000) * (std::is_floating_point<T>::value ? 1e-20 : 1.0));
        default: return (T)0;
        }
    };
    int alt = g.below(8), altp = g.pct(50) ? 0 : g.in(1, 60);
    for (long i = 0; i < geo.vol; i++)
        r[i] = val(g.pct(altp) ? alt : mode);
    fill_field(geo, f, [&](long i) { return r[i]; });
    int n = g.in(1, 4);
    for (int k = 0; k < n; k++) {
        Parity par = ALL;
        bool mn = g.pct(50);
        int how = g.below(3);
        if (how != 1) {
            int q = g.below(3);
            par = q == 0 ? EVEN : q == 1 ? ODD : ALL;
        }
        T best = 0;
        bool any = false;
        for (long i = 0; i < geo.vol; i++)
            if (in_par(par, geo.par(i)) && (!any || (mn ? r[i] < best : r[i] > best))) {
                best = r[i];
                any = true;
            }
        CoordinateVector loc;
        foralldir(d) loc[d] = -7;
        T got;
        if (how == 0)
            got = mn ? f.min(par) : f.max(par);
        else if (how == 1)
            got = mn ? f.min(loc) : f.max(loc);
        else
            got = mn ? f.min(par, loc) : f.max(par, loc);
        sim_note("%s<%s> %s mode %d/%d = %.17g", mn ? "min" : "max", tn, par_name(par), mode, alt, (double)got);
        if (got != best)
            sim_violation("minmax-value", "%s of %s over %s is %.17g, the field's is %.17g", mn ? "minimum" : "maximum", tn, par_name(par), (double)got, (double)best);
        if (how) {
            bool inside = true;
            foralldir(d) if (loc[d] < 0 || loc[d] >= geo.n[d]) inside = false;
            if (!inside || !in_par(par, geo.par(geo_idx(geo, loc))) || r[geo_idx(geo, loc)] != best)
                sim_violation("minmax-location", "location of the %s of %s over %s is %s, which does not hold the value %.17g", mn ? "minimum" : "maximum", tn, par_name(par), cvs(loc).c_str(), (double)best);

            char key[40];
            snprintf(key, sizeof key, "loc%d", seq++);
            sim_agree(key, &loc, sizeof loc);
        }
        nchk++;
        if (g.pct(30)) {
            long i = g.below(geo.vol);
            r[i] = val(g.below(8));
            f[geo_cv(geo, i)] = r[i];
        }
    }
}

extern "C" int harness_main(int argc, char **argv) {
    start_hila(argc, argv, geo);
    Gen g(sim_seed(), 7);
    int n = sim_param("ops", 4);
    for (int i = 0; i < n; i++) {
        switch (g.below(5)) {
        case 0: run<int>(g, "int"); break;
        case 1: run<long>(g, "long"); break;
        case 2: run<float>(g, "float"); break;
        case 3: run<double>(g, "double"); break;
#ifndef SUBNODE_LAYOUT
        case 4: run<long double>(g, "long double"); break;
#endif
        }
    }
    sim_count("checked.minmax", nchk);
    end_hila();
    return 0;
}
extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 1000);
    Out o(out, n);
    static const int nrs[] = {1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 8};
    int nr = nrs[g.below(11)];
    int sz[NDIM];
    choose_size(g, nr, g.pct(35), tier ? 800 : 200, sz);
    o.line("nranks=%d", nr);
    plan_size(o, sz);
    o.line("ops=%d", g.in(1, tier ? 16 : 6));
}
