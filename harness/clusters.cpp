// C11: clusters are the connected components, with their sizes, areas and sites.
#include "common.h"
#include "plumbing/clusters.h"
#include <map>
#include <set>

static Geo geo;
static long nchk, ncl;

struct Ref {
    std::vector<long> comp; // component of each site, -1: background
    std::vector<long> size, area;
    std::vector<int> type;
};
struct UF {
    std::vector<long> p;
    UF(long n) : p(n) {
        for (long i = 0; i < n; i++)
            p[i] = i;
    }
    long find(long i) {
        while (p[i] != i)
            i = p[i] = p[p[i]];
        return i;
    }
    void join(long a, long b) {
        p[find(a)] = find(b);
    }
};
static Ref finish(UF &u, const std::vector<int> &t) {
    Ref r;
    r.comp.assign(geo.vol, -1);
    std::map<long, long> id;
    for (long i = 0; i < geo.vol; i++)
        if (t[i] != 255) {
            long k = u.find(i);
            if (!id.count(k)) {
                id[k] = r.size.size();
                r.size.push_back(0);
                r.area.push_back(0);
                r.type.push_back(t[i]);
            }
            r.comp[i] = id[k];
            r.size[id[k]]++;
        }
    for (long i = 0; i < geo.vol; i++)
        if (r.comp[i] >= 0)
            for (int d = 0; d < NDIRS; d++)
                if (r.comp[geo.nb(i, d)] != r.comp[i])
                    r.area[r.comp[i]]++;
    return r;
}
static Ref by_type(const std::vector<int> &t) {
    UF u(geo.vol);
    for (long i = 0; i < geo.vol; i++)
        for (int d = 0; d < NDIM; d++) {
            long j = geo.nb(i, d);
            if (t[i] != 255 && t[i] == t[j])
                u.join(i, j);
        }
    return finish(u, t);
}
static Ref by_link(const std::vector<std::vector<int>> &l) {
    UF u(geo.vol);
    std::vector<int> t(geo.vol, 255);
    for (long i = 0; i < geo.vol; i++)
        for (int d = 0; d < NDIM; d++)
            if (l[d][i]) {
                long j = geo.nb(i, d);
                u.join(i, j);
                t[i] = t[j] = 1;
            }
    return finish(u, t);
}

struct Run {
    Gen &g;
    hila::Clusters keep;
    Run(Gen &gg) : g(gg) {}
    // a random arrangement of types
    std::vector<int> types(std::string &what) {
        std::vector<int> t(geo.vol, 255);
        int kind = g.below(9);
        int nt = g.in(1, 4);
        int c0 = g.pct(20) ? 254 : g.pct(20) ? 200 : 0;
        auto rnd = [&]() { return (c0 + (int)g.below(nt)) % 255; };
        switch (kind) {
        case 0:
        case 1: { // random sites
            int p = g.in(20, 95);
            for (auto &x : t)
                if (g.pct(p))
                    x = rnd();
            break;
        }
        case 2: // every site
            for (auto &x : t)
                x = rnd();
            break;
        case 3: { // lines
            int d = g.below(NDIM), k = g.in(1, 3);
            for (long i = 0; i < geo.vol; i++) {
                int c[NDIM];
                geo.coord(i, c);
                int s = 0;
                for (int e = 0; e < NDIM; e++)
                    if (e != d)
                        s += c[e];
                if (s % (k + 1) == 0)
                    t[i] = c0;
            }
            break;
        }
        case 4: // checkerboard
            for (long i = 0; i < geo.vol; i++)
                t[i] = geo.par(i) ? c0 : (g.pct(50) ? 255 : c0 + (c0 < 200));
            break;
        case 5:
        case 6: { // walks: long thin paths
            int n = g.in(1, 4);
            for (int w = 0; w < n; w++) {
                long i = (long)(g.next() % geo.vol);
                int ty = rnd(), d = g.below(NDIRS);
                int len = g.in(1, 3 * (int)geo.vol / 2);
                for (int s = 0; s < len; s++) {
                    t[i] = ty;
                    if (g.pct(30))
                        d = g.below(NDIRS);
                    // turn back where the path would touch itself
                    long j = geo.nb(i, d);
                    int touch = 0;
                    for (int e = 0; e < NDIRS; e++)
                        touch += t[geo.nb(j, e)] != 255;
                    if (touch > 1 + (g.pct(5) ? 1 : 0)) {
                        d = g.below(NDIRS);
                        continue;
                    }
                    i = j;
                }
            }
            break;
        }
        case 7: { // labyrinth: rows joined alternately at their two ends
            for (long i = 0; i < geo.vol; i++) {
                int c[NDIM];
                geo.coord(i, c);
                int y = NDIM > 1 ? c[1] : 0;
                bool open = y % 2 == 0 || (y % 4 == 1 ? c[0] == geo.n[0] - 2 : c[0] == 0);
                if (NDIM > 2 && c[NDIM - 1] % 2 == 1)
                    open = c[0] == (c[NDIM - 1] % 4 == 1 ? 0 : geo.n[0] - 2) && y == 0;
                if (c[0] == geo.n[0] - 1)
                    open = false;
                if (open)
                    t[i] = c0;
            }
            break;
        }
        default: // nothing at all, or one site
            if (g.pct(50))
                t[g.next() % geo.vol] = c0;
        }
        what = "pattern " + std::to_string(kind);
        return t;
    }
    void judge(hila::Clusters &cl, const Ref &r, const char *what) {
        size_t n = cl.number();
        if (n != r.size.size())
            sim_violation("cluster-count", "%s: %zu clusters, should be %zu", what, n, r.size.size());
        if (cl.size() != n)
            sim_violation("cluster-count", "%s: size() %zu and number() %zu differ", what, (size_t)cl.size(), n);
        ncl += n;
        // labels: one per component, the same at all its sites
        std::map<uint64_t, size_t> of;
        for (size_t i = 0; i < n; i++) {
            if (of.count(cl[i].label()))
                sim_violation("cluster-label", "%s: clusters %zu and %zu have the same label", what, of[cl[i].label()], i);
            of[cl[i].label()] = i;
            uint64_t v[3] = {cl[i].label(), (uint64_t)cl[i].size(), (uint64_t)cl[i].type()};
            sim_agree(("cl" + std::to_string(seq) + "." + std::to_string(i)).c_str(), v, sizeof v);
        }
        seq++;
        auto &lab = cl.get_labels();
        std::vector<long> comp_of(n, -2);
        for (unsigned s = 0; s < lattice->mynode.volume; s++) {
            CoordinateVector c = lattice->coordinates(s);
            long gi = geo_idx(geo, c), k = r.comp[gi];
            uint64_t l = lab.get_value_at(s);
            nchk++;
            if (k < 0) {
                if (of.count(l))
                    sim_violation("cluster-label", "%s: background site %s has the label of cluster %zu", what, cvs(c).c_str(), of[l]);
                continue;
            }
            if (!of.count(l))
                sim_violation("cluster-label", "%s: %s has a label which no cluster has", what, cvs(c).c_str());
            size_t ci = of[l];
            if (comp_of[ci] == -2)
                comp_of[ci] = k;
            if (comp_of[ci] != k)
                sim_violation("cluster-label", "%s: cluster %zu holds sites of two components (%s and an earlier one)", what, ci, cvs(c).c_str());
            if ((long)cl[ci].size() != r.size[k])
                sim_violation("cluster-size", "%s: cluster %zu at %s has size %ld, should be %ld", what, ci, cvs(c).c_str(), (long)cl[ci].size(), r.size[k]);
            if ((int)cl[ci].type() != r.type[k])
                sim_violation("cluster-type", "%s: cluster %zu at %s has type %d, should be %d", what, ci, cvs(c).c_str(), (int)cl[ci].type(), r.type[k]);
        }
        // areas and sites: collective
        for (int q = 0; q < 3 && n > 0; q++) {
            size_t i = q == 0 ? g.next() % n : q == 1 ? 0 : n - 1;
            int64_t a = cl[i].area();
            std::vector<SiteIndex> sites;
            if (g.pct(70)) {
                sites = cl[i].sites();
                if (hila::myrank() == 0) {
                    std::set<long> got;
                    for (auto &s : sites)
                        got.insert(geo_idx(geo, s.coordinates()));
                    if (got.size() != sites.size())
                        sim_violation("cluster-sites", "%s: sites() of cluster %zu names a site twice", what, i);
                    if (sites.empty())
                        sim_violation("cluster-sites", "%s: sites() of cluster %zu is empty", what, i);
                    long k = r.comp[*got.begin()];
                    for (long s : got)
                        if (r.comp[s] != k || k < 0)
                            sim_violation("cluster-sites", "%s: sites() of cluster %zu holds sites of two components", what, i);
                    if ((long)got.size() != r.size[k])
                        sim_violation("cluster-sites", "%s: sites() of cluster %zu gives %zu of %ld sites", what, i, got.size(), r.size[k]);
                    if (a != r.area[k])
                        sim_violation("cluster-area", "%s: the area of cluster %zu is %ld, should be %ld", what, i, (long)a, r.area[k]);
                }
            }
            if (comp_of[i] >= 0 && a != r.area[comp_of[i]])
                sim_violation("cluster-area", "%s: the area of cluster %zu is %ld, should be %ld", what, i, (long)a, r.area[comp_of[i]]);
            nchk++;
        }
        size_t it = 0;
        for (auto c : cl)
            if (it < n && c.label() != cl[it++].label())
                sim_violation("cluster-label", "%s: iteration gives other clusters", what);
        if (it != n)
            sim_violation("cluster-count", "%s: iteration gives %zu of %zu clusters", what, it, n);
    }
    int seq = 0;
    template <typename I>
    void with(const std::vector<int> &t, const std::string &what) {
        Field<I> f;
        fill_field(geo, f, [&](long i) { return (I)t[i]; });
        Ref r = by_type(t);
        if (g.pct(50)) {
            sim_races(0);
            hila::Clusters cl(f);
            sim_races(1);
            judge(cl, r, what.c_str());
        } else if (g.pct(50)) {
            sim_races(0);
            keep.find(f);
            sim_races(1);
            judge(keep, r, (what + " (used again)").c_str());
        } else {
            sim_races(0); // the threads pass labels on while the loop runs: safe_access(labels)
            keep.make_labels(f);
            sim_races(1);
            keep.classify();
            judge(keep, r, (what + " (in two steps)").c_str());
        }
    }
    void step() {
        std::string what;
        if (g.pct(30)) {
            std::vector<std::vector<int>> l(NDIM, std::vector<int>(geo.vol, 0));
            int p = g.pct(30) ? g.in(1, 10) : g.in(5, 60);
            int one = g.pct(25) ? (int)g.below(NDIM) : -1;
            for (int d = 0; d < NDIM; d++)
                for (auto &x : l[d])
                    x = (one < 0 || one == d) && g.pct(p) ? g.in(1, 3) : 0;
            VectorField<uint8_t> link;
            foralldir(d) fill_field(geo, link[d], [&](long i) { return (uint8_t)l[d][i]; });
            Ref r = by_link(l);
            what = "links with probability " + std::to_string(p);
            sim_note("%s", what.c_str());
            if (g.pct(50)) {
                sim_races(0);
                hila::Clusters cl(link);
                sim_races(1);
                judge(cl, r, what.c_str());
            } else {
                sim_races(0);
                keep.find(link);
                sim_races(1);
                judge(keep, r, what.c_str());
            }
            return;
        }
        std::vector<int> t = types(what);
        sim_note("%s", what.c_str());
        switch (g.below(3)) {
        case 0:
            with<uint8_t>(t, what);
            break;
        case 1:
            with<int>(t, what + " (int)");
            break;
        default:
            with<short>(t, what + " (short)");
        }
    }
};

extern "C" int harness_main(int argc, char **argv) {
    start_hila(argc, argv, geo);
    {
        Gen g(sim_seed(), 7);
        int n = sim_param("ops", 3);
        Run R(g);
        for (int i = 0; i < n; i++)
            R.step();
    }
    sim_count("checked.entries", nchk);
    sim_count("clusters", ncl);
    end_hila();
    return 0;
}
extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 1000);
    Out o(out, n);
    static const int nrs[] = {1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 8};
    int nr = nrs[g.below(11)];
    int sz[NDIM];
    choose_size(g, nr, g.pct(50), tier ? 800 : 300, sz);
    o.line("nranks=%d", nr);
    plan_size(o, sz);
    o.line("ops=%d", g.in(1, tier ? 8 : 4));
}
