// C17: blocked lattices: each field keeps to its own lattice, blocking and unblocking hit the corner sites.
#include "common.h"

static long nchk;
constexpr long PM = 1000003;

struct Lat {
    lattice_struct *ptr;
    int parent;
    Geo geo;
};
template <typename T>
struct Fld {
    Field<T> f;
    int lat = -1;
    std::vector<long> v;
};
template <typename T>
static T mk(long x) {
    if constexpr (std::is_arithmetic<T>::value)
        return (T)x;
    else {
        T t;
        for (int i = 0; i < (int)(sizeof(T) / sizeof(double)); i++)
            ((double *)&t)[i] = (double)(x + i);
        return t;
    }
}
template <typename T>
static double comp0(const T &t) {
    return (double)*(const hila::arithmetic_type<T> *)&t;
}
template <typename T>
static long un(const T &t, bool &ok) {
    if constexpr (std::is_arithmetic<T>::value)
        return (long)t;
    else {
        long x = (long)((const double *)&t)[0];
        for (int i = 0; i < (int)(sizeof(T) / sizeof(double)); i++)
            if (((const double *)&t)[i] != (double)(x + i))
                ok = false;
        return x;
    }
}

template <typename T>
struct Prog {
    Gen g;
    const char *tn;
    std::vector<Lat> lats;
    int cur = 0;
    std::vector<Fld<T>> fs;
    std::string hist;

    Prog(const Geo &geo, uint64_t key, const char *name) : g(sim_seed(), key), tn(name), fs(6) {
        Lat l;
        l.ptr = lattice.ptr();
        l.parent = -1;
        l.geo = geo;
        lats.push_back(l);
        for (int k = 0; k < 3; k++)
            fill(k);
    }
    std::string sz(int l) {
        std::string s;
        for (int d = 0; d < NDIM; d++)
            s += (d ? "x" : "") + std::to_string(lats[l].geo.n[d]);
        return s;
    }
    void fill(int k) {
        const Geo &geo = lats[cur].geo;
        Fld<T> &F = fs[k];
        F.lat = cur;
        F.v.resize(geo.vol);
        for (auto &x : F.v)
            x = g.in(0, 1000);
        Field<T> &a = F.f;
        onsites(ALL) a[X] = mk<T>(0);
        for (unsigned i = 0; i < lattice->mynode.volume; i++)
            a.set_value_at(mk<T>(F.v[geo_idx(geo, lattice->coordinates(i))]), i);
        a.mark_changed(ALL);
    }
    void compare(int k, const char *what) {
        Fld<T> &F = fs[k];
        const Geo &geo = lats[F.lat].geo;
        if (F.f.mylattice().ptr() != lats[F.lat].ptr)
            sim_violation("field-on-wrong-lattice", "%s: field %d (%s) is not on its %s lattice", what, k, tn, sz(F.lat).c_str());
        auto &l = *lats[F.lat].ptr;
        for (unsigned i = 0; i < l.mynode.volume; i++) {
            CoordinateVector c = l.coordinates(i);
            long gi = geo_idx(geo, c);
            bool ok = true;
            T t = F.f.get_value_at(i);
            long got = un(t, ok);
            if (!ok || got != F.v[gi])
                sim_violation("blocked-value", "%s: field %d (%s) on the %s lattice holds %ld at %s, should be %ld; history:%s", what, k, tn, sz(F.lat).c_str(), got,
                              cvs(c).c_str(), F.v[gi], hist.c_str());
            nchk++;
        }
    }
    int pick(int lat) { // a field on lattice lat, or -1
        int n = 0, r = -1;
        for (size_t k = 0; k < fs.size(); k++)
            if (fs[k].lat == lat && g.below(++n) == 0)
                r = k;
        return r;
    }
    int pick_free() {
        for (size_t k = 0; k < fs.size(); k++)
            if (fs[k].lat < 0)
                return k;
        return -1;
    }
    void check_current(const char *what) {
        foralldir(d) if (lattice.size(d) != lats[cur].geo.n[d])
            sim_violation("wrong-lattice", "%s: the active lattice has size %d in direction %d, should be %s; history:%s", what, (int)lattice.size(d), (int)d, sz(cur).c_str(), hist.c_str());
        if (lattice.volume() != lats[cur].geo.vol)
            sim_violation("wrong-lattice", "%s: volume %ld", what, (long)lattice.volume());
        if (lattice.ptr() != lats[cur].ptr)
            sim_violation("wrong-lattice", "%s: the active lattice is another one of the same size; history:%s", what, hist.c_str());
        if (lattice.is_base() != (cur == 0))
            sim_violation("wrong-lattice", "%s: is_base() is wrong", what);
        long n = lattice->mynode.volume;
        long s = n;
        char key[8] = {0};
        (void)key;
        nchk++;
        (void)s;
    }
    void step() {
        int op = g.below(16);
        int a1 = g.below(1000), a2 = g.below(1000);
        const Geo &geo = lats[cur].geo;
        char hb[80];
        snprintf(hb, sizeof hb, " %d@%s", op, sz(cur).c_str());
        hist += hb;
        sim_note("op %d on %s", op, sz(cur).c_str());
        switch (op) {
        case 0:
        case 1: { // block
            CoordinateVector f;
            int n[NDIM];
            foralldir(d) {
                int c[3] = {1, 2, 3};
                f[d] = c[g.below(3)];
                while (geo.n[d] % f[d])
                    f[d] = c[g.below(3)];
                n[d] = geo.n[d] / f[d];
            }
            if (!lattice.can_block(f))
                sim_violation("blocking-refused", "can_block refuses %s on %s", cvs(f).c_str(), sz(cur).c_str());
            // and any other factors are possible exactly if they divide the size
            for (int q = 0; q < 3; q++) {
                CoordinateVector h;
                bool fits = true;
                foralldir(d) {
                    h[d] = 1 + (a2 / (d == 0 ? 1 : d == 1 ? 7 : 49) + q * (1 + d)) % 6;
                    fits = fits && geo.n[d] % h[d] == 0;
                }
                if (lattice.can_block(h) != fits)
                    sim_violation("can-block", "can_block says %s to %s on %s", fits ? "no" : "yes", cvs(h).c_str(), sz(cur).c_str());
            }
            bool uni = true;
            foralldir(d) if (f[d] != f[e_x]) uni = false;
            bool one = uni && f[e_x] == 1;
            if (uni && (a1 & 1))
                lattice.block((int)f[e_x]);
            else
                lattice.block(f);
            hist += ":block" + cvs(f);
            if (one) {
                if (lattice.ptr() != lats[cur].ptr)
                    sim_violation("wrong-lattice", "blocking by 1 leaves the lattice; history:%s", hist.c_str());
                break;
            }
            int found = -1;
            for (size_t k = 0; k < lats.size(); k++)
                if (lats[k].ptr == lattice.ptr())
                    found = k;
            if (found >= 0) {
                if (lats[found].parent != cur)
                    sim_violation("wrong-parent", "blocking %s by %s activates a lattice which was blocked from %s; history:%s", sz(cur).c_str(), cvs(f).c_str(),
                                  lats[found].parent >= 0 ? sz(lats[found].parent).c_str() : "nothing", hist.c_str());
                cur = found;
            } else {
                Lat l;
                l.ptr = lattice.ptr();
                l.parent = cur;
                l.geo.set(n);
                lats.push_back(l);
                cur = lats.size() - 1;
            }
            check_current("block");
            break;
        }
        case 2: // back to the parent
            if (lats[cur].parent >= 0) {
                lattice.unblock();
                cur = lats[cur].parent;
                check_current("unblock");
            }
            break;
        case 3:
            if (a1 & 1) {
                lattice.switch_to_base();
                cur = 0;
            } else {
                int k = a1 % fs.size();
                if (fs[k].lat >= 0) {
                    auto l = fs[k].f.mylattice();
                    lattice.switch_to(l);
                    cur = fs[k].lat;
                }
            }
            check_current("switch");
            break;
        case 4: { // block_from: any field on this lattice (or a new one) from one on the parent
            if (a1 % 8 == 0) { // both on the same lattice: a copy
                int s1 = pick(cur), d1 = pick(cur);
                if (s1 < 0)
                    break;
                int act = away();
                fs[d1].f.block_from(fs[s1].f);
                check_active(act, "block_from on the same lattice");
                lattice.switch_to(lats[cur].ptr);
                fs[d1].v = fs[s1].v;
                break;
            }
            int p = lats[cur].parent;
            if (p < 0)
                break;
            int src = pick(p), dst = a1 % 3 ? pick(cur) : pick_free();
            if (src < 0)
                break;
            if (dst < 0)
                dst = pick_free();
            if (dst < 0)
                break;
            Fld<T> &D = fs[dst], &S = fs[src];
            if (a2 % 4 == 0) // a gather may be under way
                gather_on(p, src, (Direction)(a2 % NDIRS));
            if (a2 % 5 == 0 && D.lat >= 0)
                D.f.start_gather((Direction)(a2 % NDIRS), ALL);
            // with the destination allocated, any lattice may be the active one
            int act = D.lat >= 0 && a1 % 4 == 1 ? away() : cur;
            D.f.block_from(S.f);
            check_active(act, "block_from");
            lattice.switch_to(lats[cur].ptr);
            D.lat = cur;
            D.v.resize(geo.vol);
            corners(p, cur, [&](long pi, long ci) { D.v[ci] = S.v[pi]; });
            check_current("block_from");
            if (a2 % 3 == 0)
                compare(dst, "block_from");
            break;
        }
        case 5: { // unblock_to
            int p = lats[cur].parent;
            if (p < 0)
                break;
            int src = pick(cur), dst = pick(p);
            if (src < 0 || dst < 0)
                break;
            Fld<T> &D = fs[dst], &S = fs[src];
            if (a2 % 4 == 0)
                gather_on(p, dst, (Direction)(a2 % NDIRS));
            int act = a1 % 4 == 1 ? away() : cur;
            S.f.unblock_to(D.f);
            check_active(act, "unblock_to");
            lattice.switch_to(lats[cur].ptr);
            corners(p, cur, [&](long pi, long ci) { D.v[pi] = S.v[ci]; });
            check_current("unblock_to");
            if (a2 % 3 == 0)
                compare(dst, "unblock_to");
            break;
        }
        case 6: { // block_to_current_lattice
            int p = lats[cur].parent;
            if (p < 0)
                break;
            int k = pick(p);
            if (k < 0)
                break;
            Fld<T> &F = fs[k];
            std::vector<long> v(geo.vol);
            corners(p, cur, [&](long pi, long ci) { v[ci] = F.v[pi]; });
            F.f.block_to_current_lattice();
            F.v = v;
            F.lat = cur;
            check_current("block_to_current_lattice");
            if (a2 % 3 == 0)
                compare(k, "block_to_current_lattice");
            break;
        }
        case 7: { // new contents, or a new field
            int k = a1 & 1 ? pick(cur) : pick_free();
            if (k < 0)
                k = pick_free();
            if (k < 0)
                break;
            fill(k);
            break;
        }
        case 8: { // a field is cleared, possibly while another lattice is active and a gather under way
            int k = a1 % fs.size();
            int have = 0;
            for (auto &F : fs)
                have += F.lat >= 0;
            if (fs[k].lat < 0 || have < 3)
                break;
            if (fs[k].lat == cur && (a2 & 1))
                fs[k].f.start_gather((Direction)(a2 % NDIRS), ALL);
            fs[k].f.clear();
            fs[k].lat = -1;
            break;
        }
        case 9: // start a gather which stays under way over whatever follows
            if (int k = pick(cur); k >= 0)
                fs[k].f.start_gather((Direction)(a1 % NDIRS), a2 & 1 ? ALL : (a2 & 2) ? EVEN : ODD);
            break;
        case 10: { // element access
            int k = pick(cur);
            if (k < 0)
                break;
            long i = (long)(g.next() % (uint64_t)geo.vol);
            CoordinateVector c = geo_cv(geo, i);
            long x = g.in(0, 1000);
            if (a1 & 1) {
                fs[k].f.set_element(c, mk<T>(x));
                fs[k].v[i] = x;
            }
            T t = fs[k].f.get_element(c);
            bool ok = true;
            long got = un(t, ok);
            if (!ok || got != fs[k].v[i])
                sim_violation("blocked-element", "field %d (%s) on %s: element %s is %ld, should be %ld; history:%s", k, tn, sz(cur).c_str(), cvs(c).c_str(), got, fs[k].v[i], hist.c_str());
            nchk++;
            break;
        }
        case 11: { // sum over the sites
            int k = pick(cur);
            if (k < 0)
                break;
            Field<T> &a = fs[k].f;
            int q = a1 % 3;
            Parity par = q == 0 ? EVEN : q == 1 ? ODD : ALL;
            if (!geo.alleven)
                par = ALL;
            T s = mk<T>(0);
            s = 0;
            onsites(par) s += a[X];
            long w = 0;
            for (long i = 0; i < geo.vol; i++)
                if (in_par(par, geo.par(i)))
                    w += fs[k].v[i];
            double first = comp0(s);
            if (first != (double)w)
                sim_violation("blocked-sum", "field %d (%s) on %s: sum over %s is %.0f, should be %ld; history:%s", k, tn, sz(cur).c_str(), par_name(par), first, w, hist.c_str());
            nchk++;
            break;
        }
        case 12: { // shift
            int k = pick(cur), t = pick_free();
            if (k < 0 || t < 0)
                break;
            CoordinateVector c;
            int v[NDIM];
            foralldir(d) {
                c[d] = g.in(-2, 2);
                v[d] = c[d];
            }
            fs[t].f = fs[k].f.shift(c);
            fs[t].lat = cur;
            fs[t].v.resize(geo.vol);
            for (long i = 0; i < geo.vol; i++)
                fs[t].v[i] = fs[k].v[geo.shifted(i, v)];
            break;
        }
        default: { // b = 2a(x+d) + a, or b += a(x+d)
            int k = pick(cur), t = pick(cur);
            if (k < 0)
                break;
            Direction d = (Direction)(a1 % NDIRS);
            Field<T> &a = fs[k].f;
            Parity par = a2 % 3 == 0 ? EVEN : a2 % 3 == 1 ? ODD : ALL;
            // reading neighbours of the field being written is only defined on the other parity
            if (!geo.alleven || k == t)
                if (t == k || par != ALL) {
                    t = pick_free();
                    if (t < 0)
                        break;
                    par = ALL;
                }
            Field<T> &b = fs[t].f;
            if (fs[t].lat < 0) {
                b[ALL] = a[X + d];
                fs[t].lat = cur;
                fs[t].v.assign(geo.vol, 0);
                for (long i = 0; i < geo.vol; i++)
                    fs[t].v[i] = fs[k].v[geo.nb(i, d)];
            } else {
                onsites(par) {
                    b[X] = a[X + d];
                }
                for (long i = 0; i < geo.vol; i++)
                    if (in_par(par, geo.par(i)))
                        fs[t].v[i] = fs[k].v[geo.nb(i, d)];
            }
        }
        }
    }
    int away() { // make some lattice the active one
        int l = g.below(lats.size());
        lattice.switch_to(lats[l].ptr);
        return l;
    }
    void check_active(int l, const char *what) {
        if (lattice.ptr() != lats[l].ptr)
            sim_violation("wrong-lattice", "%s does not leave the %s lattice active; history:%s", what, sz(l).c_str(), hist.c_str());
    }
    void gather_on(int lat, int k, Direction d) { // a gather can be started only on the active lattice
        lattice_struct *l = fs[k].f.mylattice().ptr(), *c = lattice.ptr();
        (void)lat;
        lattice.switch_to(l);
        fs[k].f.start_gather(d, ALL);
        lattice.switch_to(c);
    }
    template <typename F>
    void corners(int p, int c, F fn) {
        const Geo &P = lats[p].geo, &C = lats[c].geo;
        for (long ci = 0; ci < C.vol; ci++) {
            int cc[NDIM];
            C.coord(ci, cc);
            for (int d = 0; d < NDIM; d++)
                cc[d] *= P.n[d] / C.n[d];
            fn(P.idx(cc), ci);
        }
    }
    void run(int n) {
        for (int i = 0; i < n; i++) {
            step();
            if (getenv("HDEBUG"))
                for (size_t k = 0; k < fs.size(); k++)
                    if (fs[k].lat >= 0)
                        compare(k, "debug");
            if (hist.size() > 2500)
                hist = "..." + hist.substr(hist.size() - 2000);
        }
        for (size_t k = 0; k < fs.size(); k++)
            if (fs[k].lat >= 0)
                compare(k, "at the end");
        // neighbours at the end, each on its own lattice
        for (size_t k = 0; k < fs.size(); k++)
            if (fs[k].lat >= 0) {
                auto l = fs[k].f.mylattice();
                lattice.switch_to(l);
                cur = fs[k].lat;
                const Geo &geo = lats[cur].geo;
                Direction d = (Direction)g.below(NDIRS);
                Field<T> &a = fs[k].f;
                Field<T> b;
                b[ALL] = a[X + d];
                for (unsigned i = 0; i < lattice->mynode.volume; i++) {
                    CoordinateVector c = lattice->coordinates(i);
                    bool ok = true;
                    T t = b.get_value_at(i);
                    long got = un(t, ok), w = fs[k].v[geo.nb(geo_idx(geo, c), d)];
                    if (!ok || got != w)
                        sim_violation("blocked-neighbour", "field %zu (%s) on %s: neighbour %d of %s is %ld, should be %ld; history:%s", k, tn, sz(cur).c_str(), (int)d, cvs(c).c_str(), got, w,
                                      hist.c_str());
                    nchk++;
                }
            }
        sim_count("lattices", (long)lats.size());
        lattice.switch_to_base();
    }
};

extern "C" int harness_main(int argc, char **argv) {
    Geo geo;
    start_hila(argc, argv, geo);
    int n = sim_param("ops", 10);
    switch (sim_seed() % 3) {
    case 0: {
        Prog<long> p(geo, 7, "long");
        p.run(n);
        break;
    }
    case 1: {
        Prog<double> p(geo, 7, "double");
        p.run(n);
        break;
    }
    default: {
        Prog<Vector<3, double>> p(geo, 7, "Vector<3>");
        p.run(n);
    }
    }
    sim_count("checked.entries", nchk);
    end_hila();
    return 0;
}
extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 1000);
    Out o(out, n);
    static const int nrs[] = {1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 8};
    int nr = nrs[g.below(11)];
    int sz[NDIM];
    for (int t = 0; t < 1000; t++) {
        choose_size(g, nr, g.pct(40), 400, sz);
        // sizes with divisors: at least one direction can be blocked
        long vol = 1;
        int can = 0;
        for (int d = 0; d < NDIM; d++) {
            if (g.pct(40))
                sz[d] *= g.in(2, 3);
            vol *= sz[d];
            can += sz[d] % 2 == 0 || sz[d] % 3 == 0;
        }
        if (vol <= (tier ? 1500 : 900) && can)
            break;
    }
    o.line("nranks=%d", nr);
    plan_size(o, sz);
    o.line("ops=%d", g.in(2, tier ? 80 : 35));
}
