// C16: the layout is a one-to-one cover of the lattice, with consistent tables.
#include "common.h"

static Geo geo;
static long nchk;

static uint64_t fnv(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++)
        h = (h ^ c[i]) * 0x100000001b3ull;
    return h;
}

static void checks() {
    const lattice_struct &L = lattice.ref();
    const auto &mn = L.mynode;
    int me = hila::myrank(), nr = hila::number_of_nodes();
    if (lattice.volume() != geo.vol)
        sim_violation("layout-size", "lattice.volume() is %ld, should be %ld", (long)lattice.volume(), geo.vol);
    foralldir(d) if (lattice.size(d) != geo.n[d]) sim_violation("layout-size", "lattice.size(%d) is %d, should be %d", (int)d, lattice.size(d), geo.n[d]);
    if (L.nodes.number != nr)
        sim_violation("layout-ranks", "nodes.number %d of %d ranks", L.nodes.number, nr);

    // who owns each coordinate, according to three sources
    std::vector<int> owner(geo.vol, -1);
    long sum = 0;
    for (int r = 0; r < nr; r++) {
        node_info ni = L.nodes.nodeinfo(r);
        long v = 1;
        foralldir(d) {
            if (ni.min[d] < 0 || ni.min[d] + ni.size[d] > geo.n[d] || ni.size[d] < 0)
                sim_violation("layout-box", "rank %d has range %d+%d in direction %d of %d", r, ni.min[d], ni.size[d], (int)d, geo.n[d]);
            v *= ni.size[d];
        }
        if ((long)(ni.evensites + ni.oddsites) != v)
            sim_violation("layout-parity", "rank %d: %ld even + %ld odd sites in a box of %ld", r, (long)ni.evensites, (long)ni.oddsites, v);
        long ev = 0;
        int c[NDIM];
        for (long q = 0; q < v; q++) {
            long t = q;
            for (int d = 0; d < NDIM; d++) {
                c[d] = ni.min[(Direction)d] + t % ni.size[(Direction)d];
                t /= ni.size[(Direction)d];
            }
            long i = geo.idx(c);
            if (owner[i] >= 0)
                sim_violation("layout-overlap", "site %s belongs to ranks %d and %d", cvs(geo_cv(geo, i)).c_str(), owner[i], r);
            owner[i] = r;
            if (geo.par(i) == 0)
                ev++;
        }
        if (ev != (long)ni.evensites)
            sim_violation("layout-parity", "rank %d has %ld even sites, the layout says %ld", r, ev, (long)ni.evensites);
        sum += v;
        if (r == me) {
            bool same = (long)mn.volume == v && (long)mn.evensites == ev && mn.rank == me;
            foralldir(d) if (mn.min[d] != ni.min[d] || mn.size[d] != ni.size[d]) same = false;
            if (!same)
                sim_violation("layout-mynode", "rank %d: its own description differs from the table of all ranks", r);
        }
        if (L.nodes.remap(L.nodes.inverse_remap(r)) != r || L.nodes.inverse_remap(L.nodes.remap(r)) != r)
            sim_violation("layout-remap", "the two rank maps are not inverse at %d", r);
    }
    if (sum != geo.vol)
        sim_violation("layout-cover", "the ranks hold %ld sites, the lattice has %ld", sum, geo.vol);

    std::vector<char> used(mn.volume, 0);
    for (long i = 0; i < geo.vol; i++) {
        CoordinateVector c = geo_cv(geo, i);
        int r = L.node_rank(c);
        if (r != owner[i])
            sim_violation("layout-rank", "site %s: node_rank gives %d, the ranges give %d", cvs(c).c_str(), r, owner[i]);
        bool mine = L.is_on_mynode(c);
        if (mine != (r == me))
            sim_violation("layout-rank", "site %s of rank %d: is_on_mynode says %d on rank %d", cvs(c).c_str(), r, (int)mine, me);
        if (mine) {
            unsigned k = L.site_index(c);
            if (k >= mn.volume)
                sim_violation("layout-index", "site %s has index %u on a rank of %ld sites", cvs(c).c_str(), k, (long)mn.volume);
            if (used[k])
                sim_violation("layout-index", "index %u belongs to two sites, one is %s", k, cvs(c).c_str());
            used[k] = 1;
            CoordinateVector b = L.coordinates(k);
            foralldir(d) {
                if (b[d] != c[d])
                    sim_violation("layout-coord", "index %u of site %s maps back to %s", k, cvs(c).c_str(), cvs(b).c_str());
                if (L.coordinate(k, d) != c[d])
                    sim_violation("layout-coord", "coordinate(%u,%d) is %d, should be %d", k, (int)d, L.coordinate(k, d), c[d]);
            }
            Parity p = L.site_parity(k);
            if ((p == EVEN) != (geo.par(i) == 0))
                sim_violation("layout-parity", "site %s has parity %s", cvs(c).c_str(), par_name(p));
            bool first = k < mn.evensites;
#ifndef SUBNODE_LAYOUT
            if (first != (geo.par(i) == 0))
                sim_violation("layout-order", "site %s has index %u, but the rank has %ld even sites", cvs(c).c_str(), k, (long)mn.evensites);
            for (Parity q : {EVEN, ODD, ALL})
                if ((k >= L.loop_begin(q) && k < L.loop_end(q)) != in_par(q, geo.par(i)))
                    sim_violation("layout-order", "site %s with index %u is not placed right in the %s loop [%u,%u)", cvs(c).c_str(), k, par_name(q), L.loop_begin(q), L.loop_end(q));
#else
            if (first != (geo.par(i) == 0))
                sim_violation("layout-order", "site %s has index %u, but the rank has %ld even sites", cvs(c).c_str(), k, (long)mn.evensites);
#endif
#ifndef SUBNODE_LAYOUT
            for (Direction d = e_x; d < NDIRS; ++d) {
                CoordinateVector n = geo_cv(geo, geo.nb(i, d));
                unsigned t = L.neighb[d][k];
                if (L.is_on_mynode(n)) {
                    if (t != L.site_index(n))
                        sim_violation("layout-neighbour", "neighbour %d of %s should be index %u (%s), is %u", (int)d, cvs(c).c_str(), L.site_index(n), cvs(n).c_str(), t);
                } else {
                    const auto &f = L.nn_comminfo[d].from_node;
                    if (t < mn.volume || t >= mn.field_alloc_size)
                        sim_violation("layout-neighbour", "neighbour %d of %s on another rank has index %u, rank has %ld sites", (int)d, cvs(c).c_str(), t, (long)mn.volume);
                    if ((int)f.rank != owner[geo.nb(i, d)])
                        sim_violation("layout-neighbour", "direction %d: rank %d gathers from %u, the neighbour of %s is on %d", (int)d, me, f.rank, cvs(c).c_str(), owner[geo.nb(i, d)]);
                    if (t < f.buffer || t >= f.buffer + f.sites)
                        sim_violation("layout-neighbour", "neighbour %d of %s has index %u outside the halo [%ld,+%ld)", (int)d, cvs(c).c_str(), t, (long)f.buffer, (long)f.sites);
                }
            }
#endif
        }
        nchk++;
    }
#ifndef SUBNODE_LAYOUT
    // the halo slots of one direction belong to different sites
    for (Direction d = e_x; d < NDIRS; ++d) {
        std::vector<char> slot(mn.field_alloc_size, 0);
        for (size_t k = 0; k < mn.volume; k++) {
            unsigned t = L.neighb[d][k];
            if (slot[t])
                sim_violation("layout-neighbour", "direction %d: two sites have the same neighbour index %u", (int)d, t);
            slot[t] = 1;
        }
    }
#endif
    uint64_t h = fnv(owner.data(), owner.size() * sizeof(int));
    sim_agree("owners", &h, sizeof h);
    sim_state(h ^ fnv(geo.n, sizeof geo.n));

    // the neighbour a program sees
    Field<long> f, t;
    fill_field(geo, f, [&](long i) { return i + 1; });
    for (Direction d = e_x; d < NDIRS; ++d) {
        onsites(ALL) t[X] = f[X + d];
        for (unsigned k = 0; k < mn.volume; k++) {
            long i = geo_idx(geo, L.coordinates(k));
            long v = t.get_value_at(k);
            if (v != geo.nb(i, d) + 1)
                sim_violation("layout-read", "reading the neighbour %d of %s gives site %ld, should be %ld", (int)d, cvs(geo_cv(geo, i)).c_str(), v - 1, geo.nb(i, d));
        }
    }
    // loops visit each site once, and X.coordinates() is right
    long cnt = 0, sumi = 0, ev = 0;
    CoordinateVector sz = lattice.size();
    onsites(ALL) {
        CoordinateVector c = X.coordinates();
        long id = 0;
        for (int d = NDIM - 1; d >= 0; d--)
            id = id * sz[d] + c[d];
        sumi += id;
        cnt += 1;
    }
    onsites(EVEN) ev += 1;
    long want = 0;
    for (long i = 0; i < geo.vol; i++)
        if (geo.par(i) == 0)
            want++;
    if (cnt != geo.vol || sumi != geo.vol * (geo.vol - 1) / 2)
        sim_violation("layout-loop", "a loop over all sites visits %ld sites with index sum %ld, should be %ld and %ld", cnt, sumi, geo.vol, geo.vol * (geo.vol - 1) / 2);
    if (ev != want)
        sim_violation("layout-loop", "a loop over even sites visits %ld sites, should be %ld", ev, want);
}

extern "C" int harness_main(int argc, char **argv) {
    start_hila(argc, argv, geo);
    checks();
    sim_count("checked.sites", nchk);
    sim_count("accepted", hila::myrank() == 0);
    end_hila();
    return 0;
}
// Divisions which every greedy division finds: nothing but factors of two, and at least two sites per direction and rank.
// Refusing them would be refusing to run.
static bool must_fit(const int *n, int nr) {
#ifdef SUBNODE_LAYOUT
    nr *= hila::number_of_subnodes; // divided further, and 2 sites per subnode
#endif
    if (nr & (nr - 1))
        return false;
    long v = 1;
    for (int d = 0; d < NDIM; d++) {
        if (n[d] & (n[d] - 1))
            return false;
#ifndef SUBNODE_LAYOUT
        if (n[d] < 2)
            return false;
#else
        if (n[d] < 4)
            return false;
#endif
        v *= n[d];
    }
    return v / nr >= (1 << NDIM);
}
extern "C" void harness_post(int) {
    if (sim_outcome() != 1)
        return;
    int n[NDIM];
    get_size(n);
    char je[400] = "job ended abnormally";
    sim_get("job_end", je, sizeof je);
    if (!layout_refused())
        sim_violation("abnormal-end", "%s", je);
    if (must_fit(n, sim_param("nranks", 1)))
        sim_violation("layout-refused", "a lattice of powers of two which divides evenly is refused (%s)", je);
}
extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 1000);
    Out o(out, n);
    int nr = g.in(1, 24);
    if (g.pct(30))
        nr = g.in(1, 8);
    int maxvol = tier ? 6000 : 1500;
    int sz[NDIM];
    int mode = g.below(5);
    if (mode == 4)
        nr = 1 << g.below(5);
    if (mode == 0)
        choose_size(g, nr, true, maxvol, sz);
    else
        for (int t = 0; t < 200; t++) {
            long v = 1;
            for (int d = 0; d < NDIM; d++) {
                int mx = NDIM == 2 ? 40 : NDIM == 3 ? 18 : 9;
                sz[d] = mode == 4 ? 1 << g.in(1, NDIM == 2 ? 5 : 4) : mode == 1 ? g.in(1, mx) : mode == 2 ? 2 * g.in(1, mx / 2) : g.in(2, mx);
                v *= sz[d];
            }
#ifdef SUBNODE_LAYOUT
            if (mode != 1)
                for (int d = 0; d < NDIM; d++)
                    if (sz[d] % 2)
                        sz[d]++;
#endif
            if (v <= maxvol && v >= nr)
                break;
        }
    long v = 1;
    for (int d = 0; d < NDIM; d++)
        v *= sz[d];
    if (v > 2 * maxvol)
        for (int d = 0; d < NDIM; d++)
            sz[d] = 4;
    o.line("nranks=%d", nr);
    plan_size(o, sz);
}
