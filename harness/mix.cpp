// C02: programs which mix every kind of communication; they must run to their end, with nothing lost, left over
// or touched too early.  Values are not judged, except that a program must never see bytes no rank has written:
// all fields hold small numbers, so those stand out.
#include "common.h"
#include "plumbing/clusters.h"
#include <map>
#include <unistd.h>
#ifdef MEMORY
#include "gauge/staples.h"
#include "gauge/polyakov.h"
#include "gauge/stout_smear.h"
#include <fstream>
constexpr int NOPS = 46;
#else
constexpr int NOPS = 30;
#endif

static Geo geo;
static long nchk;
constexpr long MASK = (1l << 20) - 1;

static void look(Field<long> &f, const char *what) {
    for (unsigned i = 0; i < f.mylattice()->mynode.volume; i++) {
        long v = f.get_value_at(i);
        if (v & ~MASK)
            sim_violation("unwritten-data", "%s: a field of numbers below 2^20 holds %lx", what, (unsigned long)v);
    }
    nchk++;
}
static void look(long v, const char *what) {
    if (v & ~MASK)
        sim_violation("unwritten-data", "%s: a number below 2^20 is %lx", what, (unsigned long)v);
    nchk++;
}

struct Run {
    Gen &g;
    static constexpr int NF = 4, NR = 2;
    Field<long> f[NF];
    Field<Complex<double>> c;
    Reduction<double> ra;
    Reduction<Complex<double>> rb;
    ReductionVector<double> rv;
    SiteSelect sel;
#ifndef AVX
    hila::Clusters cl;
#endif
    std::map<int, int> kind;
    int nfile = 0;
    bool joined = true;
    Run(Gen &gg) : g(gg), rv(5) {
        for (auto &x : f)
            fresh(x);
        c = 1;
        flags();
        ra = 0;
        rb = Complex<double>(0);
        rv = 0;
    }
    Direction dir() { return (Direction)g.below(NDIRS); }
    Parity par() {
        int k = g.below(4);
        return k == 0 ? EVEN : k == 1 ? ODD : ALL;
    }
    CoordinateVector site() {
        CoordinateVector v;
        foralldir(d) v[d] = g.below(geo.n[d]);
        return v;
    }
    void flags() {
        ra.allreduce(g.pct(70)).nonblocking(g.pct(60)).delayed(g.pct(50));
        rb.allreduce(g.pct(70)).nonblocking(g.pct(60)).delayed(g.pct(50));
        rv.allreduce(g.pct(70)).nonblocking(g.pct(60)).delayed(g.pct(50));
    }
    void fresh(Field<long> &x) {
        int a = g.below(1000), b = g.below(1000);
        onsites(ALL) x[X] = (a + b * X.coordinate(e_x)) & MASK;
    }
    // some communication which is not waited for
    void ahead(Field<long> &x) {
        int n = g.in(1, 4);
        for (int k = 0; k < n; k++) {
            Direction d = dir();
            Parity p = par();
            x.start_gather(d, p);
        }
    }
    void step(int op) {
        int k = g.below(NF), l = g.below(NF);
        Field<long> &a = f[k], &b = f[l];
        Direction d = dir(), e = dir();
        Parity p = par();
        sim_note("mix op %d", op);
        switch (op) {
        case 0:
            if (&a == &b) {
                onsites(opp_parity(p == ALL ? EVEN : p)) a[X] = 7;
            } else
                onsites(p) a[X] = b[X + d];
            look(a, "copy of a neighbour");
            break;
        case 1: {
            Field<long> t;
            onsites(ALL) t[X] = ((a[X + d] + b[X + e]) & MASK) | ((a[X + d] | b[X + e]) & ~MASK);
            look(t, "sum of neighbours");
            a = t;
            break;
        }
        case 2:
            ahead(a);
            break;
        case 3: { // a temporary with communication under way
            Field<long> t = b;
            ahead(t);
            if (g.pct(30))
                t = a;
            else if (g.pct(30))
                a = std::move(t);
            else if (g.pct(30))
                std::swap(t, a);
            break;
        }
        case 4:
            ahead(a);
            if (g.pct(50)) {
                a.clear();
                fresh(a);
            } else if (g.pct(50))
                a[p] = 3;
            else
                a[site()] = 5;
            break;
        case 5:
            ra.start_reduce();
            break;
        case 6:
            onsites(p) ra += b[X];
            break;
        case 7:
            onsites(p) {
                rb += c[X];
                ra += a[X + d];
            }
            break;
        case 8:
            if (g.pct(50))
                ra.value();
            else
                rb.value();
            break;
        case 9: {
            ra = 0;
            rb = Complex<double>(0);
            rv = 0;
            flags();
            break;
        }
        case 10:
            onsites(p) rv[X.coordinate(e_x) % 5] += b[X];
            break;
        case 11:
            if (g.pct(50))
                rv.start_reduce();
            else
                rv.reduce();
            break;
        case 12: {
            long s = 0;
            double t = 0;
            onsites(p) {
                s += b[X];
                t += a[X + e];
            }
            break;
        }
        case 13: {
            int root = g.below(hila::number_of_nodes());
            long v = hila::myrank() == root ? 77 : 66;
            look(hila::broadcast(v, root), "broadcast");
            std::vector<double> w(hila::myrank() == root ? g.s % 9 : 3, 1.0);
            hila::broadcast(w, root);
            std::string s(hila::myrank() == root ? "something" : "");
            hila::broadcast(s, root);
            break;
        }
        case 14: {
            int from = g.below(hila::number_of_nodes()), to = g.below(hila::number_of_nodes());
            if (from != to) {
                long v = 9;
                if (hila::myrank() == from)
                    hila::send_to(to, v);
                if (hila::myrank() == to) {
                    hila::receive_from(from, v);
                    look(v, "message");
                }
            }
            break;
        }
        case 15:
            look((long)b[site()], "element");
            a[site()] = 11;
            break;
        case 16: {
            std::vector<CoordinateVector> w;
            int n = g.below(9);
            for (int i = 0; i < n; i++)
                w.push_back(site());
            for (long v : b.get_elements(w, g.pct(50)))
                if (hila::myrank() == 0)
                    look(v, "list of elements");
            break;
        }
        case 17: {
            CoordinateVector s;
            foralldir(q) s[q] = g.pct(50) ? -1 : (int)g.below(geo.n[q]);
            for (long v : b.get_slice(s, g.pct(50)))
                if (hila::myrank() == 0)
                    look(v, "slice");
            break;
        }
        case 18:
            b.min(p);
            b.max(p);
            break;
        case 19: { // file
            std::string name = "mix" + std::to_string(nfile++);
            b.write(name);
            if (g.pct(70)) {
                a.read(name);
                look(a, "field read from file");
            }
            break;
        }
        case 20: {
            CoordinateVector on;
            foralldir(q) on[q] = g.below(2);
            onsites(ALL) c[X] = a[X];
            Field<Complex<double>> r = c.FFT(on, g.pct(50) ? fft_direction::forward : fft_direction::back);
            for (unsigned i = 0; i < lattice->mynode.volume; i++) {
                Complex<double> z = r.get_value_at(i);
                if (!(std::abs(z.re) < 1e15 && std::abs(z.im) < 1e15))
                    sim_violation("unwritten-data", "FFT of a field of numbers below 2^20 holds %g + i %g", z.re, z.im);
            }
            if (g.pct(30))
                c = c.reflect();
            break;
        }
        case 21: {
            CoordinateVector s;
            foralldir(q) s[q] = g.in(-2, 2);
            if (g.pct(50))
                a = b.shift(s);
            else if (&a != &b) {
                Parity q = geo.alleven ? p : ALL; // (the parity of a path is not defined for odd sizes)
                onsites(q) a[X] = b[X + s];
            }
            look(a, "shift");
            break;
        }
        case 22: {
            int m = g.in(1, 4);
            if (g.pct(40))
                sel.no_join();
            onsites(ALL) {
                if (b[X] % m == 0)
                    sel.select(X);
            }
            if (g.pct(50))
                sel.join();
            break;
        }
#ifndef AVX
        case 23: {
            Field<uint8_t> t;
            int m = g.in(2, 4);
            onsites(ALL) t[X] = b[X] % m;
            sim_races(0); // safe_access(labels)
            cl.find(t);
            sim_races(1);
            break;
        }
#endif
        case 24: { // blocked lattice
            CoordinateVector by;
            foralldir(q) by[q] = geo.n[q] % 2 == 0 && g.pct(50) ? 2 : 1;
            if (g.pct(50))
                ahead(b);
            if (!lattice.can_block(by)) // (never possible in vectorised builds)
                break;
            lattice.block(by);
            if (!lattice.is_base()) {
                Field<long> t, u;
                t.block_from(b);
                if (g.pct(60)) {
                    onsites(ALL) u[X] = t[X + d];
                    look(u, "neighbour on the blocked lattice");
                    ahead(t);
                }
                if (g.pct(50)) {
                    long s = 0;
                    onsites(ALL) s += t[X];
                }
                if (g.pct(50))
                    t.unblock_to(a);
                lattice.switch_to_base();
                if (&a != &b && g.pct(50)) {
                    onsites(ALL) a[X] = b[X + d];
                }
                look(a, "after blocking");
            }
            break;
        }
        case 25:
            hila::synchronize();
            break;
        case 26: {
            Field<double> t;
            onsites(ALL) t[X] = hila::random();
            t.max();
            break;
        }
        case 27: { // VectorField-like: several fields gathered together
            Field<long> t[NDIM];
            foralldir(q) t[q] = b;
            foralldir(q) t[q].start_gather(q);
            Field<long> u = 0;
            foralldir(q) {
                onsites(ALL) u[X] = (u[X] ^ t[q][X + q]);
            }
            look(u, "several fields");
            a = u;
            break;
        }
        case 28:
            hila::time_to_finish();
            break;
        case 29: {
            long v = (long)b.get_element(site());
            look(v, "get_element");
            std::vector<long> w;
            b.copy_local_data(w);
            for (long x : w)
                look(x, "local data");
            break;
        }
#ifdef MEMORY
        case 30: { // gauge field
            GaugeField<SU<2, double>> U, V;
            U = 1;
            V = U;
            foralldir(q) U[q].start_gather(d);
            U.measure_plaq();
            measure_polyakov(U, (Direction)g.below(NDIM));
#ifndef AVX // (does not compile)
            if (g.pct(40))
                stout_smear(U, V, 0.1, 1);
#endif
            if (g.pct(40)) {
                U.config_write("conf");
                V.config_read("conf");
            }
            if (g.pct(30))
                V = std::move(U);
            break;
        }
        case 31: {
            VectorField<double> v, w;
            foralldir(q) v[q] = 1;
            w = v;
            std::vector<Field<long>> many(2);
            many[0] = b;
            many[1] = many[0];
            ahead(many[1]);
            many.resize(3);
            many[2] = many[1];
            ahead(many[2]);
            if (g.pct(50))
                many.erase(many.begin());
            break;
        }
        case 32: {
            hila::k_binning kb;
            kb.bins(4);
            Field<double> r = 1;
            kb.bin_k_field(r);
            kb.spectraldensity(c);
            if (g.pct(50))
                kb.k_max(3);
            kb.count(1);
            break;
        }
        case 33: {
            hila::input in;
            in.quiet();
            if (in.open("meminput")) {
                std::vector<double> v = in.get("list");
                std::string w = in.get("name");
                if (g.pct(50))
                    in.close();
            }
            break;
        }
        case 34: {
            hila::timer t("a timer of one round");
            t.start();
            b.start_gather(d);
            t.stop();
            break;
        }
        case 35: {
            std::vector<CoordinateVector> w;
            std::vector<long> v;
            int n = g.below(9);
            for (int i = 0; i < n; i++) {
                CoordinateVector s = site();
                bool have = false;
                for (auto &y : w)
                    have = have || y == s;
                if (!have) {
                    w.push_back(s);
                    v.push_back(i);
                }
            }
            a.set_elements(v, w);
            break;
        }
        case 36: {
            std::vector<long> w;
            b.copy_local_data_with_halo(w);
            b.copy_local_data(w);
            a.set_local_data(w);
            break;
        }
        case 37: {
            SiteValueSelect<double> t;
            onsites(ALL) {
                if (b[X] % 3 == 0)
                    t.select(X, (double)b[X]);
            }
            if (g.pct(50)) {
                SiteValueSelect<double> u = t;
                t.clear();
            }
            break;
        }
        case 38: {
            for (auto &x : hila::shuffle_directions_and_parities())
                a.start_gather(x.direction, x.parity);
            break;
        }
        case 39: {
            CoordinateVector lo = site(), hi;
            foralldir(q) hi[q] = g.in(lo[q], geo.n[q] - 1);
            b.write_subvolume("sub", lo, hi);
            std::vector<long> v = b.get_subvolume(lo, hi, g.pct(50));
            break;
        }
        case 40: {
            Field<double> r = 1;
            Field<Complex<double>> z = r.FFT_real_to_complex();
            bool even = true;
            foralldir(q) even = even && geo.n[q] % 2 == 0;
            if (even && g.pct(50))
                z.FFT_complex_to_real();
            break;
        }
        case 41: { // the fields which live as long as the program
            Field<long> &x = g.pct(50) ? *keep : b;
            int q = g.below(5);
            if (q == 0)
                *keep = b;
            else if (q == 1)
                ahead(*keep);
            else if (q == 2)
                keep->clear();
            if (!keep->is_allocated())
                fresh(*keep);
            onsites(ALL) a[X] = (a[X] ^ (*keep)[X + d]) & MASK;
            break;
        }
        case 42: {
            Field<long> x = b, y;
            y = std::move(x);
            x = y;
            std::swap(x, y);
            Field<long> z(std::move(y));
            Field<float> h(1);
            h *= 2;
            Field<Vector<3, double>> v;
            v.allocate();
            if (z == x)
                v = 0;
            v.start_gather(d, p);
            break;
        }
        case 43: {
            std::vector<std::vector<long>> l(2);
            for (auto &x : l)
                x.resize(2, 1);
            hila::broadcast(l[0]);
            Reduction<double> r = 0;
            r.nonblocking().delayed(g.pct(50));
            onsites(ALL) r += b[X];
            if (g.pct(50))
                r.start_reduce();
            ReductionVector<long> v(g.in(1, 9));
            v.nonblocking(g.pct(50)).delayed(g.pct(50));
            v = 0;
            onsites(ALL) v[0] += b[X];
            if (g.pct(50))
                v.start_reduce();
            break;
        }
        case 44: { // blocked lattice, fields moved there
            CoordinateVector by;
            foralldir(q) by[q] = geo.n[q] % 2 == 0 && g.pct(50) ? 2 : 1;
            Field<long> t = b;
            GaugeField<SU<2, double>> U, V;
            U = 1;
            V = 1;
            if (g.pct(50))
                ahead(t);
            if (!lattice.can_block(by)) // (never possible in vectorised builds)
                break;
            lattice.block(by);
            if (!lattice.is_base()) {
                t.block_to_current_lattice();
                ahead(t);
                if (g.pct(50))
                    U.block_gauge_to_current_lattice();
                else {
                    GaugeField<SU<2, double>> W;
                    W.block_gauge(U);
                    W.unblock_gauge(V);
                }
                lattice.switch_to_base();
            }
            break;
        }
        case 45: { // the boundary conditions, text output and a new field of each kind
            Field<Complex<float>> z;
            z = 1;
            z.start_gather(d);
            std::vector<Complex<float>> v = z.get_slice(site(), true);
            b.write_slice("slice", site());
            hila::out0 << "some text " << v.size() << std::endl;
            Field<Matrix<2, 3, float>> w;
            w.allocate();
            z.conj();
            Field<Complex<float>> y;
            CoordinateVector s = site();
            y = z.shift(s);
            Field<long> half, none;
            half[EVEN] = 5;
            half.start_gather(d, EVEN);
            if (g.pct(50))
                half = b + a;
            else if (g.pct(50))
                half = a;
            none.allocate();
            if (g.pct(50))
                none = std::move(half);
            Field<Complex<double>> f = c;
            f.FFT();
            f.reflect();
            break;
        }
#endif
        }
    }
#ifdef MEMORY
    static Field<long> *keep;
#endif
};

static void program(Gen &g) {
    Run r(g);
    int n = sim_param("ops", 6);
    long mask = sim_param("opmask", -1);
    for (int i = 0; i < n; i++) {
        int op;
        do {
            op = g.below(NOPS);
        } while (!((mask >> op) & 1));
        r.step(op);
    }
}

#ifdef MEMORY
Field<long> *Run::keep;
// C26: the same program again and again: what the rank holds afterwards must not grow
static void rounds() {
    if (hila::myrank() == 0) {
        std::ofstream f("meminput");
        f << "list 1,2,3,4\nname something\n";
    }
    hila::synchronize();
    int R = sim_param("rounds", 7);
    std::vector<long> bytes(R), blocks(R);
    {
        Field<long> k;
        Run::keep = &k;
        Gen g0(sim_seed(), 40);
        Run(g0).fresh(k);
        for (int r = 0; r < R; r++) {
            Gen g(sim_seed(), 41);
            program(g);
            hila::synchronize();
            bytes[r] = sim_heap_bytes();
            blocks[r] = sim_heap_blocks();
            sim_note("round %d leaves %ld bytes in %ld blocks", r, bytes[r], blocks[r]);
        }
    }
    bool more = R >= 5;
    for (int r = R - 3; r < R && more; r++)
        more = blocks[r] > blocks[r - 1] && bytes[r] > bytes[r - 1];
    if (more)
        sim_violation("memory-grows", "a program run %d times holds %ld, %ld, %ld and %ld bytes in %ld, %ld, %ld and %ld blocks after the last four", R, bytes[R - 4], bytes[R - 3],
                      bytes[R - 2], bytes[R - 1], blocks[R - 4], blocks[R - 3], blocks[R - 2], blocks[R - 1]);
    sim_count("checked.rounds", R);
    if (bytes[R - 1] == bytes[R - 2])
        sim_count("checked.steady", 1);
}
#endif

extern "C" int harness_main(int argc, char **argv) {
    start_hila(argc, argv, geo);
    hila::seed_random(7);
#ifdef MEMORY
    rounds();
#else
    Gen g(sim_seed(), 41);
    program(g);
#endif
    sim_count("checked.values", nchk);
    end_hila();
    return 0;
}

extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 1041);
    Out o(out, n);
    static const int nrs[] = {1, 2, 2, 3, 4, 4, 4, 5, 6, 7, 8, 8};
    int nr = nrs[g.below(12)];
    int sz[NDIM];
    choose_size(g, nr, g.pct(35), tier ? 1000 : 300, sz);
    o.line("nranks=%d", nr);
    plan_size(o, sz);
#ifdef MEMORY
    o.line("ops=%d", g.in(2, tier ? 24 : 12));
    if (g.pct(20)) {
        o.line("alloc_fail_at=%d", g.pct(50) ? g.in(1, 400) : g.in(1, 6000));
        o.line("alloc_rank=%d", g.below(nr));
    }
#else
    o.line("ops=%d", g.in(4, tier ? 60 : 24));
#endif
    long mask = 0;
    for (int i = 0; i < NOPS; i++)
        if (g.pct(55))
            mask |= 1l << i;
    if (g.pct(30) || !mask)
        mask = (1l << NOPS) - 1;
    o.line("opmask=%ld", mask);
}

#ifdef MEMORY
extern "C" void harness_post(int) {
    char e[8];
    if (sim_get("layout_refused", e, sizeof e) > 0)
        return;
    if (sim_alloc_failed()) {
        int bad = 0;
        for (int r = 0; r < sim_nranks(); r++)
            bad += sim_exit_code(r) != 0;
        if (sim_outcome() != 1 || !bad)
            sim_violation("allocation-ignored", "an allocation failed on a rank, but the job ends with success");
        sim_count("checked.allocation_failures", 1);
    } else if (sim_outcome() != 0) {
        char je[400] = "job ended abnormally";
        sim_get("job_end", je, sizeof je);
        sim_violation("abnormal-end", "%s", je);
    }
}
#endif
