// C18: a job divided into partitions gives, in each partition, what a job of that partition alone gives.
// Epoch 0 is the partitioned job, epoch 1+p is the program of partition p alone.
#include "common.h"
#include <fstream>
#include <sstream>
#include <filesystem>
#include <algorithm>
#include <sys/stat.h>
#include <unistd.h>

#ifndef ELEM
#define ELEM Complex<double>
#endif
typedef ELEM T;
static long nchk;

static double site_val(uint64_t key, long i, int k) {
    return (double)(Gen::mix(Gen::mix(key * 131 + i) + k) >> 34) / 1e6 - 500;
}
static T site(uint64_t key, long i) {
    typedef hila::arithmetic_type<T> A;
    T t;
    for (int k = 0; k < (int)(sizeof(T) / sizeof(A)); k++)
        ((A *)&t)[k] = (A)site_val(key, i, k);
    return t;
}
static void combine(Field<T> &a, const Field<T> &b, const Field<T> &c, Direction d, double x) {
    onsites(ALL) a[X] = x * b[X] + c[X + d];
}
static void combine_par(Field<T> &a, const Field<T> &b, Direction d, Parity p) {
    onsites(p) a[X] += 0.5 * b[X - d];
}
static double norm(const Field<T> &a) {
    double s = 0;
    onsites(ALL) s += squarenorm(a[X]);
    return s;
}
static T total(const Field<T> &a) {
    T s = 0;
    onsites(ALL) s += a[X];
    return s;
}
static double slow(const Field<T> &a, int rounds) {
    double s = 0;
    for (int i = 0; i < rounds; i++)
        s += norm(a);
    return s;
}
static void slices(const Field<T> &a, ReductionVector<double> &v, Direction d) {
    onsites(ALL) v[X.coordinate(d)] += squarenorm(a[X]);
}
static void toreal(Field<double> &r, const Field<T> &a) {
    onsites(ALL) r[X] = squarenorm(a[X]);
}
static void rndfill(Field<double> &r) {
    onsites(ALL) r[X] = hila::random();
}

static bool canblock2(const Geo &) {
    CoordinateVector v;
    foralldir(d) v[d] = 2;
    return lattice.can_block(v);
}
static int NP, R, MY; // partitions, ranks of each, mine
static bool part;     // is this the partitioned job?

static std::string pdir(int p) {
    return std::string(sim_param_s("dirname", "partition")) + std::to_string(p);
}
// a result of operation i: recorded by the partitioned job, compared by the job alone
static void result(int i, const char *what, const void *d, size_t n, bool exact, const double *x = nullptr, int nx = 0, double scale = 1) {
    char key[120];
    snprintf(key, sizeof key, "v.%d.%d.%s", MY, i, what);
    if (sim_rank() % R != 0)
        return;
    if (part) {
        sim_put(key, d, n);
        return;
    }
    std::vector<char> b(n + 8);
    long m = sim_get(key, b.data(), b.size());
    if (m < 0)
        return; // the partitioned job was ended before
    nchk++;
    if (m != (long)n)
        sim_violation("partition-result", "%s of operation %d of partition %d has %ld bytes in the partitioned job and %zu alone", what, i, MY, m, n);
    if (exact) {
        if (memcmp(b.data(), d, n))
            sim_violation("partition-result", "%s of operation %d of partition %d differs between the partitioned job and the partition alone", what, i, MY);
    } else {
        const double *y = (const double *)b.data();
        for (int k = 0; k < nx; k++) {
            double tol = 1e-11 * (fabs(x[k]) + fabs(y[k]) + scale);
            if (sizeof(hila::arithmetic_type<T>) == 4)
                tol *= 1e5;
            if (!(fabs(x[k] - y[k]) <= tol))
                sim_violation("partition-result", "%s of operation %d of partition %d (entry %d) is %.17g in the partitioned job and %.17g alone", what, i, MY, k, y[k], x[k]);
        }
    }
}
static void numbers(int i, const char *what, const std::vector<double> &v, double scale = 1) {
    result(i, what, v.data(), v.size() * sizeof(double), false, v.data(), (int)v.size(), scale);
}
static void agree(const char *what, int i, double x) {
    char key[120];
    snprintf(key, sizeof key, "p%d.%s.%d", MY, what, i);
    sim_agree(key, &x, sizeof x);
}
static void fieldresult(int i, const char *what, const Field<T> &f) {
    // own sites, in the order of the global index, collected over the ranks by the recorder
    char key[120];
    uint64_t h = 0;
    for (unsigned k = 0; k < lattice->mynode.volume; k++) {
        T t = f.get_value_at(k);
        uint64_t s = 1469598103934665603ull;
        for (size_t b = 0; b < sizeof(T); b++)
            s = (s ^ ((unsigned char *)&t)[b]) * 1099511628211ull;
        Geo g;
        int n[NDIM];
        foralldir(d) n[d] = lattice.size(d);
        g.set(n);
        h += Gen::mix(s + Gen::mix(geo_idx(g, lattice->coordinates(k))));
    }
    snprintf(key, sizeof key, "f.%d.%d.%s.%d", MY, i, what, hila::myrank());
    if (part)
        sim_put(key, &h, sizeof h);
    else {
        uint64_t o;
        if (sim_get(key, &o, sizeof o) != sizeof o)
            return;
        nchk++;
        if (o != h)
            sim_violation("partition-result", "the %s after operation %d on rank %d of partition %d differs between the partitioned job and the partition alone", what, i, hila::myrank(), MY);
    }
}
static void write_file(const std::string &name, const std::string &s) {
    std::ofstream o(name);
    o << s;
}
static std::string slurp(const std::string &name) {
    std::ifstream f(name, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

extern "C" int harness_main(int argc, char **argv) {
    NP = sim_param("parts", 2);
    R = sim_param("R", 1);
    part = sim_epoch() == 0;
    std::string inname = sim_param("inopt", 0) ? "alt.in" : "params";
    bool bad = sim_param("bad", 0);
    long where = sim_param("where", 0); // bit p: partition p has an input file of its own
    sim_faults(0);
    if (part) {
        if (sim_rank() == 0) {
            write_file(inname, "progseed 4711\nextra 3\nsize 1\nnames alpha, beta\n");
            for (int p = 0; p < NP; p++)
                if (sim_param("predirs", 0) >> p & 1) {
                    mkdir(pdir(p).c_str(), 0755);
                    if (where >> p & 1)
                        write_file(pdir(p) + "/" + inname, "progseed " + std::to_string(100 + p) + "\nextra 3\nsize 2\nnames gamma, delta\n");
                }
        }
    } else {
        MY = sim_epoch() - 1;
        std::string d = "alone" + std::to_string(MY);
        if (sim_rank() == 0) {
            mkdir(d.c_str(), 0755);
            bool own = (sim_param("predirs", 0) & where) >> MY & 1;
            write_file(d + "/" + inname, own ? "progseed " + std::to_string(100 + MY) + "\nextra 3\nsize 2\nnames gamma, delta\n" : std::string("progseed 4711\nextra 3\nsize 1\nnames alpha, beta\n"));
        }
        // the directory exists before any rank uses it: all ranks meet in hila::initialize before that
        mkdir(d.c_str(), 0755);
        if (chdir(d.c_str()))
            sim_violation("harness", "chdir");
    }
    sim_faults(1);

    hila::initialize(argc, argv);
    if (bad)
        sim_violation("bad-partitions-accepted", "a job of %d ranks was divided into %d partitions", sim_nranks(), NP);
    if (part) {
        MY = hila::partitions.mylattice();
        if (hila::partitions.number() != NP || MY < 0 || MY >= NP)
            sim_violation("partition-number", "rank %d: %d partitions, this is %d", sim_rank(), (int)hila::partitions.number(), MY);
        if (hila::number_of_nodes() != R || hila::myrank() < 0 || hila::myrank() >= R)
            sim_violation("partition-ranks", "rank %d is rank %d of %d of its partition, not of %d", sim_rank(), hila::myrank(), hila::number_of_nodes(), R);
        char b[40];
        snprintf(b, sizeof b, "member.%d.%d", MY, hila::myrank());
        char one = 1;
        if (sim_get(b, &one, 1) > 0)
            sim_violation("partition-ranks", "two ranks are rank %d of partition %d", hila::myrank(), MY);
        sim_put(b, &one, 1);
        sim_group(MY);
    }
    long cross0 = sim_crossings();
    int syncs = 0;

    hila::input in(inname);
    long progseed = in.get("progseed");
    long extra = in.get("extra");
    long szkind = in.get("size");
    std::vector<std::string> names = in.get("names");
    in.close();
    bool own = (sim_param("predirs", 0) & where) >> MY & 1;
    long wantseed = own ? 100 + MY : 4711;
    // (with an unreadable file of its own a partition may take the common one)
    if (sim_param("io_fail_at", -1) < 0)
    if (progseed != wantseed || extra != sim_param("extra", 3) || szkind != (own ? 2 : 1) || names.size() != 2 || names[0] != (own ? "gamma" : "alpha") || names[1] != (own ? "delta" : "beta"))
        sim_violation("partition-input", "partition %d reads progseed %ld, extra %ld, names %s", MY, progseed, extra, names.size() ? names[0].c_str() : "-");
    char sk[20];
    snprintf(sk, sizeof sk, "size%d", MY);
    int n[NDIM];
    const char *sp = sim_param_s(sk, "4x4x4x4");
    for (int d = 0; d < NDIM; d++) {
        n[d] = (int)strtol(sp, (char **)&sp, 10);
        if (*sp == 'x')
            sp++;
    }
    Geo geo;
    geo.set(n);
    lattice.setup(size_cv(n));
    char ep = '1' + sim_epoch();
    sim_put("setup_done", &ep, 1);
    hila::seed_random(sim_param("rseed", 12345));
    {
        // random streams of all ranks of all partitions are different
        double r0[2] = {hila::random(), hila::random()};
        if (part) {
            char b[40];
            for (int q = 0; q < sim_nranks(); q++) {
                double o[2];
                snprintf(b, sizeof b, "rnd.%d", q);
                if (q != sim_rank() && sim_get(b, o, sizeof o) == sizeof o && (o[0] == r0[0] || o[1] == r0[1] || o[1] == r0[0] || o[0] == r0[1]))
                    sim_violation("partition-seed", "world ranks %d and %d draw the same random numbers", q, sim_rank());
            }
            snprintf(b, sizeof b, "rnd.%d", sim_rank());
            sim_put(b, r0, sizeof r0);
        } else if (MY == 0)
            result(-1, "random", r0, sizeof r0, true);
    }

    Gen gs(sim_seed(), 1801);             // the same in all partitions
    Gen g(sim_seed(), 1900 + MY + 17 * 0); // of this partition
    std::vector<Field<T>> f(4);
    uint64_t key = g.next();
    for (auto &x : f) {
        key++;
        fill_field(geo, x, [&](long i) { return site(key, i); });
    }
    int nops = sim_param("ops", 6);
    std::vector<std::string> files;
    std::string outref;
    Geo top = geo;
    bool blocked = false;
    for (int i = 0; i < nops; i++) {
        bool sync = gs.pct(8);
        if (sync) {
            char b[60], one = 1;
            snprintf(b, sizeof b, "sync.%d.%d", sim_rank(), syncs);
            sim_put(b, &one, 1);
            hila::synchronize_partitions();
            if (part)
                for (int q = 0; q < sim_nranks(); q++) {
                    snprintf(b, sizeof b, "sync.%d.%d", q, syncs);
                    if (sim_get(b, &one, 1) <= 0)
                        sim_violation("partition-sync", "rank %d left synchronize_partitions() number %d before rank %d entered it", sim_rank(), syncs, q);
                }
            syncs++;
        }
        int op = g.below(15), a = g.below(4), b = g.below(4), c = g.below(4);
        Direction dir = Direction(g.below(NDIM));
        int rnk = g.below(R);
        uint64_t k = g.next();
        sim_note("partition %d op %d: %d", MY, i, op);
        switch (op) {
        case 0:
            fill_field(geo, f[a], [&](long s) { return site(k, s); });
            break;
        case 1:
            if (a == b || a == c)
                a = 4 - 1 - b == b ? (b + 1) % 4 : 3 - b;
            if (a == c)
                c = b;
            combine(f[a], f[b], f[c], dir, 0.25);
            fieldresult(i, "field", f[a]);
            break;
        case 2:
            if (a == b)
                b = (a + 1) % 4;
            if (geo.alleven)
                combine_par(f[a], f[b], dir, (k & 1) ? EVEN : ODD);
            else
                combine_par(f[a], f[b], dir, ALL);
            fieldresult(i, "field", f[a]);
            break;
        case 3: {
            double s = norm(f[a]);
            agree("norm", i, s);
            numbers(i, "norm", {s});
            T t = total(f[b]);
            std::vector<double> v;
            for (size_t q = 0; q < sizeof(T) / sizeof(hila::arithmetic_type<T>); q++)
                v.push_back(((hila::arithmetic_type<T> *)&t)[q]);
            numbers(i, "sum", v, 1 + sqrt(norm(f[b]) * geo.vol));
            break;
        }
        case 4: {
            if (blocked)
                break;
            std::string nm = "f" + std::to_string(i) + ".dat";
            f[a].write(nm, k & 1);
            // the write has returned: the file is complete from here on
            if (part && hila::myrank() == 0) {
                std::string w = "file." + std::to_string(MY) + "." + nm;
                sim_put(w.c_str(), "1", 1);
            }
            if (k & 1)
                files.push_back(nm);
            break;
        }
        case 5:
            if (blocked || files.empty())
                break;
            f[a].read(files[k % files.size()]);
            fieldresult(i, "field read", f[a]);
            break;
        case 6: {
            double x = hila::myrank() == rnk ? site_val(k, 5, 0) : -1;
            hila::broadcast(x, rnk);
            if (x != site_val(k, 5, 0))
                sim_violation("partition-broadcast", "partition %d: broadcast from rank %d gives %g on rank %d", MY, rnk, x, hila::myrank());
            std::string s = hila::myrank() == rnk ? "str" + std::to_string(k) : "?";
            hila::broadcast(s, rnk);
            if (s != "str" + std::to_string(k))
                sim_violation("partition-broadcast", "partition %d: broadcast from rank %d gives '%s' on rank %d", MY, rnk, s.c_str(), hila::myrank());
            nchk++;
            break;
        }
        case 7: {
            double x = site_val(k, 3, 1);
            agree("out", i, x);
            hila::out0.flush();
            hila::out0 << "OUT " << i << ' ' << x << " of rank 0" << std::endl;
            break;
        }
        case 8: {
            ReductionVector<double> v(lattice.size(dir), 0.0);
            slices(f[a], v, dir);
            std::vector<double> w(v.vector());
            numbers(i, "slice sums", w);
            break;
        }
        case 9: {
            Field<double> r;
            toreal(r, f[a]);
            CoordinateVector x, y;
            std::vector<double> w = {r.max(x), r.min(y)};
            foralldir(d) {
                w.push_back(x[d]);
                w.push_back(y[d]);
            }
            agree("max", i, w[0]);
            numbers(i, "extrema", w);
            break;
        }
        case 10: {
            CoordinateVector x = geo_cv(geo, k % geo.vol);
            T t = site(k, 8);
            f[a].set_element(x, t);
            T u = f[a].get_element(x);
            agree("element", i, ((hila::arithmetic_type<T> *)&u)[0]);
            if (memcmp(&t, &u, sizeof t))
                sim_violation("partition-element", "partition %d: element %s of operation %d is not what was set", MY, cvs(x).c_str(), i);
            nchk++;
            break;
        }
        case 11:
            if (R > 1) {
                int to = (rnk + 1 + k % (R - 1)) % R;
                if (hila::myrank() == rnk) {
                    hila::send_to(to, (double)site_val(k, 1, 1));
                } else if (hila::myrank() == to) {
                    double x;
                    hila::receive_from(rnk, x);
                    if (x != site_val(k, 1, 1))
                        sim_violation("partition-message", "partition %d: rank %d received %g from rank %d", MY, to, x, rnk);
                    nchk++;
                }
            }
            break;
        case 12: {
            Field<T> r = f[b].FFT();
            numbers(i, "FFT", {norm(r)});
            T t = r.get_element(geo_cv(geo, k % geo.vol));
            numbers(i, "FFT element", {(double)((hila::arithmetic_type<T> *)&t)[0]}, 1 + sqrt(norm(f[b]) * geo.vol));
            break;
        }
        case 13:
            if (sim_param("block", 0) && !blocked && canblock2(top)) {
                lattice.block(2);
                int m[NDIM];
                foralldir(d) m[d] = top.n[d] / 2;
                geo.set(m);
                f = std::vector<Field<T>>(4);
                for (auto &x : f) {
                    k++;
                    fill_field(geo, x, [&](long s) { return site(k, s); });
                }
                blocked = true;
            }
            break;
        case 14:
            // one partition takes much longer
            numbers(i, "long sum", {slow(f[a], 1 + k % 12)});
            if (k & 64)
                hila::out << "RNK " << MY << ' ' << hila::myrank() << ' ' << i << std::endl;
            break;
        }
        sim_count("ops.done", 1);
    }
    for (int a = 0; a < 4; a++)
        fieldresult(1000 + a, "field", f[a]);
    if (part) {
        long n = sim_crossings() - cross0;
        if (n > syncs)
            sim_violation("partition-crossing", "rank %d of partition %d took part in %ld operations with other partitions, %d were asked for", hila::myrank(), MY, n - syncs, syncs);
        nchk++;
    }
    sim_count("checked", nchk);
    if (hila::myrank() == 0) {
        char b[40];
        snprintf(b, sizeof b, "done.%d.%d", (int)part, MY);
        sim_put(b, "1", 1);
    }
    end_hila();
    return 0;
}

// lines with a given start, wherever in the text
static std::vector<std::string> lines(const std::string &t, const char *start, bool sorted) {
    std::vector<std::string> v;
    size_t k = 0;
    while ((k = t.find(start, k)) != std::string::npos) {
        size_t e = t.find('\n', k);
        if (e == std::string::npos)
            break;
        v.push_back(t.substr(k, e - k));
        k = e;
    }
    if (sorted)
        std::sort(v.begin(), v.end());
    return v;
}

extern "C" void harness_post(int e) {
    namespace fs = std::filesystem;
    std::string base = std::string(sim_dir()) + "/";
    NP = sim_param("parts", 2);
    bool fault = sim_param("e0.io_fail_at", -1) >= 0 || sim_param("e0.crash_at", -1) >= 0 || sim_param("e0.crash_io_at", -1) >= 0;
    if (layout_refused() && !sim_param("bad", 0))
        return;
    if (e == 0) {
        if (sim_param("bad", 0)) {
            if (sim_outcome() != 1)
                sim_violation("bad-partitions-accepted", "an impossible number of partitions ends with outcome %d", sim_outcome());
            return;
        }
        if (sim_outcome() != 0 && sim_outcome() != 3 && !fault)
            sim_violation("abnormal-end", "the partitioned job ended abnormally without a fault (outcome %d)", sim_outcome());
        // no partition wrote outside its directory
        std::string inname = sim_param("inopt", 0) ? "alt.in" : "params";
        for (auto &x : fs::directory_iterator(base)) {
            std::string nm = x.path().filename().string();
            bool ok = nm == inname;
            for (int p = 0; p < NP; p++)
                ok |= nm == pdir(p);
            if (!ok)
                sim_violation("partition-files", "the partitioned job left %s outside the directories of the partitions", nm.c_str());
        }
        return;
    }
    int p = e - 1;
    if (sim_param("bad", 0))
        return;
    if (sim_outcome() != 0 && sim_outcome() != 3)
        sim_violation("abnormal-end", "partition %d alone ended abnormally (outcome %d)", p, sim_outcome());
    char b[80], one;
    snprintf(b, sizeof b, "done.0.%d", p);
    if (sim_get(b, &one, 1) <= 0)
        sim_violation("no-end", "partition %d alone did not come to its end", p);
    snprintf(b, sizeof b, "done.1.%d", p);
    bool fin = sim_get(b, &one, 1) > 0;
    if (!fault && !fin)
        sim_violation("no-end", "partition %d did not come to its end", p);
    std::string da = base + "alone" + std::to_string(p), dp = base + pdir(p);
    std::string oname = sim_param_s("oname", "");
    std::string inname = sim_param("inopt", 0) ? "alt.in" : "params";
    for (auto &x : fs::directory_iterator(da)) {
        std::string nm = x.path().filename().string();
        if (nm == inname || nm == "aloneout" || (oname.size() && nm == oname))
            continue;
        std::string w = "file." + std::to_string(p) + "." + nm;
        if (!fin && sim_get(w.c_str(), &one, 1) <= 0)
            continue; // not yet written when the job was ended
        if (!fs::exists(dp + "/" + nm))
            sim_violation("partition-files", "partition %d has no file %s", p, nm.c_str());
        if (slurp(da + "/" + nm) != slurp(dp + "/" + nm))
            sim_violation("partition-files", "file %s of partition %d differs from that of the partition alone", nm.c_str(), p);
        sim_count("checked.files", 1);
    }
    if (fin && fs::exists(dp))
        for (auto &x : fs::directory_iterator(dp)) {
            std::string nm = x.path().filename().string();
            if (nm != inname && nm != (oname.size() ? oname : "output") && !fs::exists(da + "/" + nm))
                sim_violation("partition-files", "partition %d has a file %s which the partition alone does not write", p, nm.c_str());
        }
    // the output
    if (fin && !fault) {
        std::string of = dp + "/" + (oname.size() ? oname : std::string("output"));
        std::string alone = slurp(da + "/aloneout");
        if (!fs::exists(of))
            sim_violation("partition-output", "partition %d has no output file", p);
        auto u = lines(slurp(of), "OUT ", false), v = lines(alone, "OUT ", false);
        if (u != v)
            sim_violation("partition-output", "the output of partition %d has %zu result lines, alone %zu, or they differ", p, u.size(), v.size());
        if (lines(slurp(of), "Finishing", false).size() < 1)
            sim_violation("partition-output", "the output of partition %d does not end with the end of the run", p);
        sim_count("checked.output", u.size() + 1);
    }
}

extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 1800);
    Out o(out, n);
    int R = g.in(1, 4), P = g.in(2, 4);
    while (R * P > 8) {
        R = g.in(1, 4);
        P = g.in(2, 4);
    }
    bool bad = g.pct(3);
    int nr = R * P;
    if (bad) {
        static const int bd[][2] = {{3, 2}, {5, 2}, {4, 3}, {8, 3}, {6, 4}, {1, 2}, {2, 4}, {4, 0}};
        int k = g.below(8);
        nr = bd[k][0];
        P = bd[k][1];
    }
    o.line("epochs=%d", bad ? 1 : P + 1);
    o.line("parts=%d", P);
    o.line("R=%d", R);
    o.line("nranks=%d", R);
    o.line("e0.nranks=%d", nr);
    o.line("bad=%d", bad ? 1 : 0);
    for (int p = 0; p < P; p++) {
        int sz[NDIM];
        do {
            for (int d = 0; d < NDIM; d++)
                sz[d] = 2 * g.in(1, 2);
            int m = R;
            for (int f = 2; m > 1; f++)
                while (m % f == 0) {
                    sz[g.below(NDIM)] *= f;
                    m /= f;
                }
            long v = 1;
            for (int d = 0; d < NDIM; d++)
                v *= sz[d];
            if (v <= 400)
                break;
        } while (true);
        std::string s;
        for (int d = 0; d < NDIM; d++)
            s += (d ? "x" : "") + std::to_string(sz[d]);
        o.line("size%d=%s", p, s.c_str());
    }
    std::string extra, dir = "partition", oname;
    if (g.pct(30)) {
        dir = "run_";
    }
    if (g.pct(30)) {
        oname = "out.txt";
    }
    bool inopt = g.pct(30), ex = g.pct(30);
    std::string rest;
    if (inopt)
        rest += " -i alt.in";
    if (ex)
        rest += " -p extra 17";
    o.line("dirname=%s", dir.c_str());
    o.line("oname=%s", oname.c_str());
    o.line("inopt=%d", inopt ? 1 : 0);
    o.line("extra=%d", ex ? 17 : 3);
    o.line("e0.args=%s-partitions %d%s%s%s", g.pct(20) ? "-t 10:00:00 " : "", P, dir == "partition" ? "" : (" " + dir).c_str(), oname.size() ? (" -o " + oname).c_str() : "", rest.c_str());
    o.line("args=-o aloneout%s", rest.c_str());
    o.line("predirs=%d", g.below(16));
    o.line("where=%d", g.below(16));
    o.line("rseed=%ld", g.pct(50) ? (long)(g.next() >> 20) : (long)g.in(1, 5) + ((long)g.below(8) << 28) * g.below(2));
    o.line("ops=%d", g.in(3, tier ? 24 : 12));
    o.line("block=%d", g.pct(30) ? 1 : 0);
    int f = g.below(100);
    if (bad) {
        o.line("strict=0");
        return;
    }
    if (f < 36)
        o.line("strict=0");
    if (f < 12)
        o.line("e0.crash_at=%d", 1 + g.below(6000));
    else if (f < 22) {
        o.line("e0.crash_io_at=%d", 1 + g.below(120));
    } else if (f < 36) {
        static const char *kinds[] = {"enospc", "eio", "open", "close", "eintr", "short", "mkdir"};
        o.line("e0.io_kind=%s", kinds[g.below(7)]);
        o.line("e0.io_fail_at=%d", 1 + g.below(60));
        o.line("e0.io_fail_len=%d", g.pct(50) ? 1 : 1 + g.below(40));
        if (g.pct(70))
            o.line("e0.io_match=%s%d/", dir.c_str(), g.below(P));
    }
}
