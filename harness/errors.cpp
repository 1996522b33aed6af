// C21: an error on any rank ends the whole job with a failure status; a normal finish ends it with success.
#include "common.h"
#include "plumbing/clusters.h"
#include <stdexcept>
#include <unistd.h>

static Geo geo;
static long nchk;

static const char *kname[] = {"terminate()", "error()", "uninitialised field", "field of another lattice", "failed assertion", "uncaught exception", "exit(1)",
                              "memory exhausted", "input file missing", "field file missing", "(none)", "wrong cluster index", "unbalanced quotes in input",
                              "unblock without parent", "complex-to-real transform of odd size", "write to a full disk", "(none)", "MPI_Abort through abort_communications",
                              "element of an uninitialised field", "copy of an uninitialised field", "random numbers in a loop not seeded", "exit(1) in a function run at exit"};
static const int NK = 22;
// these are run into by all ranks together
static bool collective(int k) {
    return k == 8 || k == 9 || k == 12 || k == 14 || k == 15 || k == 16;
}

template <typename T>
static void upd(Field<T> &f, const Field<T> &g, Direction d) {
    onsites(ALL) f[X] = f[X] * 3 + g[X + d];
}
template <typename T>
static void useit(Field<T> &f, const Field<T> &g) {
    onsites(ALL) f[X] = g[X];
}
static void setone(Field<long> &f) {
    onsites(ALL) f[X] = 1;
}
template <typename T>
static void useodd(Field<T> &f, const Field<T> &g) {
    onsites(ODD) f[X] = g[X];
}
template <typename T>
static T total(const Field<T> &f) {
    T s = 0;
    onsites(ALL) s += f[X];
    return s;
}
static void ranloop(Field<double> &f) {
    onsites(ALL) f[X] = hila::random();
}

static void putfile(const char *name, const std::string &s) {
    if (sim_rank() == 0) {
        sim_faults(0);
        FILE *f = fopen(name, "w");
        if (f) {
            fwrite(s.data(), 1, s.size(), f);
            fclose(f);
        }
        sim_faults(1);
    }
}

static void mark(const char *k, const char *v) {
    sim_put(k, v, strlen(v) + 1);
}

// what an error needs which all ranks must make together
static Field<long> *blocked;
static hila::Clusters *clu;
static void prepare(int k) {
    if (k == 3) {
        CoordinateVector b;
        foralldir(dd) b[dd] = geo.n[dd] % 2 == 0 ? 2 : 1;
        lattice.block(b);
        blocked = new Field<long>;
        setone(*blocked);
        lattice.switch_to_base();
    }
    if (k == 11) {
        Field<uint8_t> t;
        t[ALL] = 1;
        clu = new hila::Clusters;
        clu->find(t);
    }
}

static void err(int k, Gen &g, Field<long> &f, Field<double> &d) {
    switch (k) {
    case 0:
        hila::terminate(g.in(0, 3));
        break;
    case 1:
        hila::error("planted error");
        break;
    case 2: {
        Field<long> u;
        // (a field of which only the other parity has been assigned is not recognised)
        if (g.pct(50))
            useodd(f, u);
        else
            useit(f, u);
        break;
    }
    case 3:
        useit(f, *blocked);
        break;
    case 4:
        assert(g.pct(0) && "planted");
        break;
    case 5:
        throw std::runtime_error("planted");
    case 6:
        exit(1);
    case 7:
        memalloc(~(size_t)0 >> 2);
        break;
    case 8: {
        hila::input p("nosuchfile");
        break;
    }
    case 9:
        d.read("nosuchfield");
        break;
    case 11: {
        auto q = (*clu)[1000000];
        break;
    }
    case 12: {
        hila::input p("badinput");
        std::string s = p.get("name");
        break;
    }
    case 13:
        lattice.unblock();
        break;
    case 14: {
        Field<Complex<double>> c;
        onsites(ALL) c[X] = 1;
        auto r = c.FFT_complex_to_real();
        break;
    }
    case 15:
        d.write("out.dat");
        break;
    case 17:
        hila::abort_communications(g.in(0, 3));
        break;
    case 18: {
        Field<double> u;
        CoordinateVector c;
        foralldir(dd) c[dd] = 0;
        d.set_element(c, u.get_element(c));
        break;
    }
    case 19: {
        Field<double> u;
        Field<double> v = u;
        useit(d, v);
        break;
    }
    case 20:
        ranloop(d);
        break;
    case 21:
        exit(3);
    }
}

extern "C" int harness_main(int argc, char **argv) {
    putfile("badinput", "name \"abc\ndef 3\n");
    int kind = sim_param("kind", -1), at = sim_param("at", 0);
    long mask = sim_param("mask", 0);
    if (kind == 100)
        mark("erring", "command line");
    start_hila(argc, argv, geo);
    if (kind == 100)
        sim_violation("error-ignored", "the program goes on after '%s'", sim_param_s("args", ""));
    Gen g(sim_seed(), 21);
    int me = hila::myrank();
    std::string lines;
    {
        Field<long> f, h;
        Field<double> d;
        f[ALL] = 1;
        h[ALL] = 2;
        d[ALL] = 1;
        int n = sim_param("ops", 5);
        long last = 0;
        for (int i = 0; i <= n; i++) {
            if (i == at)
                prepare(kind);
            if (i == at && kind >= 0 && (collective(kind) || (mask >> me & 1))) {
                mark("erring", kname[kind]);
                char k[20];
                snprintf(k, sizeof k, "erring.%d", me);
                mark(k, "1");
                sim_note("error: %s", kname[kind]);
                err(kind, g, f, d);
                // (whether a random number is checked, or an element access, is up to the library)
                sim_violation("error-ignored", "rank %d goes on after the error: %s", me, kname[kind]);
            }
            if (i == n)
                break;
            int op = g.below(8), a = g.below(100);
            Direction dir = (Direction)g.below(NDIRS);
            switch (op) {
            case 0:
            case 1:
                upd(f, h, dir);
                break;
            case 2:
                last = total(f);
                break;
            case 3:
                hila::broadcast(last, a % hila::number_of_nodes());
                break;
            case 4:
                hila::synchronize();
                break;
            case 5: // a rank which takes its time
                if (me == a % hila::number_of_nodes())
                    usleep(g.pct(50) ? 1000 : 999000);
                else
                    g.pct(50);
                break;
            case 6: {
                CoordinateVector c;
                foralldir(dd) c[dd] = g.below(geo.n[dd]);
                h.set_element(c, (long)a);
                break;
            }
            default: {
                char b[60];
                snprintf(b, sizeof b, "line %d says %d\n", i, a);
                hila::out0 << b;
                lines += b;
            }
            }
            nchk++;
        }
    }
    lines += "last line\n";
    hila::out0 << "last line\n";
    if (me == 0)
        sim_put("lines", lines.c_str(), lines.size() + 1);
    char k[20];
    snprintf(k, sizeof k, "finish.%d", me);
    mark(k, "1");
    if (sim_rank() == 0)
        sim_count("checked.steps", nchk);
    end_hila();
    return 0;
}

extern "C" void harness_post(int) {
    int kind = sim_param("kind", -1), nr = sim_nranks();
    char e[64] = "";
    if (sim_get("layout_refused", e, sizeof e) > 0 && kind != 100)
        return;
    char who[64] = "";
    bool erring = sim_get("erring", who, sizeof who) > 0;
    if (erring) {
        sim_count("errors.ended", 1);
        if (sim_outcome() != 1)
            sim_violation("error-status", "after the error '%s' the job ends with success", who);
        int bad = 0;
        for (int r = 0; r < nr; r++)
            bad += sim_exit_code(r) != 0;
        if (!bad)
            sim_violation("error-status", "after the error '%s' every rank reports success", who);
        return;
    }
    if (kind >= 0)
        sim_violation("abnormal-end", "the job ended (outcome %d) before the planted error", sim_outcome());
    if (sim_outcome() != 0)
        sim_violation("abnormal-end", "a run without errors ended abnormally (outcome %d, code %d)", sim_outcome(), sim_exit_code(0));
    for (int r = 0; r < nr; r++) {
        char k[20];
        snprintf(k, sizeof k, "finish.%d", r);
        if (sim_exit_code(r) != 0 || sim_get(k, e, sizeof e) <= 0)
            sim_violation("finish-status", "rank %d ended with status %d", r, sim_exit_code(r));
    }
    // all output is there, in order
    std::string lines(60000, 0), all;
    long n = sim_get("lines", &lines[0], lines.size());
    lines.resize(n > 0 ? n - 1 : 0);
    if (sim_param("ofile", 0)) {
        FILE *f = fopen("out.txt", "r");
        char b[4096];
        size_t m;
        while (f && (m = fread(b, 1, sizeof b, f)) > 0)
            all.append(b, m);
        if (f)
            fclose(f);
    } else
        all = sim_stdout(0);
    size_t pos = 0, p = 0;
    while (p < lines.size()) {
        size_t q = lines.find('\n', p);
        std::string l = lines.substr(p, q - p + 1);
        size_t x = all.find(l, pos);
        if (x == std::string::npos)
            sim_violation("output-lost", "the line '%s' is missing from the output", l.substr(0, l.size() - 1).c_str());
        pos = x + l.size();
        p = q + 1;
    }
}

extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 2100);
    Out o(out, n);
    static const int nrs[] = {1, 2, 2, 3, 4, 4, 5, 6, 7, 8};
    int nr = nrs[g.below(10)];
    int sz[NDIM];
    int kind = g.pct(12) ? -1 : g.pct(20) ? 100 : g.below(NK);
    if (kind == 16)
        kind = 15;
    if (kind == 10) // (drawing outside a loop is not checked)
        kind = 20;
    choose_size(g, nr, false, 200, sz);
    if (kind == 14)
        sz[g.below(NDIM)] |= 1;
    o.line("nranks=%d", nr);
    plan_size(o, sz);
    int ops = g.in(0, tier ? 30 : 15);
    o.line("ops=%d", ops);
    o.line("kind=%d", kind);
    o.line("at=%d", g.in(0, ops));
    long mask = g.pct(50) ? 1l << g.below(nr) : g.pct(50) ? (1l << nr) - 1 : 1 + g.below((1 << nr) - 1);
    o.line("mask=%ld", mask);
    if (kind >= 0)
        o.line("strict=0");
    if (kind == 15) {
        o.line("io_fail_at=%d", 1 + g.below(2));
        o.line("io_fail_len=1000");
        o.line("io_kind=%s", g.pct(50) ? "enospc" : "eio");
        o.line("io_match=out.dat");
    }
    if (kind == 100) {
        static const char *bad[] = {"-unknown", "-t abc", "-partitions x", "-partitions 0", "-partitions -2", "-o", "-p a", "-t", "stray"};
        int b = g.below(nr > 1 ? 11 : 10);
        if (b < 9)
            o.line("args=%s", bad[b]);
        else if (b == 9)
            o.line("args=-o nosuchdir/out.txt");
        else
            o.line("args=-partitions %d", nr + 1);
    } else if (g.pct(40)) {
        o.line("args=-o out.txt");
        o.line("ofile=1");
    }
}
