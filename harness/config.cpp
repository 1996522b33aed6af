// C07: configuration files: written and read on any rank count and lattice multiple, refused when damaged.
#include "common.h"
#include "plumbing/gaugefield.h"
#include <algorithm>
#ifdef PLAQUETTE // fields of plaquettes have the same files
#include "plumbing/plaquettefield.h"
template <typename T>
using Config = PlaquetteField<T>;
static const int NL = NDIM * NDIM;
#define LINK(U, k) U[(Direction)((k) / NDIM)][(Direction)((k) % NDIM)]
#else
template <typename T>
using Config = GaugeField<T>;
static const int NL = NDIM;
#define LINK(U, k) U[(Direction)(k)]
#endif

static long nchk;
static Geo geo;
static const int64_t FLAG = 394824242;
static const char *tn[] = {"SU<3,double>", "SU<2,float>", "SU<3,float>", "SU<2,double>"};
static const int tsize[] = {144, 32, 72, 64};

template <typename T>
static T val(uint64_t key, long i, int d) {
    typedef hila::arithmetic_type<T> A;
    T t;
    for (int k = 0; k < (int)(sizeof(T) / sizeof(A)); k++)
        ((A *)&t)[k] = (A)((double)(Gen::mix(Gen::mix(key * 77 + i * 16 + d) + k) >> 30) / 1e6 - 8000);
    return t;
}
template <typename T>
static void shiftit(Field<T> &f, const Field<T> &g, Direction d) {
    onsites(ALL) f[X] = g[X + d];
}

static std::string get_raw(const std::string &name, bool &there) {
    sim_faults(0);
    std::string s;
    FILE *f = fopen(name.c_str(), "r");
    there = f != nullptr;
    char b[65536];
    size_t m;
    while (f && (m = fread(b, 1, sizeof b, f)) > 0)
        s.append(b, m);
    if (f)
        fclose(f);
    sim_faults(1);
    return s;
}
static void put_raw(const std::string &name, const std::string &s) {
    sim_faults(0);
    FILE *f = fopen(name.c_str(), "w");
    if (f) {
        fwrite(s.data(), 1, s.size(), f);
        fclose(f);
    }
    sim_faults(1);
}
static int64_t word(const std::string &s, int k) {
    int64_t x;
    memcpy(&x, s.data() + 8 * k, 8);
    return x;
}
static void setword(std::string &s, int k, int64_t x) {
    if (s.size() >= (size_t)8 * k + 8)
        memcpy(&s[8 * k], &x, 8);
}
// is this file a configuration which can be read here?
static const char *why_not(const std::string &s, const Geo &g, int ts) {
    if (s.size() < 8 * (3 + NDIM))
        return "the header is cut";
    if (word(s, 0) != FLAG)
        return "wrong identification";
    if (word(s, 1) != NDIM)
        return "wrong dimension";
    if (word(s, 2) != ts)
        return "wrong element size";
    long vol = 1;
    for (int d = 0; d < NDIM; d++) {
        int64_t x = word(s, 3 + d);
        if (x <= 0 || x > g.n[d] || g.n[d] % x)
            return "the lattice does not fit";
        vol *= x;
    }
    if (s.size() < 8 * (3 + NDIM) + (size_t)vol * NL * ts)
        return "the data is cut";
    return nullptr;
}
template <typename T>
static std::string content(uint64_t key) {
    std::string s((3 + NDIM) * 8, 0);
    setword(s, 0, FLAG);
    setword(s, 1, NDIM);
    setword(s, 2, sizeof(T));
    for (int d = 0; d < NDIM; d++)
        setword(s, 3 + d, geo.n[d]);
    for (int d = 0; d < NL; d++)
        for (long i = 0; i < geo.vol; i++) {
            T t = val<T>(key, i, d);
            s.append((char *)&t, sizeof t);
        }
    return s;
}
static std::string content_of(int type, uint64_t key) {
    switch (type) {
    case 0:
        return content<SU<3, double>>(key);
    case 1:
        return content<SU<2, float>>(key);
    case 2:
        return content<SU<3, float>>(key);
    default:
        return content<SU<2, double>>(key);
    }
}
static std::string cname(int k) {
    return "config" + std::to_string(k);
}

template <typename T>
static void fill(Config<T> &U, uint64_t key) {
    for (int d = 0; d < NL; d++)
        fill_field(geo, LINK(U, d), [&](long i) { return val<T>(key, i, d); });
}
template <typename T>
static void check(const Config<T> &U, const std::string &s, int dir, bool header) {
    int in[NDIM];
    for (int d = 0; d < NDIM; d++)
        in[d] = header ? word(s, 3 + d) : geo.n[d];
    Geo q;
    q.set(in);
    const char *p = s.data() + (header ? 8 * (3 + NDIM) : 0);
    for (int d = 0; d < NL; d++) {
        Field<T> h;
        shiftit(h, LINK(U, d), (Direction)dir);
        for (unsigned k = 0; k < lattice->mynode.volume; k++) {
            long i = geo_idx(geo, lattice->coordinates(k));
            for (int pass = 0; pass < 2; pass++) {
                int c[NDIM];
                geo.coord(pass ? geo.nb(i, dir) : i, c);
                T a = pass ? h.get_value_at(k) : LINK(U, d).get_value_at(k);
                nchk++;
                if (memcmp(&a, p + (d * q.vol + q.idx(c)) * sizeof(T), sizeof(T)))
                    sim_violation("config-read", "link %d at %s differs from the file (%s)", d, cvs(lattice->coordinates(k)).c_str(), pass ? "through a neighbour" : "direct");
            }
        }
    }
}

// damage drawn for one reading
static void damage(Gen &g, std::string &s) {
    int k = g.below(9);
    switch (k) {
    case 0: // cut anywhere
        s.resize(g.below(s.size()));
        break;
    case 1: // cut in the header
        s.resize(g.below(std::min<size_t>(s.size(), 8 * (3 + NDIM) + 2)));
        break;
    case 2: // just short
        s.resize(s.size() - 1 - g.below(std::min<size_t>(s.size() - 1, 9)));
        break;
    case 3:
        setword(s, g.below(3), g.pct(50) ? 0 : g.in(-3, 6));
        break;
    case 4: { // one lattice dimension
        int d = g.below(NDIM);
        int64_t v[] = {0, -1, -(int64_t)geo.n[d], geo.n[d] * 2, geo.n[d] + 1, (int64_t)1 << 32, ((int64_t)1 << 32) + geo.n[d], ((int64_t)1 << 62), 1, geo.n[d] - 1, INT64_MIN, 2147483647, (int64_t)g.in(1, geo.n[d])};
        setword(s, 3 + d, v[g.below(13)]);
        break;
    }
    case 5: // a few bytes change
        for (int i = g.in(1, 4); i > 0; i--)
            s[g.below(std::min<size_t>(s.size(), 80))] ^= 1 << g.below(8);
        break;
    case 6: // bytes are missing or too many in the middle
        if (g.pct(50))
            s.erase(g.below(s.size()), 1 + g.below(8));
        else
            s.insert(g.below(s.size()), std::string(1 + g.below(8), 'y'));
        break;
    case 7:
        s += "more";
        break;
    default: // other end of the words
        for (size_t i = 0; i + 8 <= s.size() && i < 8 * (3 + NDIM); i += 8)
            std::reverse(s.begin() + i, s.begin() + i + 8);
    }
}

template <typename T>
static void dowrite(Gen &g, int type, const std::string &name, uint64_t key, bool config) {
    Config<T> U;
    fill(U, key);
    if (config)
        U.config_write(name);
    else
        U.write(name);
    std::string s = content<T>(key);
    check(U, s, g.below(NDIRS), true);
}
template <typename T>
static void doread(Gen &g, int type, const std::string &name, const std::string &s, const char *bad) {
    Config<T> U;
    int pre = g.below(3), dir = g.below(NDIRS);
    if (pre) {
        fill(U, 99);
        if (pre == 2)
            for (int d = 0; d < NL; d++)
                LINK(U, d).start_gather((Direction)dir, ALL);
    }
    U.config_read(name);
    if (bad)
        sim_violation("damaged-accepted", "a configuration is read as %s although %s", tn[type], bad);
    check(U, s, dir, true);
    sim_count("checked.configs_read", sim_rank() == 0);
}

struct Op {
    bool write;
    int type, file;
    uint64_t key;
    bool config, dam;
};
// (the same on all ranks, and for the observer)
static std::vector<Op> gen_ops(int e) {
    Gen g(sim_seed(), 700 + e);
    std::vector<Op> v;
    int n = sim_param("ops", 4);
    for (int i = 0; i < n; i++) {
        Op o;
        o.write = e == 0 ? i == 0 || g.pct(50) : g.pct(25);
        o.type = g.below(4);
        o.file = g.below(3);
        o.key = sim_seed() * 31 + e * 100 + i;
        o.config = g.pct(85);
        o.dam = g.pct(40);
        v.push_back(o);
    }
    return v;
}

extern "C" int harness_main(int argc, char **argv) {
    start_hila(argc, argv, geo);
    int e = sim_epoch();
    auto ops = gen_ops(e);
    for (int i = 0; i < (int)ops.size(); i++) {
        const Op &o = ops[i];
        Gen g(sim_seed(), 7000 + 100 * e + i);
        std::string name = cname(o.file);
        char k[40];
        snprintf(k, sizeof k, "done.%d.%d", e, i);
        if (o.write) {
            sim_note("op %d: write %s as %s", i, name.c_str(), tn[o.type]);
            if (!o.config)
                name = "plain" + std::to_string(o.file);
            switch (o.type) {
            case 0:
                dowrite<SU<3, double>>(g, o.type, name, o.key, o.config);
                break;
            case 1:
                dowrite<SU<2, float>>(g, o.type, name, o.key, o.config);
                break;
            case 2:
                dowrite<SU<3, float>>(g, o.type, name, o.key, o.config);
                break;
            default:
                dowrite<SU<2, double>>(g, o.type, name, o.key, o.config);
            }
            if (sim_rank() == 0)
                sim_put(k, "1", 2);
            continue;
        }
        // what is there now, as all ranks see it; maybe damaged first
        bool there;
        std::string s = get_raw(name, there);
        int type = o.type;
        if (s.size() >= 24 && g.pct(80))
            for (int t = 0; t < 4; t++)
                if (word(s, 2) == tsize[t])
                    type = t;
        bool dam = there && s.size() > 0 && o.dam && sim_param("damage", 0);
        hila::synchronize();
        if (dam) {
            damage(g, s);
            name = "damaged" + std::to_string(i);
            if (sim_rank() == 0)
                put_raw(name, s);
            hila::synchronize();
        }
        if (!there && !sim_param("damage", 0))
            continue;
        const char *bad = there ? why_not(s, geo, tsize[type]) : "it does not exist";
        if (bad && !sim_param("refuse", 0))
            continue; // (a reading to be refused ends the run)
        if (bad && sim_rank() == 0) {
            char t[12];
            snprintf(t, sizeof t, "bad.%d", e);
            sim_put(t, bad, strlen(bad) + 1);
        }
        sim_note("op %d: read %s as %s: %s", i, name.c_str(), tn[type], bad ? bad : "good");
        switch (type) {
        case 0:
            doread<SU<3, double>>(g, type, name, s, bad);
            break;
        case 1:
            doread<SU<2, float>>(g, type, name, s, bad);
            break;
        case 2:
            doread<SU<3, float>>(g, type, name, s, bad);
            break;
        default:
            doread<SU<2, double>>(g, type, name, s, bad);
        }
        hila::synchronize();
    }
    if (sim_rank() == 0)
        sim_count("checked.links", nchk);
    char k[20];
    snprintf(k, sizeof k, "end.%d", e);
    sim_put(k, "1", 2);
    end_hila();
    return 0;
}

extern "C" void harness_post(int e) {
    int n[NDIM];
    get_size(n);
    geo.set(n);
    if (layout_refused())
        return;
    auto ops = gen_ops(e);
    char b[100], k[40];
    bool fault = sim_param("io_fail_at", -1) >= 0;
    // the last writing of each file
    std::vector<std::string> seen;
    bool last = true;
    for (int i = (int)ops.size() - 1; i >= 0; i--) {
        const Op &o = ops[i];
        if (!o.write)
            continue;
        std::string name = o.config ? cname(o.file) : "plain" + std::to_string(o.file);
        snprintf(k, sizeof k, "done.%d.%d", e, i);
        bool done = sim_get(k, b, sizeof b) > 0;
        if (!done && sim_outcome() == 0)
            sim_violation("abnormal-end", "a configuration was not written");
        bool newer = false;
        for (auto &x : seen)
            newer = newer || x == name;
        // a later write, finished or not, may have changed it (an unfinished one only if the run got there)
        if (!done || newer) {
            if (last)
                seen.push_back(name);
            continue;
        }
        last = true;
        seen.push_back(name);
        bool there;
        std::string s = get_raw(name, there), r = content_of(o.type, o.key);
        if (!o.config)
            r = r.substr(8 * (3 + NDIM));
        if (!there || s != r) {
            size_t q = 0;
            while (q < s.size() && q < r.size() && s[q] == r[q])
                q++;
            sim_violation("config-content", "%s written as %s: %zu bytes instead of %zu, first difference at %zu%s", name.c_str(), tn[o.type], s.size(), r.size(), q,
                          fault ? " (after an injected I/O error)" : "");
        }
        sim_count("checked.configs_written", 1);
    }
    if (sim_outcome() == 2)
        return;
    snprintf(k, sizeof k, "bad.%d", e);
    bool bad = sim_get(k, b, sizeof b) > 0;
    if (bad)
        sim_count("configs_refused", 1);
    if (sim_outcome() == 0) {
        if (bad)
            sim_violation("damaged-accepted", "a configuration was to be refused: %s", b);
        return;
    }
    if (!bad && !fault)
        sim_violation("abnormal-end", "a run without faults ended abnormally (outcome %d, code %d)", sim_outcome(), sim_exit_code(0));
    int f = 0;
    for (int r = 0; r < sim_nranks(); r++)
        f += sim_exit_code(r) != 0;
    if (!f)
        sim_violation("error-status", "after a failed file operation the job ends with success");
}

extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 77);
    Out o(out, n);
    static const int nrs[] = {1, 2, 2, 3, 4, 4, 6, 8};
    int ep = g.pct(70) ? 2 : 3;
    int nr = nrs[g.below(8)], sz[NDIM];
    choose_size(g, nr, true, 200, sz);
    o.line("epochs=%d", ep);
    int cur = nr;
    for (int e = 0; e < ep; e++) {
        // later runs: other rank counts, multiples of the lattice, or another lattice
        if (e > 0 && g.pct(70)) {
            long vol = 1;
            if (g.pct(20)) {
                cur = nrs[g.below(8)];
                choose_size(g, cur, true, 200, sz);
            } else {
                for (int d = 0; d < NDIM; d++)
                    vol *= sz[d];
                for (int d = 0; d < NDIM; d++)
                    if (g.pct(35) && vol < 400) {
                        int m = g.in(2, 3);
                        sz[d] *= m;
                        vol *= m;
                    }
                std::vector<int> div;
                for (int m = 1; m <= 8; m++)
                    if (vol % m == 0)
                        div.push_back(m);
                cur = div[g.below(div.size())];
            }
        }
        std::string s;
        for (int d = 0; d < NDIM; d++)
            s += (d ? "x" : "") + std::to_string(sz[d]);
        if (e == 0) {
            o.line("nranks=%d", cur);
            o.line("size=%s", s.c_str());
        }
        o.line("e%d.nranks=%d", e, cur);
        o.line("e%d.size=%s", e, s.c_str());
    }
    o.line("ops=%d", g.in(2, tier ? 8 : 5));
    int f = g.below(100);
    int fe = g.below(ep);
    if (f < 70) {
        // refusals end a run: make some runs without any
        o.line("strict=0");
        o.line("refuse=1");
        o.line("damage=1");
    }
    if (f >= 50 && f < 85) {
        static const char *kinds[] = {"enospc", "eio", "open", "close", "short", "eintr", "reio", "rshort"};
        if (f >= 70)
            o.line("strict=0");
        o.line("e%d.io_kind=%s", fe, kinds[g.below(8)]);
        o.line("e%d.io_fail_at=%d", fe, 1 + g.below(1 << g.in(1, 5)));
    } else if (f >= 35 && f < 50)
        o.line("e%d.crash_io_at=%d", fe, 1 + g.below(1 << g.in(1, 6)));
    else if (f >= 85 && f < 92)
        o.line("e%d.crash_at=%d", fe, 1 + g.below(3000));
}
