// C06: field files are complete and portable between rank counts; I/O errors and short files end the program.
#include "common.h"
#include <sstream>
#include <fstream>

static long nchk;

template <typename T>
struct Nm;
#define NM(t, s)                                                                                                                                                                                       \
    template <>                                                                                                                                                                                        \
    struct Nm<t> {                                                                                                                                                                                     \
        static const char *n() { return s; }                                                                                                                                                           \
    };
NM(int, "int")
NM(long, "long")
NM(float, "float")
NM(double, "double")
typedef Complex<double> CD;
typedef Complex<float> CF;
typedef Vector<3, double> V3;
typedef Matrix<2, 2, Complex<float>> M2;
NM(CD, "Complex<double>")
NM(CF, "Complex<float>")
NM(V3, "Vector<3,double>")
NM(M2, "Matrix<2,2,Complex<float>>")

// the value stored at site i under a key
template <typename T>
static T val(uint64_t key, long i) {
    typedef hila::arithmetic_type<T> A;
    T t;
    for (int k = 0; k < (int)(sizeof(T) / sizeof(A)); k++) {
        uint64_t r = Gen::mix(Gen::mix(key * 77 + i) + k);
        A a;
        if constexpr (std::is_integral<A>::value)
            a = (A)(r >> 40) - 4000000;
        else
            a = (A)((double)(r >> 30) / 1e6 - 8000);
        ((A *)&t)[k] = a;
    }
    return t;
}
template <typename T>
static void copyit(Field<T> &f, const Field<T> &g) {
    onsites(ALL) f[X] = g[X];
}
template <typename T>
static void shiftit(Field<T> &f, const Field<T> &g, Direction d) {
    onsites(ALL) f[X] = g[X + d];
}

// what a file must contain, one item after the other
struct Item {
    int what; // 0 whole binary, 1 whole text, 2 subvolume text, 3 subvolume binary
    uint64_t key;
    int prec, tofloat;
    int cmin[NDIM], cmax[NDIM];
};
struct Op {
    int kind, type;
    bool blk;
    std::vector<Item> items;
    bool slice, stream;
    long ref;   // the file which is read (index of an op, in this or an earlier epoch)
    int refep;
    int mult[NDIM];
    int pre;    // state of the field before the read: 0 unallocated, 1 assigned, 2 with a gather under way
    int cut;    // per mille of the file which remains, -1 all
    int dir;
};
enum { WRITE, READ, READSTREAM, READSIZE, NKIND };

static void blocking(const Geo &g, int *b) {
    for (int d = 0; d < NDIM; d++)
        b[d] = g.n[d] % 2 == 0 ? 2 : 1;
}
static Geo geo, bgeo;

// all ranks, the observer and later epochs know the operations of each epoch
static std::vector<std::vector<Op>> gen_ops(int epochs) {
    std::vector<std::vector<Op>> all;
    bool fault = sim_param("damage", 0);
    for (int e = 0; e < epochs; e++) {
        Gen g(sim_seed(), 600 + e);
        std::vector<Op> v;
        int n = sim_param("ops", 4);
        for (int i = 0; i < n; i++) {
            Op o;
            o.kind = WRITE;
            o.type = g.below(8);
            o.blk = sim_param("blocks", 0) && g.pct(25);
            o.slice = g.pct(50);
            o.stream = g.pct(40);
            o.pre = g.below(3);
            o.dir = g.below(NDIRS);
            o.cut = -1;
            o.ref = -1;
            o.refep = 0;
            const Geo &q = o.blk ? bgeo : geo;
            // candidates for reading: files with whole binary fields of this shape
            std::vector<std::pair<int, int>> cand;
            for (int a = 0; a <= e; a++)
                for (int j = 0; j < (int)(a < e ? all[a].size() : v.size()); j++) {
                    const Op &w = a < e ? all[a][j] : v[j];
                    if (w.kind == WRITE && w.blk == o.blk) {
                        bool ok = true;
                        for (auto &it : w.items)
                            if (it.what != 0)
                                ok = false;
                        if (ok)
                            cand.push_back({a, j});
                    }
                }
            int c = g.below(100), pick = g.below(1000);
            bool cutit = g.pct(60);
            int cut = g.below(1000);
            if (c < 45 && !cand.empty()) {
                auto [a, j] = cand[pick % cand.size()];
                const Op &w = a < e ? all[a][j] : v[j];
                o.kind = g.pct(50) ? READ : READSTREAM;
                o.ref = j;
                o.refep = a;
                o.type = w.type;
                o.items = w.items;
                if (o.kind == READ && g.pct(30))
                    o.items.resize(1); // only the first field is read
                if (fault && cutit && e == epochs - 1)
                    o.cut = cut;
            } else if (c < 55) {
                o.kind = READSIZE;
                for (int d = 0; d < NDIM; d++) {
                    std::vector<int> div;
                    for (int m = 1; m <= q.n[d]; m++)
                        if (q.n[d] % m == 0)
                            div.push_back(m);
                    o.mult[d] = div[g.below(div.size())];
                }
                Item it;
                it.what = 0;
                it.key = sim_seed() * 131 + e * 1000 + i * 10 + 7;
                o.items.push_back(it);
                if (fault && cutit)
                    o.cut = cut;
            } else {
                int k = o.stream ? g.in(1, 3) : g.pct(30) ? g.in(2, 3) : 1;
                for (int m = 0; m < k; m++) {
                    Item it;
                    it.what = k > 1 && !o.stream ? 0 : g.pct(50) ? 0 : 1 + g.below(3);
                    it.key = sim_seed() * 131 + e * 1000 + i * 10 + m;
                    it.prec = g.in(1, 17);
                    it.tofloat = g.pct(50);
                    for (int d = 0; d < NDIM; d++) {
                        it.cmin[d] = g.below(q.n[d]);
                        it.cmax[d] = o.slice ? it.cmin[d] : g.in(it.cmin[d], q.n[d] - 1);
                        if (o.slice && g.pct(50)) {
                            it.cmin[d] = 0;
                            it.cmax[d] = q.n[d] - 1;
                        }
                    }
                    o.items.push_back(it);
                }
            }
            v.push_back(o);
        }
        all.push_back(v);
    }
    return all;
}
static std::string fname(int e, int i) {
    return "f" + std::to_string(e) + "_" + std::to_string(i) + ".dat";
}

// the reference file
template <typename T>
static std::string content(const Op &o) {
    typedef hila::arithmetic_type<T> A;
    const int na = sizeof(T) / sizeof(A);
    const Geo &q = o.blk ? bgeo : geo;
    std::string r;
    for (auto &it : o.items) {
        std::ostringstream os;
        for (long i = 0; i < q.vol; i++) {
            T t = val<T>(it.key, i);
            if (it.what >= 2) {
                int c[NDIM];
                q.coord(i, c);
                bool in = true;
                for (int d = 0; d < NDIM; d++)
                    in = in && c[d] >= it.cmin[d] && c[d] <= it.cmax[d];
                if (!in)
                    continue;
            }
            if (it.what == 0)
                os.write((char *)&t, sizeof t);
            else if (it.what == 1) {
                os.precision(it.prec);
                os << t << '\n';
            } else if (it.what == 2) {
                os.precision(it.prec);
                for (int k = 0; k < na; k++)
                    os << ((A *)&t)[k] << ' ';
                os << '\n';
            } else
                for (int k = 0; k < na; k++) {
                    if (it.tofloat) {
                        float f = ((A *)&t)[k];
                        os.write((char *)&f, sizeof f);
                    } else
                        os.write((char *)&((A *)&t)[k], sizeof(A));
                }
        }
        r += os.str();
    }
    return r;
}
static std::string content_of(const Op &o) {
    switch (o.type) {
    case 0:
        return content<int>(o);
    case 1:
        return content<long>(o);
    case 2:
        return content<float>(o);
    case 3:
        return content<double>(o);
    case 4:
        return content<CD>(o);
    case 5:
        return content<CF>(o);
    case 6:
        return content<V3>(o);
    default:
        return content<M2>(o);
    }
}

static void put_raw(const std::string &name, const std::string &s) {
    if (sim_rank() == 0) {
        sim_faults(0);
        FILE *f = fopen(name.c_str(), "w");
        if (f) {
            fwrite(s.data(), 1, s.size(), f);
            fclose(f);
        }
        sim_faults(1);
    }
    hila::synchronize();
}
static std::string get_raw(const std::string &name, bool &there) {
    std::string s;
    FILE *f = fopen(name.c_str(), "r");
    there = f != nullptr;
    char b[65536];
    size_t m;
    while (f && (m = fread(b, 1, sizeof b, f)) > 0)
        s.append(b, m);
    if (f)
        fclose(f);
    return s;
}
static void fill_raw(const Op &o, std::string &s, int *in) {
    // a file with the contents of a smaller lattice
    const Geo &q = o.blk ? bgeo : geo;
    for (int d = 0; d < NDIM; d++)
        in[d] = q.n[d] / o.mult[d];
    Geo small;
    small.set(in);
    (void)s;
}

// files belong to the lattice of the field, whichever is active
struct Elsewhere {
    lattice_struct *was;
    Elsewhere(const Op &o, bool alloc) : was(nullptr) {
        if (o.blk && alloc && o.items[0].key % 3 == 0) {
            was = lattice.ptr();
            lattice.switch_to_base();
        }
    }
    ~Elsewhere() {
        if (was)
            lattice.switch_to(was);
    }
};

template <typename T>
struct Run {
    Field<T> f[3], h;
    void fill(const Geo &q, Field<T> &x, uint64_t key) {
        fill_field(q, x, [&](long i) { return val<T>(key, i); });
    }
    template <typename F>
    void check(const Geo &q, const Field<T> &x, int dir, F ref, const char *what) {
        for (int pass = 0; pass < 2; pass++) {
            if (pass == 1)
                shiftit(h, x, (Direction)dir);
            else
                copyit(h, x);
            for (unsigned s = 0; s < lattice->mynode.volume; s++) {
                long i = geo_idx(q, lattice->coordinates(s));
                T a = h.get_value_at(s), b = ref(pass ? q.nb(i, dir) : i);
                nchk++;
                if (memcmp(&a, &b, sizeof(T)))
                    sim_violation("field-read", "%s of Field<%s>: wrong value at site %s (%s)", what, Nm<T>::n(), cvs(lattice->coordinates(s)).c_str(), pass ? "through a neighbour" : "direct");
            }
        }
    }
    void prepare(const Geo &q, const Op &o, Field<T> &x, int k) {
        if (o.pre == 0)
            return;
        fill(q, x, 12345 + k);
        if (o.pre == 2) {
            x.start_gather((Direction)o.dir, ALL);
            x.start_gather(-(Direction)o.dir, EVEN);
        }
    }
    void write(const Geo &q, const Op &o, const std::string &name) {
        int n = o.items.size();
        for (int k = 0; k < n; k++)
            fill(q, f[k], o.items[k].key);
        auto sl = [&](const Item &it) {
            CoordinateVector c;
            foralldir(d) c[d] = it.cmin[d] == it.cmax[d] ? it.cmin[d] : -1;
            return c;
        };
        auto lo = [&](const Item &it) {
            CoordinateVector c;
            foralldir(d) c[d] = it.cmin[d];
            return c;
        };
        auto hi = [&](const Item &it) {
            CoordinateVector c;
            foralldir(d) c[d] = it.cmax[d];
            return c;
        };
        {
        Elsewhere away(o, true);
        if (o.stream) {
            std::ofstream os;
            hila::open_output_file(name, os);
            for (int k = 0; k < n; k++) {
                auto &it = o.items[k];
                if (it.what == 0)
                    f[k].write(os);
                else if (it.what == 1)
                    f[k].write(os, false, it.prec);
                else if (it.what == 2)
                    o.slice ? f[k].write_slice(os, sl(it), it.prec) : f[k].write_subvolume(os, lo(it), hi(it), it.prec);
                else
                    o.slice ? f[k].write_slice_binary(os, sl(it), it.tofloat) : f[k].write_subvolume_binary(os, lo(it), hi(it), it.tofloat);
            }
            hila::close_file(name, os);
        } else if (n == 2)
            write_fields(name, f[0], f[1]);
        else if (n == 3)
            write_fields(name, f[0], f[1], f[2]);
        else {
            auto &it = o.items[0];
            if (it.what == 0)
                f[0].write(name);
            else if (it.what == 1)
                f[0].write(name, false, it.prec);
            else if (it.what == 2)
                o.slice ? f[0].write_slice(name, sl(it), it.prec) : f[0].write_subvolume(name, lo(it), hi(it), it.prec);
            else
                o.slice ? f[0].write_slice_binary(name, sl(it), it.tofloat) : f[0].write_subvolume_binary(name, lo(it), hi(it), it.tofloat);
        }
        }
        // the field is as it was
        check(q, f[0], o.dir, [&](long i) { return val<T>(o.items[0].key, i); }, "after writing");
    }
    void read(const Geo &q, const Op &o, const std::string &name) {
        int n = o.items.size();
        for (int k = 0; k < n; k++)
            prepare(q, o, f[k], k);
        {
        Elsewhere away(o, o.pre != 0);
        if (o.kind == READ) {
            if (n == 1)
                f[0].read(name);
            else if (n == 2)
                read_fields(name, f[0], f[1]);
            else
                read_fields(name, f[0], f[1], f[2]);
        } else {
            std::ifstream is;
            hila::open_input_file(name, is);
            for (int k = 0; k < n; k++)
                f[k].read(is);
            hila::close_file(name, is);
        }
        }
        for (int k = 0; k < n; k++)
            check(q, f[k], (o.dir + k) % NDIRS, [&](long i) { return val<T>(o.items[k].key, i); }, o.kind == READ ? "reading" : "reading from a stream");
    }
    void readsize(const Geo &q, const Op &o, const std::string &name) {
        int in[NDIM];
        std::string s;
        fill_raw(o, s, in);
        Geo small;
        small.set(in);
        for (long i = 0; i < small.vol; i++) {
            T t = val<T>(o.items[0].key, i);
            s.append((char *)&t, sizeof t);
        }
        if (o.cut >= 0)
            s.resize(s.size() * o.cut / 1000);
        put_raw(name, s);
        prepare(q, o, f[0], 0);
        CoordinateVector insize;
        foralldir(d) insize[d] = in[d];
        {
            Elsewhere away(o, o.pre != 0);
            std::ifstream is;
            hila::open_input_file(name, is);
            f[0].read(is, insize);
            hila::close_file(name, is);
        }
        if (o.cut < 0)
            check(
                q, f[0], o.dir,
                [&](long i) {
                    int c[NDIM];
                    q.coord(i, c);
                    return val<T>(o.items[0].key, small.idx(c));
                },
                "reading a smaller lattice");
    }
    void run(const Op &o, int e, int i) {
        const Geo &q = o.blk ? bgeo : geo;
        if (o.kind == WRITE) {
            if (o.pre == 2) // an older file is replaced
                put_raw(fname(e, i), std::string(300 * q.vol, 'x'));
            write(q, o, fname(e, i));
        } else if (o.kind == READSIZE)
            readsize(q, o, fname(e, i));
        else {
            std::string name = fname(o.refep, o.ref);
            bool there = true;
            if (o.cut >= 0) {
                Op w = o;
                std::string s = content_of(w);
                s.resize(s.size() * o.cut / 1000);
                name = fname(e, i);
                put_raw(name, s);
            }
            read(q, o, name);
        }
    }
};
template <typename T>
static void dorun(const Op &o, int e, int i) {
    int b[NDIM];
    if (o.blk) {
        blocking(geo, b);
        CoordinateVector bv;
        foralldir(d) bv[d] = b[d];
        lattice.block(bv);
    }
    {
        Run<T> r;
        r.run(o, e, i);
    }
    if (o.blk)
        lattice.switch_to_base();
}

static bool was_done(int e, int i) {
    char b[4];
    return sim_get(("done." + std::to_string(e) + "." + std::to_string(i)).c_str(), b, sizeof b) > 0;
}
static void geometry() {
    int n[NDIM], b[NDIM];
    get_size(n);
    geo.set(n);
    blocking(geo, b);
    for (int d = 0; d < NDIM; d++)
        n[d] /= b[d];
    bgeo.set(n);
}

extern "C" int harness_main(int argc, char **argv) {
    geometry();
    int e = sim_epoch();
    start_hila(argc, argv, geo);
    auto all = gen_ops(e + 1);
    // (gen_ops depends on the number of epochs through damage only)
    all = gen_ops(sim_param("epochs", 1));
    for (int i = 0; i < (int)all[e].size(); i++) {
        const Op &o = all[e][i];
        if ((o.kind == READ || o.kind == READSTREAM) && o.cut < 0 && o.refep < e && !was_done(o.refep, o.ref))
            continue; // an earlier epoch ended before this file was written
        sim_note("op %d: %s type %d items %d first %d%s%s", i, o.kind == WRITE ? "write" : o.kind == READ ? "read" : o.kind == READSTREAM ? "read stream" : "read size", o.type, (int)o.items.size(),
                 o.items[0].what, o.blk ? " blocked" : "", o.cut >= 0 ? " DAMAGED" : "");
        switch (o.type) {
        case 0:
            dorun<int>(o, e, i);
            break;
        case 1:
            dorun<long>(o, e, i);
            break;
        case 2:
            dorun<float>(o, e, i);
            break;
        case 3:
            dorun<double>(o, e, i);
            break;
        case 4:
            dorun<CD>(o, e, i);
            break;
        case 5:
            dorun<CF>(o, e, i);
            break;
        case 6:
            dorun<V3>(o, e, i);
            break;
        default:
            dorun<M2>(o, e, i);
        }
        if (o.cut >= 0)
            sim_violation("damaged-accepted", "reading goes on after a file which ends at %d per mille of its length", o.cut);
        // (rank 0 knows that the file is written)
        if (hila::myrank() == 0)
            sim_put(("done." + std::to_string(e) + "." + std::to_string(i)).c_str(), "1", 2);
    }
    hila::synchronize();
    if (sim_rank() == 0)
        sim_count("checked.sites", nchk);
    end_hila();
    return 0;
}

extern "C" void harness_post(int e) {
    geometry();
    if (layout_refused())
        return;
    auto all = gen_ops(sim_param("epochs", 1));
    bool fault = sim_param("io_fail_at", -1) >= 0, kill = sim_outcome() == 2, damaged = false;
    int undone = 0;
    for (int i = 0; i < (int)all[e].size(); i++) {
        const Op &o = all[e][i];
        if (o.cut >= 0)
            damaged = true;
        if ((o.kind == READ || o.kind == READSTREAM) && o.cut < 0 && o.refep < e && !was_done(o.refep, o.ref))
            continue;
        if (!was_done(e, i)) {
            undone++;
            continue;
        }
        if (o.kind != WRITE)
            continue;
        bool there;
        std::string s = get_raw(fname(e, i), there), r = content_of(o);
        nchk++;
        if (!there)
            sim_violation("file-missing", "the file written by operation %d does not exist", i);
        if (s != r) {
            size_t k = 0;
            while (k < s.size() && k < r.size() && s[k] == r[k])
                k++;
            sim_violation("file-content", "%s of type %d: %zu bytes instead of %zu, first difference at %zu%s",
                          o.items.size() > 1 ? "several items" : o.items[0].what == 0 ? "binary field" : o.items[0].what == 1 ? "text field" : o.items[0].what == 2 ? "text subvolume" : "binary subvolume",
                          o.type, s.size(), r.size(), k, fault ? " (after an injected I/O error)" : "");
        }
        sim_count("checked.files", 1);
    }
    if (kill)
        return;
    if (undone == 0 && sim_outcome() == 0)
        return;
    // the program ended before its end: there must be a reason, and a failure status
    if (!fault && !damaged)
        sim_violation("abnormal-end", "a run without faults ended abnormally (outcome %d, code %d), %d operations not done", sim_outcome(), sim_exit_code(0), undone);
    int bad = 0;
    for (int r = 0; r < sim_nranks(); r++)
        bad += sim_exit_code(r) != 0;
    if (sim_outcome() == 0 || !bad)
        sim_violation("error-status", "after a failed file operation the job ends with success");
}

extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 66);
    Out o(out, n);
    static const int nrs[] = {1, 2, 2, 3, 4, 4, 5, 6, 7, 8};
    int ep = g.pct(60) ? 2 : g.pct(50) ? 1 : 3;
    int nr[3], m = 1;
    for (int e = 0; e < 3; e++)
        nr[e] = nrs[g.below(10)];
    // the lattice must be divisible for all of them: choose for the product where that is small
    for (int e = 1; e < ep; e++)
        if (g.pct(50))
            nr[e] = g.pct(50) ? 1 : nr[0];
    for (int e = 0; e < ep; e++) {
        int a = m, b = nr[e];
        while (b) {
            int t = a % b;
            a = b;
            b = t;
        }
        m = m / a * nr[e];
    }
#ifdef SUBNODE_LAYOUT
    for (int e = 0; e < ep; e++)
        nr[e] = 1 << g.below(4);
    m = std::max(nr[0], std::max(ep > 1 ? nr[1] : 1, ep > 2 ? nr[2] : 1));
#endif
    if (m > 12) {
        m = nr[0];
        for (int e = 1; e < ep; e++)
            nr[e] = nr[0] % 2 == 0 && g.pct(50) ? nr[0] / 2 : g.pct(50) ? nr[0] : 1;
    }
    int sz[NDIM];
    choose_size(g, m, true, 600, sz);
    o.line("nranks=%d", nr[0]);
    o.line("epochs=%d", ep);
    for (int e = 0; e < ep; e++)
        o.line("e%d.nranks=%d", e, nr[e]);
    plan_size(o, sz);
    o.line("ops=%d", g.in(1, tier ? 10 : 6));
#ifndef SUBNODE_LAYOUT
    if (g.pct(40))
        o.line("blocks=1");
#endif
    int f = g.below(100);
    int fe = g.below(ep);
    if (f < 35) {
        static const char *kinds[] = {"enospc", "eio", "open", "close", "short", "eintr", "reio", "rshort"};
        const char *k = kinds[g.below(8)];
        o.line("strict=0");
        o.line("e%d.io_kind=%s", fe, k);
        o.line("e%d.io_fail_at=%d", fe, 1 + g.below(1 << g.in(1, 5)));
        o.line("e%d.io_match=.dat", fe);
    } else if (f < 55) {
        o.line("strict=0");
        o.line("damage=1");
    } else if (f < 65)
        o.line("e%d.crash_io_at=%d", fe, 1 + g.below(1 << g.in(1, 6)));
}
