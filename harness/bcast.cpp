// C09: broadcast and point-to-point transfer deliver the sender's value.
#include "common.h"
#include <array>

static Geo geo;
static long nchk;

struct Odd {
    char a;
    double b;
    short c;
    char d[5];
};
static bool same(const Odd &x, const Odd &y) {
    return x.a == y.a && x.b == y.b && x.c == y.c && memcmp(x.d, y.d, 5) == 0;
}
template <typename T>
static bool same(const T &x, const T &y) {
    return x == y;
}
template <typename T>
static bool same(const std::vector<T> &x, const std::vector<T> &y) {
    if (x.size() != y.size())
        return false;
    for (size_t i = 0; i < x.size(); i++)
        if (!same(x[i], y[i]))
            return false;
    return true;
}

static void gen(Gen &g, char &v) { v = (char)g.next(); }
static void gen(Gen &g, bool &v) { v = g.pct(50); }
static void gen(Gen &g, int &v) { v = (int)g.next(); }
static void gen(Gen &g, long &v) { v = (long)g.next(); }
static void gen(Gen &g, float &v) { v = (float)g.in(-100000, 100000) / 7; }
static void gen(Gen &g, double &v) { v = (double)(long)g.next() / 3; }
static void gen(Gen &g, Complex<double> &v) { v = Complex<double>(g.in(-1000, 1000), g.in(-1000, 1000)); }
static void gen(Gen &g, CoordinateVector &v) { foralldir(d) v[d] = g.in(-1000, 1000); }
static void gen(Gen &g, Matrix<3, 3, Complex<float>> &v) {
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            v.e(i, j) = Complex<float>(g.in(-1000, 1000), g.in(-1000, 1000));
}
static void gen(Gen &g, Odd &v) {
    memset(&v, 0, sizeof v);
    v.a = (char)g.next();
    v.b = g.in(-1000, 1000);
    v.c = (short)g.next();
    for (char &c : v.d)
        c = (char)g.next();
}
static void gen(Gen &g, std::string &s) {
    int n = g.pct(20) ? 0 : g.pct(80) ? g.in(1, 40) : g.in(41, 3000);
    s.clear();
    for (int i = 0; i < n; i++)
        s += (char)(g.pct(5) ? 0 : g.in(1, 255));
}
template <typename T, size_t N>
static void gen(Gen &g, std::array<T, N> &a) {
    for (auto &x : a)
        gen(g, x);
}
template <typename T>
static void gen(Gen &g, std::vector<T> &v) {
    int n = g.pct(20) ? 0 : g.pct(85) ? g.in(1, 20) : g.in(100, 2000);
    if (std::is_same<T, std::string>::value && n > 8)
        n = 8;
    v.resize(n);
    for (int i = 0; i < n; i++)
        gen(g, v[i]);
}

// one value per rank; the root's is the one everybody gets
template <typename T>
static T value_of(uint64_t key, int rank) {
    Gen g(sim_seed(), key * 64 + rank + 1000);
    T v;
    gen(g, v);
    return v;
}
template <typename T>
static void chk(const T &got, const T &want, const char *what, const char *tn, int root) {
    nchk++;
    if (!same(got, want))
        sim_violation("transfer-value", "%s of %s from rank %d: rank %d did not get the sender's value", what, tn, root, hila::myrank());
}

template <typename T>
static void bc(Gen &g, uint64_t key, int root, const char *tn) {
    T want = value_of<T>(key, root);
    int how = g.below(3);
    if (how == 0) {
        T v = value_of<T>(key, hila::myrank());
        T r = hila::broadcast(v, root);
        chk(v, want, "broadcast", tn, root);
        chk(r, want, "broadcast (returned)", tn, root);
    } else if (how == 1) {
        const T v = value_of<T>(key, hila::myrank());
        T r = hila::broadcast(v, root);
        chk(r, want, "broadcast (const)", tn, root);
        chk(v, value_of<T>(key, hila::myrank()), "broadcast (const, own variable)", tn, hila::myrank());
    } else {
        T want0 = value_of<T>(key, 0);
        T v = value_of<T>(key, hila::myrank());
        hila::broadcast(v);
        chk(v, want0, "broadcast from the default root", tn, 0);
    }
}
template <typename T>
static void bcl(Gen &g, uint64_t key, int root, const char *tn) {
    T want = value_of<T>(key, root);
    T v = value_of<T>(key, hila::myrank());
    T r = hila::broadcast(v, root);
    chk(v, want, "broadcast", tn, root);
    chk(r, want, "broadcast (returned)", tn, root);
}
template <typename T, typename U>
static void bc2(Gen &g, uint64_t key, int root, const char *tn) {
    T t = value_of<T>(key, hila::myrank());
    U u = value_of<U>(key + 1, hila::myrank());
    hila::broadcast2(t, u, root);
    chk(t, value_of<T>(key, root), "broadcast2 (first)", tn, root);
    chk(u, value_of<U>(key + 1, root), "broadcast2 (second)", tn, root);
}
template <typename T>
static void bca(Gen &g, uint64_t key, int root, const char *tn) {
    int n = g.in(0, 12), guard = 2;
    std::vector<T> v(n + guard), mine(n + guard);
    for (int i = 0; i < n + guard; i++)
        mine[i] = v[i] = value_of<T>(key * 32 + i, hila::myrank());
    T *p = hila::broadcast_array(v.data(), n, root);
    if (p != v.data())
        sim_violation("transfer-value", "broadcast_array returns another address");
    for (int i = 0; i < n; i++)
        chk(v[i], value_of<T>(key * 32 + i, root), "broadcast_array", tn, root);
    for (int i = n; i < n + guard; i++)
        chk(v[i], mine[i], "broadcast_array (elements beyond the end)", tn, hila::myrank());
}
// a chain of messages; all ranks know the list of (from, to)
template <typename T>
static void p2p(Gen &g, uint64_t key, const char *tn) {
    int nr = hila::number_of_nodes();
    if (nr < 2)
        return;
    int n = g.in(1, 8);
    for (int k = 0; k < n; k++) {
        int from = g.below(nr), to = g.below(nr - 1);
        if (to >= from)
            to++;
        if (hila::myrank() == from)
            hila::send_to(to, value_of<T>(key * 16 + k, from));
        if (hila::myrank() == to) {
            T v = value_of<T>(key * 16 + k, to);
            hila::receive_from(from, v);
            chk(v, value_of<T>(key * 16 + k, from), "send_to/receive_from", tn, from);
        }
    }
}

extern "C" int harness_main(int argc, char **argv) {
    start_hila(argc, argv, geo);
    Gen g(sim_seed(), 7);
    int n = sim_param("ops", 10), nr = hila::number_of_nodes();
    Field<double> f = 1, h;
    for (int i = 0; i < n; i++) {
        int root = g.below(nr);
        uint64_t key = 100 + i * 4096;
        int op = g.below(26);
        sim_note("op %d root %d", op, root);
        switch (op) {
        case 0: bc<int>(g, key, root, "int"); break;
        case 1: bc<double>(g, key, root, "double"); break;
        case 2: bc<char>(g, key, root, "char"); break;
        case 3: bc<bool>(g, key, root, "bool"); break;
        case 4: bc<Complex<double>>(g, key, root, "Complex<double>"); break;
        case 5: bc<CoordinateVector>(g, key, root, "CoordinateVector"); break;
        case 6: bc<Matrix<3, 3, Complex<float>>>(g, key, root, "Matrix<3,3,Complex<float>>"); break;
        case 7: bc<Odd>(g, key, root, "struct"); break;
        case 8: bc<long>(g, key, root, "long"); break;
        case 9: bcl<std::string>(g, key, root, "std::string"); break;
        case 10: bcl<std::vector<int>>(g, key, root, "std::vector<int>"); break;
        case 11: bcl<std::vector<Odd>>(g, key, root, "std::vector<struct>"); break;
        case 12: bcl<std::vector<std::string>>(g, key, root, "std::vector<std::string>"); break;
        case 13: bcl<std::vector<CoordinateVector>>(g, key, root, "std::vector<CoordinateVector>"); break;
        case 14: bc2<double, int>(g, key, root, "double, int"); break;
        case 15: bc2<char, double>(g, key, root, "char, double"); break;
        case 16: bc2<CoordinateVector, float>(g, key, root, "CoordinateVector, float"); break;
        case 17: bca<double>(g, key, root, "double"); break;
        case 18: bca<Odd>(g, key, root, "struct"); break;
        case 19: p2p<double>(g, key, "double"); break;
        case 20: p2p<Odd>(g, key, "struct"); break;
        case 21: p2p<std::vector<int>>(g, key, "std::vector<int>"); break;
        case 22: p2p<std::vector<Complex<double>>>(g, key, "std::vector<Complex<double>>"); break;
        case 23: bcl<std::array<long, 5>>(g, key, root, "std::array<long,5>"); break;
        case 24: bc2<bool, long>(g, key, root, "bool, long"); break;
        case 25: {
            // field traffic in between
            Direction d = (Direction)g.below(NDIRS);
            f.start_gather(d, ALL);
            bc<double>(g, key, root, "double (during a gather)");
            onsites(ALL) h[X] = f[X + d];
            break;
        }
        }
    }
    sim_count("checked.transfers", nchk);
    end_hila();
    return 0;
}
extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 1000);
    Out o(out, n);
    int nr = g.in(1, 8);
    int sz[NDIM];
    choose_size(g, nr, false, 600, sz);
    o.line("nranks=%d", nr);
    plan_size(o, sz);
    o.line("ops=%d", g.in(2, tier ? 100 : 40));
}
