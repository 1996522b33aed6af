// C13: random numbers are determined by seed, lattice and rank count; streams differ; common values are common.
#include "common.h"
#include <map>

static Geo geo;
static long nchk;

struct Run {
    Gen g;
    uint64_t h = 1469598103934665603ull;
    int rank, seq = 0;
    std::map<std::pair<int, uint64_t>, std::vector<double>> probes; // seed and kind -> what a fresh generator gave on this rank
    Run(uint64_t key) : g(sim_seed(), key) {
        rank = sim_rank();
    }
    void put(const void *p, size_t n) {
        const unsigned char *c = (const unsigned char *)p;
        for (size_t i = 0; i < n; i++)
            h = (h ^ c[i]) * 1099511628211ull;
        h = Gen::mix(h);
    }
    void put(double d) {
        put(&d, sizeof d);
    }
    template <typename T>
    void putf(const Field<T> &f) {
        for (unsigned i = 0; i < lattice->mynode.volume; i++) {
            T v = f.get_value_at(i);
            const hila::arithmetic_type<T> *p = (const hila::arithmetic_type<T> *)&v;
            for (size_t k = 0; k < sizeof(T) / sizeof(*p); k++) {
                if (!std::isfinite((double)p[k]))
                    sim_violation("random-value", "a random field holds %g", (double)p[k]);
                put((double)p[k]);
            }
        }
    }
    void uniform(double v, const char *what) {
        if (!(v >= 0 && v < 1))
            sim_violation("random-value", "%s gives %.17g, outside [0,1)", what, v);
        nchk++;
    }
    // different ranks hold different streams: exchange through the observer
    void differ(const std::vector<double> &v, const char *what) {
        char key[64];
        seq++;
        snprintf(key, sizeof key, "st.%d.%d.%d", sim_epoch(), seq, sim_rank());
        sim_put(key, v.data(), v.size() * sizeof(double));
        for (int r = 0; r < sim_nranks(); r++)
            if (r != sim_rank()) {
                std::vector<double> o(v.size());
                snprintf(key, sizeof key, "st.%d.%d.%d", sim_epoch(), seq, r);
                if (sim_get(key, o.data(), v.size() * sizeof(double)) != (long)(v.size() * sizeof(double)))
                    continue; // that rank gets here later and compares then
                size_t eq = 0;
                for (size_t k = 0; k < v.size(); k++)
                    eq += v[k] == o[k];
                if (eq == v.size())
                    sim_violation("same-stream", "%s: ranks %d and %d draw the same numbers (%.17g, ...)", what, sim_rank(), r, v[0]);
                nchk++;
            }
    }
    std::vector<double> draw(int kind) {
        std::vector<double> v;
        int n = 6;
        if (kind == 0)
            for (int i = 0; i < n; i++)
                v.push_back(hila::random());
        else if (kind == 1)
            for (int i = 0; i < n; i++)
                v.push_back(hila::gaussrand());
        else if (kind == 2)
            for (int i = 0; i < n / 2; i++) {
                double b, a = hila::gaussrand2(b);
                v.push_back(a);
                v.push_back(b);
            }
        else if (kind == 3) {
            Vector<3, double> w;
            w.gaussian_random();
            Complex<double> c;
            c.gaussian_random();
            for (int i = 0; i < 3; i++)
                v.push_back(w[i]);
            v.push_back(c.re);
            v.push_back(c.im);
            v.push_back(hila::gaussian_random<double>());
        } else if (kind == 4) {
            Field<double> f;
            f.gaussian_random();
            for (unsigned i = 0; i < 6 && i < lattice->mynode.volume; i++)
                v.push_back(f.get_value_at(i));
        } else {
            Field<double> f;
            onsites(ALL) f[X] = hila::random() + hila::gaussrand();
            for (unsigned i = 0; i < 6 && i < lattice->mynode.volume; i++)
                v.push_back(f.get_value_at(i));
        }
        return v;
    }
    void seed(uint64_t s, int kind) {
        hila::seed_random(s);
        std::vector<double> v = draw(kind);
        std::pair<int, uint64_t> key(kind, s);
        auto it = probes.find(key);
        if (it != probes.end()) {
            for (size_t k = 0; k < v.size(); k++)
                if (v[k] != it->second[k])
                    sim_violation("seed-not-complete", "rank %d: number %zu (kind %d) after seeding with %lu is %.17g; after an earlier seeding with the same seed it was %.17g",
                                  sim_rank(), k, kind, (unsigned long)s, v[k], it->second[k]);
            nchk += v.size();
        } else {
            for (auto &p : probes)
                if (p.first.first == kind && p.second == v)
                    sim_violation("seed-ignored", "rank %d: different seeds give the same numbers (%.17g, ...)", sim_rank(), v[0]);
            probes[key] = v;
        }
        for (double x : v)
            put(x);
        differ(v, "after seeding");
    }
    void step(const std::vector<uint64_t> &seeds) {
        int op = g.below(12);
        int k = g.in(1, 5);
        sim_note("op %d k %d", op, k);
        switch (op) {
        case 0:
            for (int i = 0; i < k; i++) {
                double v = hila::random();
                uniform(v, "hila::random()");
                put(v);
            }
            break;
        case 1:
            for (int i = 0; i < k; i++)
                put(hila::gaussrand());
            break;
        case 2: { // a rank-local number of draws
            int m = Gen(sim_seed() + sim_rank(), g.next()).below(4);
            for (int i = 0; i < m; i++)
                put(hila::gaussrand());
            break;
        }
        case 3: {
            Field<double> f;
            if (k & 1)
                f.random();
            else
                f.gaussian_random(0.5 * k);
            putf(f);
            break;
        }
        case 4: {
            Field<Complex<float>> f;
            if (k & 1)
                f.random();
            else
                f.gaussian_random();
            putf(f);
            break;
        }
        case 5: {
            Parity p = k == 1 ? EVEN : k == 2 ? ODD : ALL;
            Field<double> f = 0;
            onsites(p) {
                f[X] = hila::gaussrand();
            }
            putf(f);
            break;
        }
        case 6: {
            Field<SU<2, double>> f;
            onsites(ALL) f[X].random();
            putf(f);
            break;
        }
        case 7: {
            auto a = hila::shuffle_directions_and_parities();
            char key[32];
            snprintf(key, sizeof key, "shuf%d.%d.%d", (int)hila::partitions.mylattice(), sim_epoch(), ++seq);
            sim_agree(key, a.data(), a.size() * sizeof(a[0]));
            std::vector<int> seen(2 * NDIM);
            for (auto &s : a)
                seen[2 * (int)s.direction + (s.parity == ODD)]++;
            for (int c : seen)
                if (c != 1)
                    sim_violation("shuffle", "shuffled directions and parities are not a permutation");
            put(a.data(), a.size() * sizeof(a[0]));
            nchk++;
            break;
        }
        case 8: {
            auto a = hila::shuffle_directions();
            auto b = hila::shuffle_parities();
            char key[32];
            snprintf(key, sizeof key, "sd%d.%d.%d", (int)hila::partitions.mylattice(), sim_epoch(), ++seq);
            sim_agree(key, a.data(), a.size() * sizeof(a[0]));
            snprintf(key, sizeof key, "sp%d.%d.%d", (int)hila::partitions.mylattice(), sim_epoch(), ++seq);
            sim_agree(key, b.data(), b.size() * sizeof(b[0]));
            std::vector<int> seen(NDIM);
            for (auto &s : a)
                seen[(int)s]++;
            for (int c : seen)
                if (c != 1)
                    sim_violation("shuffle", "shuffled directions are not a permutation");
            if (!((b[0] == EVEN && b[1] == ODD) || (b[0] == ODD && b[1] == EVEN)))
                sim_violation("shuffle", "shuffled parities are not a permutation");
            put(a.data(), sizeof a);
            nchk++;
            break;
        }
        case 9: {
            double v = hila::broadcast(hila::random());
            char key[32];
            snprintf(key, sizeof key, "br%d.%d.%d", (int)hila::partitions.mylattice(), sim_epoch(), ++seq);
            sim_agree(key, &v, sizeof v);
            put(v);
            nchk++;
            break;
        }
        default:
            seed(seeds[g.below(seeds.size())], g.below(6));
        }
    }
};

extern "C" int harness_main(int argc, char **argv) {
    start_hila(argc, argv, geo);
    {
        Run R(7);
        Gen sg(sim_seed(), 5);
        std::vector<uint64_t> seeds;
        seeds.push_back(1 + sg.next() % 100000);
        seeds.push_back(seeds[0] ^ (1ull << sg.below(64)));
        seeds.push_back(sg.next() | 1);
        for (auto &s : seeds)
            if (!s)
                s = 77;
        if (seeds[1] == seeds[0])
            seeds[1]++;
        if (hila::is_rng_seeded())
            sim_violation("seed-not-complete", "the generator claims to be seeded before it was");
        R.seed(seeds[0], 0);
        int n = sim_param("ops", 6);
        for (int i = 0; i < n; i++)
            R.step(seeds);
        // the same program in another epoch, with other schedules, clocks and message timing
        char key[32];
        snprintf(key, sizeof key, "hash.%d", sim_rank());
        uint64_t old;
        if (sim_epoch() > 0) {
            if (sim_get(key, &old, sizeof old) == (long)sizeof old && old != R.h)
                sim_violation("not-reproducible", "rank %d draws other numbers in a second run with the same seed", sim_rank());
            nchk++;
        } else
            sim_put(key, &R.h, sizeof R.h);
        // seeds taken from the clock are common: streams still differ between ranks
        if (sim_param("clockseed", 0)) {
            hila::seed_random(0);
            R.differ(R.draw(0), "after seeding from the clock");
        }
    }
    sim_count("checked.entries", nchk);
    end_hila();
    return 0;
}
extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 1000);
    Out o(out, n);
    static const int nrs[] = {1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 8};
    int nr = nrs[g.below(11)];
    int np = 1;
    if (nr % 2 == 0 && g.pct(25)) {
        np = 2;
        o.line("args=-partitions 2 part");
    }
    int sz[NDIM];
    choose_size(g, nr / np, g.pct(35), tier ? 600 : 200, sz);
    o.line("nranks=%d", nr);
    o.line("epochs=2");
    plan_size(o, sz);
    o.line("ops=%d", g.in(1, tier ? 30 : 12));
    o.line("clockseed=%d", (int)g.pct(30));
}
