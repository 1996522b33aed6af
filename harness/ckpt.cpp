// C08: a killed run continues from its last complete checkpoint.
#include "common.h"
#include "plumbing/gaugefield.h"
#include "tools/checkpoint.h"

static long nchk;
static Geo geo;
typedef SU<2, double> G;
static const char *CF = "config";
static const int INIT = 1000000;

template <typename T>
static T val(uint64_t key, long i, int d) {
    typedef hila::arithmetic_type<T> A;
    T t;
    for (int k = 0; k < (int)(sizeof(T) / sizeof(A)); k++)
        ((A *)&t)[k] = (A)((double)(Gen::mix(Gen::mix(key * 77 + i * 4 + d) + k) >> 30) / 1e6 - 8000);
    return t;
}
static uint64_t fkey(int e, int traj) {
    return sim_seed() * 1000003 + e * 7919 + traj;
}
static std::string content(uint64_t key) {
    int64_t h[3 + NDIM] = {394824242, NDIM, (int64_t)sizeof(G)};
    for (int d = 0; d < NDIM; d++)
        h[3 + d] = geo.n[d];
    std::string s((char *)h, sizeof h);
    for (int d = 0; d < NDIM; d++)
        for (long i = 0; i < geo.vol; i++) {
            G t = val<G>(key, i, d);
            s.append((char *)&t, sizeof t);
        }
    return s;
}
static std::string get_raw(const char *name, bool &there) {
    sim_faults(0);
    std::string s;
    FILE *f = fopen(name, "r");
    there = f != nullptr;
    char b[65536];
    size_t m;
    while (f && (m = fread(b, 1, sizeof b, f)) > 0)
        s.append(b, m);
    if (f)
        fclose(f);
    sim_faults(1);
    return s;
}
static void put_raw(const char *name, const std::string &s) {
    sim_faults(0);
    FILE *f = fopen(name, "w");
    if (f) {
        fwrite(s.data(), 1, s.size(), f);
        fclose(f);
    }
    sim_faults(1);
}
static void fill(GaugeField<G> &U, uint64_t key) {
    foralldir(d) fill_field(geo, U[d], [&](long i) { return val<G>(key, i, d); });
}
static bool is(const GaugeField<G> &U, uint64_t key) {
    bool ok = true;
    foralldir(d) {
        for (unsigned k = 0; k < lattice->mynode.volume; k++) {
            G a = U[d].get_value_at(k), b = val<G>(key, geo_idx(geo, lattice->coordinates(k)), d);
            nchk++;
            if (memcmp(&a, &b, sizeof(G)))
                ok = false;
        }
    }
    return ok;
}

// the observer's record of a checkpoint
struct Rec {
    int n;              // how many checkpoints have been begun so far
    int epoch, traj;    // what the field's contents are made from
    int ntraj;
    char seed[32];      // from run_status when it was finished; empty before
};
static bool getrec(const char *k, Rec &r) {
    return sim_get(k, &r, sizeof r) == sizeof r;
}
static std::string item(const std::string &s, const char *key) {
    size_t p = s.find(key);
    if (p == std::string::npos)
        return "";
    p += strlen(key);
    while (p < s.size() && s[p] == ' ')
        p++;
    size_t q = p;
    while (q < s.size() && s[q] != ' ' && s[q] != '\n')
        q++;
    return s.substr(p, q - p);
}

extern "C" int harness_main(int argc, char **argv) {
    start_hila(argc, argv, geo);
    int e = sim_epoch(), me = hila::myrank();
    Gen g(sim_seed(), 800 + e);
    hila::seed_random(1 + e);
    Rec begun, done;
    // (the observer's record does not change before the first checkpoint of this run)
    bool hb = getrec("begun", begun), hd = getrec("done", done);
    if (!hb && sim_param("init", 0)) {
        if (me == 0)
            put_raw(CF, content(fkey(0, INIT)));
        hila::synchronize();
    }
    {
    GaugeField<G> U;
    if (g.pct(50))
        fill(U, 5);
    int ntraj = 50, traj = 7;
    hila::synchronize();
    sim_note("restore");
    bool ok = restore_checkpoint(U, CF, ntraj, traj);
    // every rank sees the same
    int agree[3] = {ok, ntraj, traj};
    std::string ak = "restored." + std::to_string(e);
    sim_agree(ak.c_str(), agree, sizeof agree);
    int match = -1; // 0 fresh, 1 the last finished one, 2 the one which was being written
    if (!ok)
        match = 0;
    else {
        bool m2 = hb && is(U, fkey(begun.epoch, begun.traj)), m1 = hd && is(U, fkey(done.epoch, done.traj)), m0 = sim_param("init", 0) && is(U, fkey(0, INIT));
        match = m1 ? 1 : m2 ? 2 : m0 ? 0 : -1;
        if (match < 0)
            sim_violation("restored-field", "the restored gauge field is of no checkpoint%s", hd ? " although one was finished" : "");
    }
    sim_note("restored: match %d traj %d ntraj %d", match, traj, ntraj);
    if (match == 0) {
        if (hd)
            sim_violation("checkpoint-lost", "the run starts afresh although checkpoint %d (trajectory %d) was finished", done.n, done.traj + 1);
        if (sim_param("init", 0) != ok)
            sim_violation("initial-config", "restore_checkpoint() returns %d, an initial configuration %s", (int)ok, sim_param("init", 0) ? "exists" : "does not exist");
        if (traj != 7 || ntraj != 50)
            sim_violation("mixture", "the initial field comes with trajectory %d of %d", traj, ntraj);
    } else {
        const Rec &r = match == 1 ? done : begun;
        if (traj != r.traj + 1)
            sim_violation("mixture", "the restored field is of trajectory %d, the restored trajectory number is %d", r.traj + 1, traj);
        bool there;
        std::string st = get_raw("run_status", there);
        std::string seed = item(st, "seed");
        if (match == 1 && seed != done.seed)
            sim_violation("mixture", "the seed of the checkpoint was %s, now %s", done.seed, seed.c_str());
        if (match == 1 && ntraj != done.ntraj)
            sim_violation("mixture", "the number of trajectories was %d, now %d", done.ntraj, ntraj);
        // the random numbers are those of the seed in the status file
        double a[5], b[5];
        for (int i = 0; i < 5; i++)
            a[i] = hila::random();
        hila::seed_random(strtoull(seed.c_str(), nullptr, 10));
        for (int i = 0; i < 5; i++)
            b[i] = hila::random();
        if (memcmp(a, b, sizeof a))
            sim_violation("random-state", "after the restore the random numbers are not those of the seed %s", seed.c_str());
        if (match == 2 && !(hd && done.n == begun.n)) {
            // the one being written was complete: from now on it counts as finished
            Rec x = begun;
            snprintf(x.seed, sizeof x.seed, "%s", seed.c_str());
            x.ntraj = ntraj;
            if (me == 0)
                sim_put("done", &x, sizeof x);
        }
        if (me == 0)
            sim_count(match == 1 ? "restored.last" : "restored.interrupted", 1);
    }
    if (me == 0 && match == 0)
        sim_count("restored.fresh", 1);
    hila::synchronize();

    int n = hb ? begun.n : 0, ops = sim_param("ops", 3);
    std::string before; // contents of the config file
    bool havebefore = false;
    for (int i = 0; i < ops; i++) {
        traj += g.in(0, 3);
        uint64_t key = fkey(e, traj);
        fill(U, key);
        if (g.pct(30))
            U[e_x].start_gather(e_y, ALL);
        if (g.pct(30))
            hila::random();
        // the user changes the number of trajectories
        bool edit = g.pct(25);
        int newn = g.in(1, 9999);
        bool save = g.pct(75);
        if (me == 0) {
            if (edit) {
                bool there;
                std::string st = get_raw("run_status", there);
                size_t p = st.find("trajectories ");
                if (there && p != std::string::npos) {
                    size_t q = st.find_first_not_of("0123456789 ", p + 13);
                    put_raw("run_status", st.substr(0, p) + "trajectories " + std::to_string(newn) + "   " + st.substr(q));
                    // (a change by the user counts, also if the run is killed)
                    Rec r;
                    if (getrec("done", r)) {
                        r.ntraj = newn;
                        sim_put("done", &r, sizeof r);
                    }
                } else
                    edit = false;
            }
        }
        hila::broadcast(edit);
        if (edit)
            ntraj = ntraj; // not yet known
        if (me == 0) {
            bool t;
            before = get_raw(CF, t);
            havebefore = t;
            Rec r = {};
            r.n = ++n;
            r.epoch = e;
            r.traj = traj;
            r.ntraj = edit ? newn : ntraj;
            sim_put("begun", &r, sizeof r);
        }
        hila::synchronize();
        sim_note("checkpoint of trajectory %d%s", traj, save ? "" : ", old not saved");
        checkpoint(U, CF, ntraj, traj, save);
        if (edit && ntraj != newn)
            sim_violation("trajectories", "run_status was changed to %d trajectories, rank has %d", newn, ntraj);
        if (!is(U, key))
            sim_violation("field-changed", "checkpoint() changes the gauge field");
        if (me == 0) {
            // what it has left
            bool t;
            Rec r;
            getrec("begun", r);
            std::string st = get_raw("run_status", t);
            snprintf(r.seed, sizeof r.seed, "%s", item(st, "seed").c_str());
            r.ntraj = ntraj;
            sim_put("done", &r, sizeof r);
            sim_count("checked.checkpoints", 1);
            if (!t || item(st, "trajectory ") != std::to_string(traj + 1) || item(st, "trajectories") != std::to_string(ntraj))
                sim_violation("run-status", "run_status after the checkpoint of trajectory %d of %d: '%s'", traj, ntraj, st.c_str());
            std::string c = get_raw(CF, t);
            if (!t || c != content(key))
                sim_violation("config-content", "the configuration file is not the gauge field of the checkpoint");
            if (save && havebefore) {
                c = get_raw("config.prev", t);
                if (!t || c != before)
                    sim_violation("prev-content", "config.prev is not the previous configuration");
            }
        }
        hila::synchronize();
        traj++;
    }
    }
    if (me == 0)
        sim_count("checked.links", nchk);
    end_hila();
    return 0;
}

extern "C" void harness_post(int e) {
    if (layout_refused())
        return;
    if (sim_outcome() == 0 || sim_outcome() == 2)
        return;
    int f = 0;
    for (int r = 0; r < sim_nranks(); r++)
        f += sim_exit_code(r) != 0;
    if (!f)
        sim_violation("error-status", "after a failed file operation the job ends with success");
    if (sim_param("io_fail_at", -1) < 0)
        sim_violation("abnormal-end", "a run without I/O errors ended abnormally (outcome %d, code %d)", sim_outcome(), sim_exit_code(0));
}

extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 88);
    Out o(out, n);
    static const int nrs[] = {1, 1, 2, 2, 3, 4, 6};
    int ep = g.in(2, tier ? 7 : 5);
    int nr = nrs[g.below(7)], sz[NDIM];
    choose_size(g, nr, true, 60, sz);
    o.line("epochs=%d", ep);
    o.line("nranks=%d", nr);
    plan_size(o, sz);
    o.line("ops=%d", g.in(1, 4));
    if (g.pct(40))
        o.line("init=1");
    bool flt = false;
    for (int e = 0; e < ep; e++) {
        o.line("e%d.nranks=%d", e, g.pct(70) ? nr : 1);
        if (e == ep - 1)
            break;
        int f = g.below(100);
        if (f < 60)
            o.line("e%d.crash_io_at=%d", e, 1 + g.below(1 << g.in(2, 6)));
        else if (f < 75)
            o.line("e%d.crash_at=%d", e, 1 + g.below(4000));
        else if (f < 90) {
            static const char *kinds[] = {"enospc", "eio", "close", "short", "eintr", "rename", "enospc", "eio"};
            o.line("e%d.io_kind=%s", e, kinds[g.below(8)]);
            o.line("e%d.io_fail_at=%d", e, 1 + g.below(1 << g.in(1, 6)));
            flt = true;
        }
    }
    if (flt)
        o.line("strict=0");
}
