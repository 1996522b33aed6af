// C14: all ranks agree when time is up or a stop signal arrived, and the limit holds.
#include "common.h"
#include <cmath>

static Geo geo;
static long nchk;

extern "C" int harness_main(int argc, char **argv) {
    double t0 = sim_clock_ns() * 1e-9; // the library measures from a moment between here ...
    start_hila(argc, argv, geo);
    double t1 = sim_clock_ns() * 1e-9; // ... and here
    char st = 1;
    char sk[16];
    snprintf(sk, sizeof sk, "start.%d", sim_rank());
    sim_put(sk, &st, 1);
    // what the limit must be; 0: none
    double limit = sim_param("limit", 0);
    int how = sim_param("how", 0);
    Gen g(sim_seed(), 7);
    if (how == 1)
        hila::setup_timelimit(sim_param_s("limstr", ""));
    else if (how == 2)
        hila::setup_timelimit(limit);
    else if (how == 3) // ranks pass different values: the first rank's counts
        hila::setup_timelimit(limit + 1000.0 * hila::myrank());
    if (sim_param("badlimit", 0))
        sim_violation("limit-ignored", "the time limit could not be obtained (squeue gives '%s') and the program goes on without one", sim_param_s("squeue", ""));
    {
        Field<double> f = 1;
        int n = sim_param("calls", 10);
        long step = sim_param("step", 60); // typical interval in seconds
        double maxint_lo = 0, maxint_hi = 0;
        double prev_lo = 0, prev_hi = 0; // run time at the previous call, as an interval
        bool was = false;
        bool worked = false;
        for (int i = 0; i < n; i++) {
            // the work of one interval; each rank takes its own time, the clock is advanced by rank 0
            double w = step * (0.2 + 0.01 * g.below(100));
            if (g.pct(10))
                w *= 4;
            bool jump = g.pct(10);
            long jlen = g.in(-5000, 5000);
            bool work = g.pct(50);
            bool sync = g.pct(50);
            if (hila::myrank() == 0) {
                sim_advance_clock((long long)(w * 1e9));
                if (jump)
                    sim_realtime_jump(jlen * 1000000000ll);
            }
            if (work) {
                Field<double> h;
                h[ALL] = f[X + e_x] + 1;
                f = h;
                worked = true;
            }
            if (sync)
                hila::synchronize();
            // rank 0's view of run time and signals around the call
            double a = sim_clock_ns() * 1e-9;
            long sig0 = hila::myrank() == 0 ? sim_signals(0) : 0;
            bool ans = hila::time_to_finish();
            double b = sim_clock_ns() * 1e-9;
            char key[24];
            snprintf(key, sizeof key, "ttf%d", i);
            int ia = ans;
            sim_agree(key, &ia, sizeof ia);
            nchk++;
            if (was && !ans)
                sim_violation("answer-reverted", "call %d says no after an earlier yes", i);
            if (hila::myrank() == 0) {
                // the clock read happened between a and b
                double lo = a - t1, hi = b - t0;
                long sig1 = 0;
                for (int r = 0; r < sim_nranks(); r++)
                    sig1 += sim_signals(r);
                if (sig0 && !ans)
                    sim_violation("signal-missed", "a stop signal reached rank 0 before call %d, the answer is no", i);
                if (limit > 0) {
                    double ilo = lo - prev_hi, ihi = hi - prev_lo;
                    if (ilo > maxint_lo)
                        maxint_lo = ilo;
                    if (ihi > maxint_hi)
                        maxint_hi = ihi;
                    bool must = limit - lo < maxint_lo + 120;
                    bool may = limit - hi < maxint_hi + 120;
                    // time for one more interval of the longest length must remain after a no
                    if (must && !ans)
                        sim_violation("limit-missed", "call %d at %.3f s of %.0f s says no; the longest interval was %.3f s", i, lo, limit, maxint_lo);
                    if (ans && !was && !may && !sig1)
                        sim_violation("stopped-early", "call %d at %.3f s of %.0f s says yes; the longest interval was %.3f s", i, hi, limit, maxint_hi);
                } else if (ans && !sig1)
                    sim_violation("stopped-early", "call %d says yes without a limit or a signal", i);
                prev_lo = lo;
                prev_hi = hi;
                nchk++;
            }
            was = was || ans;
        }
        if (worked && was)
            sim_count("finish.yes", 1);
    }
    sim_count("checked.entries", nchk);
    end_hila();
    return 0;
}

extern "C" void harness_post(int epoch) {
    if (sim_param("badlimit", 0))
        return; // the library ended the job, as it should
    char st = 0, sk[16];
    snprintf(sk, sizeof sk, "start.%ld", sim_param("sig_rank", 0));
    if (sim_param("sig_at", -1) >= 0 && sim_outcome() == 1 && sim_get(sk, &st, 1) != 1)
        return; // the signal came before the library had its handler in place
    char lr[8];
    if (sim_outcome() != 0 && sim_get("layout_refused", lr, sizeof lr) <= 0)
        sim_violation("abnormal-end", "the run ended abnormally (outcome %d, code %d)", sim_outcome(), sim_exit_code(0));
}

extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 1000);
    Out o(out, n);
    static const int nrs[] = {1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 8};
    int nr = nrs[g.below(11)];
    int sz[NDIM];
    choose_size(g, nr, g.pct(35), 200, sz);
    o.line("nranks=%d", nr);
    plan_size(o, sz);
    int calls = g.in(2, tier ? 40 : 20);
    o.line("calls=%d", calls);
    long step = g.pct(50) ? g.in(1, 30) : g.in(30, 4000);
    o.line("step=%ld", step);
    int how = g.below(6);
    long lim = (long)(step * calls * 0.7 * (0.1 + 0.01 * g.below(150))) + (g.pct(70) ? 120 : 0);
    if (how == 0)
        lim = 0;
    if (how > 0 && lim <= 0)
        lim = 1;
    o.line("how=%d", how);
    o.line("limit=%ld", lim);
    // the text forms of a limit; components need not be normalised
    char t[64];
    long d = 0, h = 0, m = 0, s = lim;
    int form = g.below(4);
    if (form >= 1) {
        m = g.below((int)std::min(s / 60 + 1, 100000l));
        s -= 60 * m;
    }
    if (form >= 2) {
        h = g.below((int)(m / 60 + 1));
        m -= 60 * h;
    }
    if (form >= 3) {
        d = g.below((int)(h / 24 + 1));
        h -= 24 * d;
    }
    const char *z = g.pct(50) ? "%02ld" : "%ld";
    std::string fs;
    char q[24];
    if (form == 3)
        fs += std::to_string(d) + "-";
    if (form >= 2) {
        snprintf(q, sizeof q, z, h);
        fs += std::string(q) + ":";
    }
    if (form >= 1) {
        snprintf(q, sizeof q, z, m);
        fs += std::string(q) + ":";
    }
    snprintf(q, sizeof q, z, s);
    fs += q;
    snprintf(t, sizeof t, "%s", fs.c_str());
    o.line("limstr=%s", t);
    if (how == 4)
        o.line("args=-t %s", t);
    if (how == 5) {
        o.line("args=-t slurm");
        int k = g.below(10);
        if (k == 0) {
            o.line("squeue=");
            o.line("badlimit=1");
        } else if (k == 1) {
            o.line("squeue=FAIL");
            o.line("badlimit=1");
        } else if (k == 2) {
            o.line("squeue=INVALID");
            o.line("badlimit=1");
        } else
            o.line("squeue=%s%s", t, g.pct(50) ? "   " : "");
    }
    if (g.pct(45)) {
        o.line("sig_at=%d", g.in(1, 60 * calls * (1 + nr / 2)));
        o.line("sig_rank=%d", g.pct(65) ? 0 : g.below(nr));
    }
}
