// C24: multicanonical weights: one decision for all ranks, the documented update rules, weight files.
#include "common.h"
#include "tools/multicanonical.h"
#include <cmath>
#include <algorithm>

static long nchk;
static Geo geo;

static std::string get_raw(const std::string &name, bool &there) {
    sim_faults(0);
    std::string s;
    FILE *f = fopen(name.c_str(), "r");
    there = f != nullptr;
    char b[65536];
    size_t m;
    while (f && (m = fread(b, 1, sizeof b, f)) > 0)
        s.append(b, m);
    if (f)
        fclose(f);
    sim_faults(1);
    return s;
}
static void put_raw(const std::string &name, const std::string &s) {
    sim_faults(0);
    FILE *f = fopen(name.c_str(), "w");
    if (f) {
        fwrite(s.data(), 1, s.size(), f);
        fclose(f);
    }
    sim_faults(1);
}

// ---------------------------------------------------------------- the reference
struct Ref {
    int method; // 0 direct, 1 direct with single samples, 2 smooth, 3 canonical
    bool hard, all;
    int sample, interval, min_hits, initial, max_iters;
    double C, Cmin, OC;
    std::vector<double> lim, cen, w, hist, noc;
    std::vector<long> hits, total, nsum, gsum;
    long count = 0, updates = 0;
    int nb() const { return w.size(); }
    void reset() {
        hits.assign(nb(), 0);
        total.assign(nb(), 0);
        nsum.assign(nb(), 1);
        gsum.assign(nb(), initial);
        hist.assign(nb(), 0);
        noc = w;
        count = updates = 0;
    }
    double weight(double x) const {
        if (x <= cen.front())
            return hard ? INFINITY : w.front();
        if (x >= cen.back())
            return hard ? INFINITY : w.back();
        int i = 0;
        while (cen[i + 1] < x)
            i++;
        return w[i] + (x - cen[i]) * (w[i + 1] - w[i]) / (cen[i + 1] - cen[i]);
    }
    // bin with lim[i] < x <= lim[i+1]; none outside or at the outer edges
    int bin(double x) const {
        if (x <= lim.front() || x >= lim.back())
            return -1;
        int i = 0;
        while (lim[i + 1] < x)
            i++;
        return i;
    }
    bool visited() const {
        if (!all)
            return total.front() && total.back();
        for (long t : total)
            if (!t)
                return false;
        return true;
    }
    void lower() {
        double m = w[0];
        for (double x : w)
            m = std::min(m, x);
        for (double &x : w)
            x -= m;
    }
    void tighten() {
        if (visited()) {
            total.assign(nb(), 0);
            C /= 1.5;
        }
    }
    // returns whether to continue
    bool iterate(double x) {
        int b = bin(x), N = nb();
        count++;
        switch (method) {
        case 0:
            if (b >= 0)
                hits[b]++;
            if (count >= sample) {
                for (int i = 0; i < N; i++) {
                    w[i] += C * hits[i] * N / sample;
                    total[i] += hits[i];
                    hits[i] = 0;
                }
                lower();
                count = 0;
                tighten();
            }
            return !(C < Cmin);
        case 1:
            if (b >= 0) {
                w[b] += C;
                total[b]++;
            }
            if (count % interval == 0) {
                lower();
                tighten();
            }
            return !(C < Cmin);
        case 2:
            if (b >= 0)
                for (int k = -2; k <= 2; k++)
                    if (b + k >= 0 && b + k < N)
                        hits[b + k] += 5 - 2 * std::abs(k);
            if (count >= sample) {
                long h0 = hits[0];
                for (int i = 0; i < N; i++) {
                    w[i] += C * (double)(hits[i] - h0) / N;
                    total[i] += hits[i];
                }
                hits.assign(N, 0);
                count = 0;
                tighten();
            }
            return !(C < Cmin);
        default: {
            if (b >= 0) {
                hits[b]++;
                hist[b] += std::exp(weight(x));
            }
            if (count < sample)
                return true;
            count = 0;
            std::vector<double> v = noc, h(N);
            for (int i = 0; i < N; i++) {
                h[i] = hist[i] / (lim[i + 1] - lim[i]);
                nsum[i] += hits[i];
            }
            // hep-lat/9804019 (6.12)
            for (int i = 1; i < N; i++) {
                double d = noc[i] - noc[i - 1];
                if (hits[i] >= min_hits && hits[i - 1] >= min_hits) {
                    long g = hits[i] + hits[i - 1];
                    d = (d * gsum[i] + g * std::log(h[i] / h[i - 1])) / (gsum[i] + g);
                    gsum[i] += g;
                }
                v[i] = v[i - 1] + d;
            }
            noc = w = v;
            for (int i = 0; i < N; i++)
                w[i] += OC * std::log((lim[1] - lim[0]) / (lim[i + 1] - lim[i]) * nsum[i] / nsum[0]);
            hits.assign(N, 0);
            hist.assign(N, 0);
            return ++updates <= max_iters;
        }
        }
    }
};

// a weight file: rows of limit, centre, weight; the last limit alone
enum { GOOD, BAD, UNCLEAR };
static int parse(const std::string &s, Ref &r) {
    size_t p = 0;
    bool head = false;
    std::vector<std::string> rows;
    while (p < s.size()) {
        size_t q = s.find('\n', p);
        std::string l = s.substr(p, q == std::string::npos ? std::string::npos : q - p);
        if (head)
            rows.push_back(l);
        else if (l.find("OP_value") != std::string::npos)
            head = true;
        if (q == std::string::npos)
            break;
        p = q + 1;
    }
    r.lim.clear();
    r.cen.clear();
    r.w.clear();
    if (rows.size() < 2)
        return BAD;
    int res = GOOD;
    for (size_t i = 0; i < rows.size(); i++) {
        float a, b, c;
        int n = sscanf(rows[i].c_str(), "%e\t%e\t%e", &a, &b, &c);
        if (i + 1 < rows.size()) {
            if (n != 3)
                return BAD;
            r.w.push_back(c);
        } else {
            if (n != 1)
                return BAD;
            if (rows[i].find_first_not_of("0123456789+-.e") != std::string::npos)
                res = UNCLEAR;
            char *end;
            strtod(rows[i].c_str(), &end);
            if (*end)
                res = UNCLEAR;
        }
        r.lim.push_back(a);
    }
    for (size_t i = 0; i + 1 < r.lim.size(); i++)
        r.cen.push_back((r.lim[i] + r.lim[i + 1]) / 2);
    return res;
}
static bool near(double a, double b, double tol = 1e-9) {
    if (std::isnan(a) || std::isnan(b)) // (a canonical step from beyond a hard wall, damaged files)
        return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b))
        return a == b;
    return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b));
}
static void compare(const hila::Muca &m, const Ref &r, const char *when) {
    if (hila::myrank() != 0)
        return;
    if (m.weights.size() != r.w.size() || m.OP_bin_limits.size() != r.lim.size())
        sim_violation("bins", "%s: %zu weights and %zu limits instead of %zu and %zu", when, m.weights.size(), m.OP_bin_limits.size(), r.w.size(), r.lim.size());
    for (size_t i = 0; i < r.lim.size(); i++) {
        nchk++;
        if (!near(m.OP_bin_limits[i], r.lim[i]))
            sim_violation("bins", "%s: limit %zu is %g instead of %g", when, i, m.OP_bin_limits[i], r.lim[i]);
        if (i < r.w.size() && !near(m.weights[i], r.w[i], 1e-8))
            sim_violation("weights", "%s: weight %zu of %zu is %.10g instead of %.10g", when, i, r.w.size(), m.weights[i], r.w[i]);
    }
}
static void check_file(const std::string &name, const Ref &r, const char *what) {
    bool there;
    std::string s = get_raw(name, there);
    Ref q;
    int k = there ? parse(s, q) : BAD;
    if (k != GOOD || q.w.size() != r.w.size())
        sim_violation("weight-file", "%s '%s' %s", what, name.c_str(), there ? "is damaged" : "is missing");
    double m = 0;
    for (double x : r.w)
        m = std::max(m, std::fabs(x));
    for (size_t i = 0; i < q.lim.size(); i++)
        if (!near(q.lim[i], r.lim[i], 2e-6) || (i < q.w.size() && !near(q.w[i], r.w[i], 2e-6)))
            sim_violation("weight-file", "%s '%s': row %zu is %g %g instead of %g %g", what, name.c_str(), i, q.lim[i], i < q.w.size() ? q.w[i] : 0, r.lim[i], i < q.w.size() ? r.w[i] : 0);
}

static std::string wname(int k) {
    return "weight" + std::to_string(k);
}

extern "C" int harness_main(int argc, char **argv) {
    start_hila(argc, argv, geo);
    int e = sim_epoch(), me = hila::myrank();
    Gen g(sim_seed(), 2400 + e);
    hila::seed_random(sim_seed() % 1000000 + e);
    double sum = 0, var = 0;
    long nacc = 0;
    int rounds = sim_param("rounds", 2);
    for (int round = 0; round < rounds; round++) {
        Ref r;
        static const char *mn[] = {"direct", "direct", "direct_smooth", "canonical", "something"};
        int mi = g.below(5);
        r.method = mi == 4 ? 0 : mi;
        int nb = g.in(2, 12), fc = g.below(3);
        r.hard = g.pct(30);
        double mn_ = g.in(-30, 10) / 10.0, mx_ = mn_ + g.in(1, 40) / 10.0;
        r.all = fc != 1;
        r.sample = mi == 1 ? 1 : g.in(2, 30);
        r.interval = g.in(1, 20);
        r.C = g.in(1, 50) / 100.0;
        r.Cmin = r.C * g.in(1, 9) / 10.0;
        r.initial = g.in(0, 8);
        r.min_hits = g.in(1, 6);
        r.max_iters = g.pct(30) ? g.in(1, 6) : g.in(100, 400);
        r.OC = g.in(0, 30) / 10.0;
        if (mi == 4 && r.sample == 1)
            r.method = 1;
        // the weights to start from
        int src = g.below(10);
        std::string wfile = "NONE";
        int state = GOOD;
        bool fault = sim_param("io_fail_at", -1) >= 0;
        std::string content;
        if (src < 3) { // a file by the user: bins of any width, any header
            wfile = "user" + std::to_string(round);
            content = g.pct(50) ? "made by hand\nsome text 1 2 3\n" : "";
            content += "OP_bin_limit\tOP_value\tWeight\n";
            double x = mn_;
            for (int i = 0; i < nb; i++) {
                char l[100];
                double wd = g.in(1, 20) / 16.0;
                snprintf(l, sizeof l, "%e\t%e\t%e\n", x, x + wd / 2, g.in(-100, 300) / 64.0);
                content += l;
                x += wd;
            }
            char l[100];
            snprintf(l, sizeof l, g.pct(80) ? "%e\n" : "%e", x);
            content += l;
        } else if (src < 7) { // one written before
            wfile = src == 3 ? "intermediate_weight.dat" : wname(g.below(3));
            bool there;
            content = get_raw(wfile, there);
            if (!there && !sim_param("refuse", 0))
                wfile = "NONE";
            if (!there)
                state = BAD;
        }
        bool cut = g.pct(40), own = wfile[0] == 'u';
        int cutat = g.below(100000), how = g.below(6);
        if (wfile != "NONE" && state == GOOD) {
            hila::synchronize(); // (all ranks have seen the file)
            if (cut && sim_param("refuse", 0) && !content.empty()) {
                own = true;
                wfile = "damaged" + std::to_string(round);
                size_t at = cutat % content.size();
                if (how < 4)
                    content.resize(at);
                else if (how == 4)
                    content.erase(at, 1 + cutat % 30);
                else
                    content[at] = "x\n\t9"[cutat % 4];
            }
            if (own && me == 0)
                put_raw(wfile, content);
            hila::synchronize();
            state = parse(content, r);
            // (a limit out of order has no documented meaning)
            for (size_t i = 0; i + 1 < r.lim.size(); i++)
                if (!(r.lim[i] < r.lim[i + 1]) || !std::isfinite(r.lim[i]) || !std::isfinite(r.lim[i + 1]))
                    state = UNCLEAR;
            if (state != GOOD && !sim_param("refuse", 0))
                wfile = "NONE";
        }
        if (wfile == "NONE") {
            state = GOOD;
            r.w.assign(nb, 0);
            r.lim.clear();
            r.cen.clear();
            double d = (mx_ - mn_) / (nb - 1);
            for (int i = 0; i <= nb; i++)
                r.lim.push_back(mn_ - d / 2 + d * i);
            for (int i = 0; i < nb; i++)
                r.cen.push_back((r.lim[i] + r.lim[i + 1]) / 2);
        }
        if (me == 0) {
            char b[2000];
            snprintf(b, sizeof b,
                     "weight_file_location %s\niteration_method %s\nhard_walls %s\nmax_OP %.17g\nmin_OP %.17g\nnumber_of_bins %d\niteration_visuals %s\n\n"
                     "DI_finish_condition %s\nDI_sample_size %d\nDI_single_check_interval %d\nDI_C_init %.17g\nDI_C_min %.17g\n\n"
                     "CI_sample_size %d\nCI_initial_bin_hits %d\nCI_min_bin_hits %d\nCI_max_iters %d\nCI_overcorrect_factor %.17g\nCI_overcorrect_max_iter -1\nCI_overcorrect_frequency 0\n",
                     wfile.c_str(), mn[mi], r.hard ? "YES" : "NO", mx_, mn_, nb, g.pct(20) ? "YES" : "NO", fc == 0 ? "all_visited" : fc == 1 ? "ends_visited" : "other", r.sample, r.interval, r.C,
                     r.Cmin, r.sample, r.initial, r.min_hits, r.max_iters, r.OC);
            put_raw("muca_parameters", b);
        } else
            g.pct(20);
        hila::synchronize();
        sim_note("initialise: weights %s (%s), method %s, %d bins", wfile.c_str(), state == GOOD ? "good" : state == BAD ? "bad" : "unclear", mn[mi], (int)r.w.size());
        if (state != GOOD && me == 0)
            sim_put(("bad." + std::to_string(e)).c_str(), "1", 2);
        hila::Muca m;
        bool ok = m.initialise("muca_parameters");
        char k[40];
        snprintf(k, sizeof k, "init.%d.%d", e, round);
        sim_agree(k, &ok, sizeof ok);
        if (ok && state == BAD)
            sim_violation("damaged-accepted", "a %s weight file is accepted", content.empty() ? "missing or empty" : "damaged");
        if (!ok && state == GOOD && !fault)
            sim_violation("init-failed", "a good weight file is refused");
        if (!ok || state != GOOD) {
            if (me == 0)
                sim_count("refused", 1);
            hila::synchronize();
            continue;
        }
        r.reset();
        compare(m, r, "after initialise");
        int steps = g.in(1, sim_param("ops", 60));
        double x = g.in(0, 100) / 100.0 * (r.cen.back() - r.cen.front()) + r.cen.front();
        double range = r.lim.back() - r.lim.front();
        bool ar = false, flag = true;
        for (int s = 0; s < steps; s++) {
            int op = g.below(20);
            double y;
            int how = g.below(10), ri = g.below(r.nb());
            double step = (g.in(-1000, 1000) / 1000.0) * range * (g.pct(20) ? 1.5 : 0.2);
            y = how == 0 ? r.lim[ri] : how == 1 ? r.cen[ri] : how == 2 ? (ri % 2 ? r.lim.back() : r.lim.front()) : x + step;
            snprintf(k, sizeof k, "s.%d.%d.%d", e, round, s);
            if (op < 8) {
                bool cont = m.iterate_weights(m, y);
                bool rc = r.iterate(y);
                sim_agree(k, &cont, sizeof cont);
                if (cont != rc)
                    sim_violation("iterate-status", "method %s, step %d: iteration returns %d, the rule gives %d", mn[mi], s, (int)cont, (int)rc);
                x = y;
            } else if (op < 16) {
                bool acc = m.accept_reject(x, y);
                sim_agree(k, &acc, sizeof acc);
                double lp = -(r.weight(y) - r.weight(x));
                double p = std::isnan(lp) ? 0 : lp >= 0 ? 1 : std::exp(lp);
                if (p >= 1 && !acc && lp > 1e-9)
                    sim_violation("decision", "an update which lowers the weight by %g is rejected", lp);
                if (p < 1e-13 && acc)
                    sim_violation("decision", "an update with probability %g is accepted", p);
                sum += acc - p;
                var += p * (1 - p);
                nacc++;
                if (acc)
                    x = y;
                if (ar)
                    flag = r.iterate(x);
                bool f = m.check_weight_iter_flag();
                snprintf(k, sizeof k, "f.%d.%d.%d", e, round, s);
                sim_agree(k, &f, sizeof f);
                if (f != flag)
                    sim_violation("iterate-flag", "the iteration flag is %d instead of %d", (int)f, (int)flag);
            } else if (op < 17) {
                ar = !ar;
                m.set_continuous_iteration(ar);
            } else if (op < 18) {
                flag = g.pct(50);
                m.set_weight_iter_flag(flag);
            } else if (op < 19) {
                double v = m.weight(y);
                sim_agree(k, &v, sizeof v);
                if (!near(v, r.weight(y), 1e-8))
                    sim_violation("weight", "the weight at %g is %g instead of %g", y, v, r.weight(y));
            } else {
                std::string n = wname(g.below(3));
                if (me == 0) {
                    bool w = m.write_weight_function(n);
                    sim_note("weights written to %s: %d", n.c_str(), (int)w);
                    if (w)
                        check_file(n, r, "the weight file");
                    else if (!fault)
                        sim_violation("write-failed", "writing the weights fails");
                }
            }
            compare(m, r, "after a step");
        }
        hila::synchronize();
    }
    if (var > 5 && std::fabs(sum) > 8 * std::sqrt(var) + 3)
        sim_violation("acceptance", "of %ld updates %g too many were accepted, standard deviation %g", nacc, sum, std::sqrt(var));
    if (me == 0)
        sim_count("checked.values", nchk);
    hila::synchronize();
    end_hila();
    return 0;
}

extern "C" void harness_post(int e) {
    if (layout_refused() || sim_outcome() == 0 || sim_outcome() == 2)
        return;
    char b[8];
    bool bad = sim_get(("bad." + std::to_string(e)).c_str(), b, sizeof b) > 0;
    if (sim_param("io_fail_at", -1) < 0 && !bad)
        sim_violation("abnormal-end", "a run without faults ended abnormally (outcome %d, code %d)", sim_outcome(), sim_exit_code(0));
    int f = 0;
    for (int r = 0; r < sim_nranks(); r++)
        f += sim_exit_code(r) != 0;
    if (!f)
        sim_violation("error-status", "after a failed file operation the job ends with success");
}

extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 24);
    Out o(out, n);
    static const int nrs[] = {1, 2, 2, 3, 4, 6};
    int nr = nrs[g.below(6)], ep = g.in(1, 3);
    int sz[NDIM];
    choose_size(g, nr, true, 100, sz);
    o.line("epochs=%d", ep);
    o.line("nranks=%d", nr);
    plan_size(o, sz);
    o.line("ops=%d", g.in(5, tier ? 400 : 150));
    o.line("rounds=%d", g.in(1, 3));
    int fe = g.below(ep), f = g.below(100);
    if (g.pct(50)) {
        o.line("refuse=1");
        o.line("strict=0");
    }
    if (f < 30) {
        static const char *kinds[] = {"enospc", "eio", "open", "close", "short", "eintr", "reio", "rshort"};
        o.line("strict=0");
        o.line("e%d.io_kind=%s", fe, kinds[g.below(8)]);
        o.line("e%d.io_fail_at=%d", fe, 1 + g.below(1 << g.in(1, 5)));
        o.line("e%d.io_match=weight", fe);
    } else if (f < 50)
        o.line("e%d.crash_io_at=%d", fe, 1 + g.below(1 << g.in(2, 7)));
}
