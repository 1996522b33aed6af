// C23: gauge and matter operations give the same values on any number of ranks.
// Epoch 0 runs on one rank and records every result; later epochs repeat the program on more ranks.
#include <sys/time.h>
#include "common.h"
#include "gauge/staples.h"
#include "gauge/polyakov.h"
#include "gauge/stout_smear.h"
#include "gauge/stout_smear_nch.h"
#include "gauge/sun_heatbath.h"
#include "gauge/sun_overrelax.h"
#ifdef TOPO
#include "gauge/wilson_plaquette_action.h"
#include "gauge/log_topo_supp_action.h"
#elif defined(CSF)
#include "gauge/cs_flow.h"
#else
#include "gauge/gradient_flow.h"
GradientFlowAction g_GF_action;
#endif
#include "gauge/degauss.h"
#include "gauge/wilson_line_and_force.h"
#include <cmath>
#include <array>

#ifndef NCOL
#define NCOL 2
#endif
#ifndef REAL
#define REAL double
#endif
using rl = REAL;
using grp = SU<NCOL, rl>;
using alg = Algebra<grp>;
using cvec = Vector<NCOL, Complex<rl>>;

static Geo geo;
static long nchk;
static double tol = sizeof(rl) == 4 ? 2e-3 : 1e-8;
// ---------------------------------------------------------------- results
static std::string opname;
static int opno;
static std::vector<double> flat(const double &x) {
    return {x};
}
static void cmp(const std::string &key, const double *v, size_t n, const double *r, double scale, const char *what, double t) {
    for (size_t i = 0; i < n; i++) {
        nchk++;
        if (!(std::fabs(v[i] - r[i]) <= t * scale) && !(std::isnan(v[i]) && std::isnan(r[i])))
            sim_violation("rank-dependent", "step %d, %s: %s is %.12g on %d ranks, %.12g on one", opno, opname.c_str(), what, v[i], hila::number_of_nodes(), r[i]);
    }
}
// a number; all ranks or only rank 0 must hold it
static void number(double v, const char *name, bool all, double scale = 1, double mul = 1) {
    std::string key = "n." + std::to_string(opno) + "." + name;
    if (sim_epoch() == 0) {
        sim_put(key.c_str(), (const char *)&v, sizeof v);
        return;
    }
    if (!all && hila::myrank() != 0)
        return;
    double r;
    if (sim_get(key.c_str(), (char *)&r, sizeof r) != sizeof r)
        sim_violation("harness", "no reference for %s", key.c_str());
    cmp(key, &v, 1, &r, std::fabs(r) + scale, name, tol * mul);
}
template <typename T>
static void field(const Field<T> &f, const char *name, double mul = 1, Parity par = ALL) {
    constexpr int m = sizeof(T) / sizeof(hila::arithmetic_type<T>);
    std::string key = "f." + std::to_string(opno) + "." + name;
    Geo geo;
    int sz[NDIM];
    foralldir(d) sz[d] = lattice.size(d);
    geo.set(sz);
    unsigned n = lattice->mynode.volume;
    std::vector<double> ref;
    double scale = 1e-3;
    if (sim_epoch() > 0) {
        ref.resize(geo.vol * m + 1);
        if (sim_get(key.c_str(), (char *)ref.data(), ref.size() * 8) != (long)(ref.size() * 8))
            sim_violation("harness", "no reference for %s", key.c_str());
        scale = ref.back();
    } else
        ref.assign(geo.vol * m + 1, 0);
    for (unsigned i = 0; i < n; i++) {
        long gi = geo_idx(geo, lattice->coordinates(i));
        if (!in_par(par, geo.par(gi)))
            continue;
        T v = f.get_value_at(i);
        hila::arithmetic_type<T> a[m];
        memcpy(a, &v, sizeof a);
        double d[m];
        for (int k = 0; k < m; k++) {
            d[k] = a[k];
            if (sim_epoch() == 0) {
                ref[gi * m + k] = d[k];
                scale = std::max(scale, std::fabs(d[k]));
            }
        }
        if (sim_epoch() > 0) {
            for (int k = 0; k < m; k++) {
                nchk++;
                if (!(std::fabs(d[k] - ref[gi * m + k]) <= tol * mul * scale) && !(std::isnan(d[k]) && std::isnan(ref[gi * m + k])))
                    sim_violation("rank-dependent", "step %d, %s: %s at %s (number %d) is %.12g on %d ranks, %.12g on one", opno, opname.c_str(), name, cvs(lattice->coordinates(i)).c_str(), k, d[k],
                                  hila::number_of_nodes(), ref[gi * m + k]);
            }
        }
    }
    if (sim_epoch() == 0) {
        ref.back() = scale;
        sim_put(key.c_str(), (const char *)ref.data(), ref.size() * 8);
    }
}
template <typename T>
static void field(const GaugeField<T> &f, const char *name, double mul = 1) {
    foralldir(d) field(f[d], (std::string(name) + "[" + std::to_string((int)d) + "]").c_str(), mul);
}

// ---------------------------------------------------------------- contents
static double rnd(uint64_t key, int k) {
    return (double)(Gen::mix(key * 77 + k) >> 11) / 9007199254740992.0 - 0.5;
}
static grp link(uint64_t key, double hot) {
    alg a;
    for (int k = 0; k < NCOL * NCOL - 1; k++)
        a.e(k) = hot * rnd(key, k);
    grp u = exp(a);
    u.reunitarize();
    return u;
}
static void set_links(GaugeField<grp> &U, uint64_t key, double hot) {
    foralldir(d) fill_field(geo, U[d], [&](long i) { return link(Gen::mix(key + 1000 * (int)d) + i, hot); });
}
static void set_mom(VectorField<alg> &E, uint64_t key) {
    foralldir(d) {
        E[d].check_alloc();
        for (unsigned i = 0; i < lattice->mynode.volume; i++) {
            alg a;
            uint64_t h = Gen::mix(key + 1000 * (int)d) + geo_idx(geo, lattice->coordinates(i));
            for (int k = 0; k < NCOL * NCOL - 1; k++)
                a.e(k) = rnd(h, k);
            E[d].set_value_at(a, i);
        }
        E[d].mark_changed(ALL);
    }
}
static void set_vec(Field<cvec> &v, uint64_t key) {
    v.check_alloc();
    for (unsigned i = 0; i < lattice->mynode.volume; i++) {
        cvec a;
        uint64_t h = Gen::mix(key) + geo_idx(geo, lattice->coordinates(i));
        for (int k = 0; k < NCOL; k++)
            a.e(k) = Complex<rl>(rnd(h, 2 * k), rnd(h, 2 * k + 1));
        v.set_value_at(a, i);
    }
    v.mark_changed(ALL);
}

// ---------------------------------------------------------------- molecular dynamics and a matter operator
template <typename grp, typename rl>
static void update_links(GaugeField<grp> &U, const VectorField<Algebra<grp>> &E, rl eps) {
    foralldir(d) {
        onsites(ALL) U[d][X] = exp(E[d][X] * eps) * U[d][X];
    }
}
template <typename grp>
static double kinetic(const VectorField<Algebra<grp>> &E) {
    Reduction<double> e = 0;
    e.allreduce(false).delayed(true);
    foralldir(d) {
        onsites(ALL) e += E[d][X].squarenorm();
    }
    return e.value() / 2;
}
template <typename grp, typename cvec, typename rl>
static void staggered(const GaugeField<grp> &U, const Field<cvec> &in, Field<cvec> &out, const Field<rl> (&eta)[NDIM], rl mass, rl sign, Parity par) {
    out[par] = mass * in[X];
    foralldir(d) {
        out[par] += (sign * eta[d][X] / 2) * (U[d][X] * in[X + d] - U[d][X - d].dagger() * in[X - d]);
    }
}
template <typename rl>
static void set_eta(Field<rl> (&eta)[NDIM]) {
    foralldir(d) {
        onsites(ALL) {
            int s = 0;
            CoordinateVector c = X.coordinates();
            for (int k = 0; k < (int)d; k++)
                s += c[k];
            eta[d][X] = 1 - 2 * (s % 2);
        }
    }
}
struct StagOp {
    using vector_type = cvec;
    const GaugeField<grp> &U;
    Field<rl> eta[NDIM];
    rl mass;
    Parity par = ALL;
    StagOp(const GaugeField<grp> &u, rl m) : U(u), mass(m) {
        set_eta(eta);
    }
    void apply(const Field<cvec> &in, Field<cvec> &out) {
        staggered(U, in, out, eta, mass, (rl)1, ALL);
    }
    void dagger(const Field<cvec> &in, Field<cvec> &out) {
        staggered(U, in, out, eta, mass, (rl)-1, ALL);
    }
};
#include "dirac/conjugate_gradient.h" // (hilapp wants the operator first)
template <typename cvec>
static double norm2(const Field<cvec> &v) {
    double s = 0;
    onsites(ALL) s += v[X].squarenorm();
    return s;
}
template <typename grp>
static void overrelax(GaugeField<grp> &U, const Field<grp> &st, Direction d, Parity par) {
    onsites(par) {
        suN_overrelax(U[d][X], st[X]);
    }
}
template <typename grp>
static void heatbath(GaugeField<grp> &U, const Field<grp> &st, Direction d, Parity par, double beta) {
    onsites(par) {
        suN_heatbath(U[d][X], st[X], beta);
    }
}
// how far the links are from the grp
template <typename grp>
static double deviation(const GaugeField<grp> &U) {
    double s = 0;
    foralldir(d) {
        onsites(ALL) {
            grp g = U[d][X] * U[d][X].dagger();
            g -= 1;
            s += g.squarenorm();
            auto z = det(U[d][X]);
            s += (z.re - 1) * (z.re - 1) + z.im * z.im;
        }
    }
    return s;
}

static Direction any_dir(Gen &g) {
    return Direction(g.below(NDIM));
}

extern "C" int harness_main(int argc, char **argv) {
    start_hila(argc, argv, geo);
    Gen g(sim_seed(), 2300);
    int steps = sim_param("ops", 5);
    double hot = sim_param("hot", 100) / 100.0;
    hila::seed_random(sim_seed() % 100000 + 1);
    if (sim_epoch() == 0)
        sim_put("base", "1", 1);
    char bb[8];
    if (sim_get("base", bb, sizeof bb) <= 0) { // the lattice was refused on one rank
        end_hila();
        return 0;
    }
    GaugeField<grp> U, V;
    VectorField<alg> E, K;
    Field<grp> st;
    Field<cvec> v, w;
    uint64_t fk = g.next();
    set_links(U, fk, hot);
    set_mom(E, fk + 5);
    bool random_links = false; // heatbath uses the ranks' own random streams
    double sites = geo.vol;
    Parity pars[3] = {ALL, EVEN, ODD};
    for (opno = 0; opno < steps; opno++) {
        int op = g.below(31);
        Direction d = any_dir(g);
        Parity par = geo.alleven ? pars[g.below(3)] : ALL;
        double c = g.in(1, 20) / 100.0;
        uint64_t key = g.next();
        if (random_links) {
            random_links = false;
            set_links(U, key, hot);
        }
        sim_note("step %d: op %d, deviation %g", opno, op, deviation(U));
        switch (op) {
        case 0:
            opname = "measure_plaq";
            number(U.measure_plaq(), "plaquette", false, sites);
            break;
        case 1: {
            opname = "measure_s_wplaq";
            rl mx;
            number(measure_s_wplaq(U), "action", false, sites);
#ifndef AVX
            number(measure_s_wplaq(U, mx), "action", false, sites);
            number(mx, "largest plaquette", true);
#endif
            break;
        }
        case 2:
            opname = "staplesum";
            staplesum(U, st, d, par);
            field(st, "staples", 1, par);
            break;
        case 3:
            opname = "rstaplesum";
            rstaplesum(U, st, d);
            field(st, "staples");
            break;
        case 4: {
            opname = "measure_polyakov";
            sim_races(0); // unused neighbours are read, too: safe_access(polyakov)
            auto p = measure_polyakov(U, d);
            sim_races(1);
            number(p.re, "real part", true);
            number(p.im, "imaginary part", true);
            break;
        }
#ifndef AVX // (these cannot be compiled for vectors)
        case 5:
            opname = "wplaq force";
            get_force_wplaq(U, K);
            field(K, "force");
            get_force_wplaq_add(U, K, (rl)0.5);
            field(K, "added force");
            break;
#ifdef GRADIENT_FLOW_H_
        case 6:
            opname = "clover action";
            number(measure_s_clover(U), "action", false, sites);
            get_force_clover(U, K);
            field(K, "force");
            break;
        case 7:
            opname = "improved action";
            number(measure_s_impr(U, (rl)1.5, (rl)-0.1), "action", false, sites);
            get_force_impr(U, K, (rl)1.5, (rl)-0.1);
            field(K, "force");
            break;
        case 8:
            opname = "bulk prevention action";
            if (hot <= 1) {
                number(measure_s_bp(U), "action", false, sites, 10);
                get_force_bp(U, K);
                field(K, "force", 10);
            }
            break;
        case 9:
            opname = "log plaquette action";
            if (hot <= 1) {
                number(measure_s_log_plaq(U), "action", false, sites, 10);
                get_force_log_plaq(U, K);
                field(K, "force", 10);
            }
            break;
        case 10:
            opname = "log clover action";
            if (hot <= 1) {
                number(measure_s_log(U), "action", false, sites, 10);
                get_force_log(U, K);
                field(K, "force", 10);
            }
            break;
#endif
#if NDIM == 4 && !defined(TOPO)
        case 11: {
            opname = "topological charge";
            rl q, e;
            measure_topo_charge_and_energy_clover(U, q, e);
            number(q, "clover charge", false, 1);
            number(e, "clover energy", false, sites);
            if (hot <= 1) {
                measure_topo_charge_and_energy_log(U, q, e);
                number(q, "log charge", false, 1, 10);
                number(e, "log energy", false, sites, 10);
            }
            break;
        }
#elif NDIM == 4
        case 11:
            opname = "topological suppression";
            if (hot <= 1) {
                number(measure_s_topo_supp(U), "suppression", false, sites, 10);
                get_force_topo_supp(U, K);
                field(K, "force", 10);
            }
            break;
#endif
        case 12: {
            opname = "stout_smear";
            stout_smear(U, V, (rl)c, g.in(0, 3));
            field(V, "smeared links");
            if (g.pct(50))
                U = V;
            break;
        }
        case 13: {
            opname = "stout_smear_force";
            int n = g.in(1, 2);
            std::vector<GaugeField<grp>> sl(n + 1);
            std::vector<VectorField<grp>> pl(n);
            stout_smear(U, sl, pl, (rl)c);
            get_force_wplaq(sl[n], K);
            stout_smear_force(sl, pl, K, E, (rl)c);
            field(sl[n], "smeared links");
            field(E, "force");
            break;
        }
        case 14: {
            opname = "stout_smeark_force";
            int n = g.in(1, 2);
            std::vector<GaugeField<grp>> sl(n + 1);
            std::vector<VectorField<grp>> pl(n), kl(n);
            stout_smeark(U, sl, pl, kl, (rl)c);
            get_force_wplaq(sl[n], K);
            stout_smeark_force(sl, pl, kl, K, E, (rl)c);
            field(sl[n], "smeared links");
            field(E, "force");
            break;
        }
        case 15: {
            opname = "nch_stout_smear";
            int n = g.in(1, 2);
            nch_stout_smear(U, V, (rl)c, n);
            field(V, "smeared links");
            std::vector<GaugeField<grp>> sl(n + 1);
            std::vector<VectorField<grp>> pl(n);
            nch_stout_smear(U, sl, pl, (rl)c);
            get_force_wplaq(sl[n], K);
            nch_stout_smear_force(sl, pl, K, E, (rl)c);
            field(E, "force", 10);
            break;
        }
#endif
        case 16: {
            opname = "wilson line";
            std::vector<Direction> path;
            int n = g.in(2, 6);
            for (int i = 0; i < n; i++)
                path.push_back(Direction(g.below(NDIRS)));
            get_wilson_line(U, path, st);
            field(st, "line");
            break;
        }
#ifndef AVX // (these cannot be compiled for vectors)
        case 17: {
            opname = "wilson loop force";
            Direction d2 = Direction((d + 1 + g.below(NDIM - 1)) % NDIM);
            int a = g.in(1, 2), b = g.in(1, 2);
            std::vector<Direction> path;
            for (int i = 0; i < a; i++)
                path.push_back(d);
            for (int i = 0; i < b; i++)
                path.push_back(d2);
            for (int i = 0; i < a; i++)
                path.push_back(-d);
            for (int i = 0; i < b; i++)
                path.push_back(-d2);
            get_wloop_force(U, path, (rl)1, K);
            field(K, "force");
            get_wilson_line(U, path, st);
            get_wloop_force_from_wl(U, path, st, (rl)1, K);
            field(K, "force from line");
            break;
        }
#ifdef GRADIENT_FLOW_H_
        case 18: {
            opname = "gradient flow";
            int act = g.below(7);
            static const GradientFlowAction fa[] = {GradientFlowAction::Wilson,  GradientFlowAction::Bulk_Prevention, GradientFlowAction::Luscher_Weisz, GradientFlowAction::Iwasaki,
                                                    GradientFlowAction::DBW2,    GradientFlowAction::Log_Plaq,        GradientFlowAction::Zeuthen};
            if (hot > 1 && (act == 1 || act == 5))
                act = 0;
            if (NDIM != 4)
                act %= 3;
            g_GF_action = fa[act];
            opname += " " + std::to_string(act);
            V = U;
            rl l1 = g.pct(50) ? 0 : 0.3, l2 = l1 + 0.1f * g.in(1, 4);
            rl t = do_gradient_flow_adapt(V, l1, l2, (rl)1e-4, (rl)1e-3, (rl)(g.pct(50) ? 0 : 0.01));
            number(t, "time step", true, 0.01, 100);
            field(V, "flowed links", 100);
            number(measure_gf_s(V), "action", false, sites, 100);
            number(measure_dE_wplaq_dt(V), "slope", false, sites, 100);
            break;
        }
#endif
        case 19: {
            opname = "degauss";
            if (NDIM > 3)
                break; // (made for space: does not converge in four dimensions)
            field(E, "momenta before");
            int n = degauss(U, E, 1e-3);
            number(n, "iterations", true);
            field(E, "momenta");
            break;
        }
        case 20: {
            opname = "molecular dynamics";
            rl eps = 0.02;
            int n = g.in(1, 4);
            for (int i = 0; i < n; i++) {
                update_links(U, E, eps / 2);
                get_force_wplaq_add(U, E, eps * 2);
                update_links(U, E, eps / 2);
            }
            U.reunitarize_gauge();
            field(U, "links");
            field(E, "momenta");
            number(kinetic<grp>(E), "kinetic energy", false, sites);
            break;
        }
        case 21:
        case 22: {
            opname = "overrelaxation";
            if (!geo.alleven)
                break; // (even and odd sites need even sizes)
            for (Parity p : {EVEN, ODD}) {
                foralldir(dd) {
                    staplesum(U, st, dd, p);
                    overrelax(U, st, dd, p);
                }
            }
            number(deviation(U), "deviation", true, sites, 10);
            field(U, "links", 10);
            break;
        }
        case 23: {
            opname = "heatbath";
            if (!geo.alleven)
                break;
            double beta = g.in(1, 80) / 10.0;
            for (Parity p : {EVEN, ODD}) {
                foralldir(dd) {
                    staplesum(U, st, dd, p);
                    heatbath(U, st, dd, p, beta);
                }
            }
            double x = deviation(U);
            if (!(x < tol * sites * 10))
                sim_violation("not-unitary", "after a heatbath sweep the links are off the grp by %g", x);
            double pl = U.measure_plaq() / (sites * NDIM * (NDIM - 1) / 2);
            if (hila::myrank() == 0 && !(pl >= 0 && pl <= 2))
                sim_violation("plaquette", "the plaquette is %g after a heatbath sweep", pl);
            random_links = true;
            break;
        }
#endif
        case 24:
        case 25: {
            opname = "conjugate gradient";
            set_vec(v, key);
            w = v;
            if (!geo.alleven)
                break; // (the operator needs an even lattice)
            StagOp M(U, (rl)(g.in(3, 20) / 10.0));
            CG<StagOp> cg(M, sizeof(rl) == 4 ? 1e-4 : 1e-10, 500);
            if (g.pct(50))
                w = 0;
            cg.apply(v, w);
            field(w, "solution", 10);
            Field<cvec> a, b;
            M.apply(w, a);
            M.dagger(a, b);
            b[ALL] = b[X] - v[X];
            double res = std::sqrt(norm2(b) / norm2(v));
            if (!(res < (sizeof(rl) == 4 ? 1e-3 : 1e-9)))
                sim_violation("not-solved", "conjugate gradient leaves a relative residual of %g", res);
            break;
        }
        case 26: {
            opname = "weighted staplesum";
            plaqw_t<rl> pw;
            foralldir(d1) foralldir(d2) fill_field(geo, pw[d1][d2], [&](long i) { return (rl)(1 + rnd(key + i, 0)); });
            staplesum(U, st, d, pw, par);
            field(st, "staples", 1, par);
            break;
        }
#ifndef AVX // (these cannot be compiled for vectors)
#ifdef CS_FLOW_H_
        case 27: {
            opname = "constant action flow";
            if (hot > 1)
                break;
            V = U;
            VectorField<alg> F;
            F = E;
            rl t = do_cs_flow_adapt(V, F, (rl)0.05, (rl)1e-3, (rl)1e-3, (rl)0.01);
            number(t, "time step", true, 0.01, 1000);
            field(V, "links", 1000);
            break;
        }
#endif
#endif
        case 28:
            opname = "new links";
            set_links(U, key, hot);
            set_mom(E, key + 5);
            break;
        case 29: {
            opname = "blocking of links";
            CoordinateVector f;
            foralldir(dd) f[dd] = (geo.n[dd] % 2 == 0 && g.pct(70)) ? 2 : 1;
            int how = g.below(3);
            if (!lattice.can_block(f) || f.squarenorm() == NDIM)
                break;
            V = U;
            opname = "blocking of links (done)";
            lattice.block(f);
            GaugeField<grp> B;
            if (how == 0)
                B.block_gauge(U);
            else {
                B = std::move(V);
                B.block_gauge_to_current_lattice();
            }
            field(B, "long links");
            number(measure_s_wplaq(B), "action of the long links", false, lattice.volume());
            if (sim_epoch() == 0) { // all sites are on this rank
                lattice_struct *bl = lattice.ptr(), *pl = bl->parent;
                foralldir(dd) for (unsigned i = 0; i < bl->mynode.volume; i++) {
                    CoordinateVector c = bl->coordinates(i), c2;
                    foralldir(k) c[k] *= f[k];
                    c2 = c;
                    c2[dd] = (c2[dd] + 1) % geo.n[dd];
                    grp want = U[dd].get_value_at(pl->site_index(c));
                    if (f[dd] == 2)
                        want *= U[dd].get_value_at(pl->site_index(c2));
                    grp got = B[dd].get_value_at(i);
                    if (!((want - got).squarenorm() < 1e-8))
                        sim_violation("long-link", "the blocked link to %d at %s is not the product of the links", (int)dd, cvs(c).c_str());
                }
            }
            lattice.unblock();
            V = U;
            if (how < 2) {
                B.unblock_gauge(V);
                field(V, "links overwritten at the corners");
            }
            break;
        }
        default:
            opname = "flow measurements";
#ifndef AVX // (these cannot be compiled for vectors)
#ifdef GRADIENT_FLOW_H_
            number(measure_gf_s(U), "action", false, sites, 10);
            if (g.pct(50))
                measure_gradient_flow_stuff(U, (rl)0.3, (rl)0.01);
#endif
#endif
            break;
        }
        if (hila::myrank() == 0 && sim_epoch() > 0)
            sim_count(("op." + opname).c_str(), 1);
        if (g.pct(30) && !random_links)
            field(U, "links at the end of the step");
    }
    if (hila::myrank() == 0)
        sim_count("checked.values", nchk);
    hila::synchronize();
    end_hila();
    return 0;
}

static int max_ops(int tier) {
#ifdef OPENMP
    return 3;
#else
    return tier ? 12 : 6;
#endif
}

extern "C" void harness_plan(uint64_t seed, int tier, char *out, size_t n) {
    Gen g(seed, 23);
    Out o(out, n);
    int ep = g.in(2, 3);
    o.line("epochs=%d", ep);
    static const int nrs[] = {2, 2, 3, 4, 4, 6, 8};
    int k1 = nrs[g.below(7)], k2 = nrs[g.below(7)];
    int sz[NDIM];
#ifdef OPENMP
    k1 = 1 + k1 % 4; // every memory access costs
    k2 = k1;
    const int vol = 48;
#else
    const int vol = tier ? 600 : NDIM == 4 ? 260 : 120;
#endif
    choose_size(g, k1 * k2 <= 16 ? k1 * k2 : k1, g.pct(70), vol, sz);
    o.line("nranks=1");
    o.line("e1.nranks=%d", k1);
    if (ep > 2)
        o.line("e2.nranks=%d", k2);
    plan_size(o, sz);
    o.line("ops=%d", g.in(2, max_ops(tier)));
    static const int hs[] = {20, 50, 100, 400};
    o.line("hot=%d", hs[g.below(4)]);
}
