#!/usr/bin/env python3
"""check.py <property> [--thorough] [--time S]     run a check
   check.py --replay FILE [--trace]                 run a replay file
   check.py --all [--thorough]                      every check, one after the other
Exit 0: the property held on everything explored.  Exit 1: a VIOLATION line was printed.
Exit 2: no answer (build failure or simulator trouble)."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import concurrent.futures as cf

import vbuild
from vbuild import VERIF
import props

EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def log(s):
    print("# " + s, flush=True)


def run_sim(exe, so, args, timeout=900):
    p = subprocess.run([exe, "--so", so] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    out = []
    for ln in p.stdout.decode("utf8", "replace").splitlines():
        if ln.startswith("{"):
            try:
                out.append(json.loads(ln))
            except ValueError:
                pass
    return p.returncode, out, p.stderr.decode("utf8", "replace"), p.stdout


class Spec:
    def __init__(self, seed, plan, decisions=None):
        self.seed, self.plan, self.decisions = seed, dict(plan), decisions

    def text(self):
        s = "seed=%d\n" % self.seed
        if self.decisions is not None:
            s += "decisions=%s\n" % self.decisions
        for k in sorted(self.plan):
            s += "%s=%s\n" % (k, self.plan[k])
        return s


def parse_plan(t):
    d = {}
    for ln in t.splitlines():
        if "=" in ln and not ln.startswith("#"):
            k, v = ln.split("=", 1)
            d[k] = v
    return d


def run_spec(exe, so, spec, extra=()):
    with tempfile.NamedTemporaryFile("w", suffix=".spec", delete=False) as f:
        f.write(spec.text())
        fn = f.name
    try:
        rc, out, err, raw = run_sim(exe, so, ["--spec", fn] + list(extra), timeout=300)
    finally:
        os.unlink(fn)
    for o in out:
        if o.get("type") in ("violation", "ok", "internal"):
            return o
    return {"type": "internal", "cls": "", "msg": "no result (rc %s) %s" % (rc, err[-300:])}


def minimise(exe, so, spec, cls, prop, limit=40.0):
    """smaller plan first, then a smaller schedule; every step is a full deterministic run"""
    t0 = time.time()
    tries = [0]

    def fails(sp):
        if time.time() - t0 > limit or tries[0] > 400:
            return None
        tries[0] += 1
        o = run_spec(exe, so, sp)
        return o if o["type"] == "violation" and o["cls"] == cls else None

    best = spec
    simple = {"pol": ["1", "0"], "skewms": ["0"], "eager": ["100", "0"], "redorder": ["0"], "starve": ["0"]}
    # faults off, as far as the failure allows
    for k in [k for k in best.plan if re.match(r"(e\d+\.)?(io_fail_at|crash_at|crash_io_at|sig_at)$", k)]:
        p = dict(best.plan)
        del p[k]
        if fails(Spec(best.seed, p)):
            best = Spec(best.seed, p)
    for k, how in prop.edits.items():
        if k not in best.plan:
            continue
        if how == "lower":
            lo, hi = 0, int(best.plan[k])
            while lo < hi:
                mid = (lo + hi) // 2
                if fails(Spec(best.seed, dict(best.plan, **{k: str(mid)}))):
                    hi = mid
                else:
                    lo = mid + 1
            if str(hi) != best.plan[k] and fails(Spec(best.seed, dict(best.plan, **{k: str(hi)}))):
                best = Spec(best.seed, dict(best.plan, **{k: str(hi)}))
        elif isinstance(how, list):
            for v in how:
                if best.plan[k] != str(v) and fails(Spec(best.seed, dict(best.plan, **{k: str(v)}))):
                    best = Spec(best.seed, dict(best.plan, **{k: str(v)}))
                    break
    for k, vs in simple.items():
        if k in best.plan:
            for v in vs:
                if best.plan[k] != v and fails(Spec(best.seed, dict(best.plan, **{k: v}))):
                    best = Spec(best.seed, dict(best.plan, **{k: v}))
                    break
    # the schedule: explicit decisions, shortest failing prefix (0 = keep running the same rank), then blocks of zeros
    o = run_spec(exe, so, best)
    if o["type"] != "violation" or "decisions" not in o:
        return best, o, tries[0]
    dec = expand(o["decisions"])
    nd0 = len(dec)
    withdec = Spec(best.seed, best.plan, pack(dec))
    ok = fails(withdec)
    if not ok:
        return best, o, tries[0]
    best, res = withdec, ok
    lo, hi = 0, len(dec)
    while lo < hi:
        mid = (lo + hi) // 2
        r = fails(Spec(best.seed, best.plan, pack(dec[:mid])))
        if r:
            hi = mid
        else:
            lo = mid + 1
    r = fails(Spec(best.seed, best.plan, pack(dec[:hi])))
    if r:
        dec = dec[:hi]
        best, res = Spec(best.seed, best.plan, pack(dec)), r
    size = max(1, len(dec) // 2)
    while size >= 1 and time.time() - t0 < limit and dec:
        i = 0
        while i < len(dec):
            if any(dec[i:i + size]):
                d2 = dec[:i] + [0] * len(dec[i:i + size]) + dec[i + size:]
                r = fails(Spec(best.seed, best.plan, pack(d2)))
                if r:
                    dec = d2
                    best, res = Spec(best.seed, best.plan, pack(dec)), r
            i += size
        if size == 1:
            break
        size = max(1, size // 4)
    while dec and dec[-1] == 0:
        dec.pop()
    r = fails(Spec(best.seed, best.plan, pack(dec)))
    if r:
        best, res = Spec(best.seed, best.plan, pack(dec)), r
    res["minimised_from"] = nd0
    res["minimised_to"] = sum(1 for x in dec if x)
    return best, res, tries[0]


def expand(s):
    out = []
    for t in s.split(","):
        if not t:
            continue
        if "x" in t:
            v, n = t.split("x")
            out += [int(v)] * int(n)
        else:
            out.append(int(t))
    return out


def pack(d):
    out = []
    i = 0
    while i < len(d):
        j = i
        while j < len(d) and d[j] == d[i]:
            j += 1
        out.append("%dx%d" % (d[i], j - i) if j - i > 1 else str(d[i]))
        i = j
    return ",".join(out) if out else "0"


def known_findings():
    """lines: KNOWN property=<id> class=<class> [match=<regex over the message>] :: text
              fixed: property=<id> <commit> <text>        (suppresses nothing)"""
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r"KNOWN property=(\S+) class=(\S+)(?: match=/(.*)/)? :: (.*)", ln.strip())
            if m:
                out.append((m.group(1), m.group(2), re.compile(m.group(3)) if m.group(3) else None, m.group(4)))
    return out


def is_known(pid, v, known):
    for p, c, rx, text in known:
        if p == pid and c == v["cls"] and (rx is None or rx.search(v["msg"])):
            return text
    return None


def run_check(pid, tier, tlimit=None):
    prop = props.P[pid]
    t_start = time.time()
    vseed = int(os.environ.get("VERIF_SEED", "1") or "1")
    budget = tlimit if tlimit else (prop.thorough if tier == "thorough" else prop.quick)
    os.makedirs(EVID, exist_ok=True)
    evid_file = os.path.join(EVID, pid + ".json")
    try:
        exe = vbuild.build_sim(log)
        variants = {t.variant.name: t.variant for t in prop.tasks}
        sos = vbuild.build_variants(list(variants.values()), log)
    except (vbuild.BuildError, subprocess.TimeoutExpired) as e:
        print("ERROR build failed: %s" % e)
        return 2
    t_build = time.time() - t_start
    # slots: NCPU workers shared by the tasks according to weight
    ncpu = vbuild.NCPU
    tot = sum(t.weight for t in prop.tasks)
    nslots = max(ncpu, len(prop.tasks))
    nslots = (nslots + ncpu - 1) // ncpu * ncpu
    alloc = [max(1, int(nslots * t.weight / tot)) for t in prop.tasks]
    while sum(alloc) > nslots and max(alloc) > 1:
        alloc[alloc.index(max(alloc))] -= 1
    i = 0
    while sum(alloc) < nslots:
        alloc[i % len(alloc)] += 1
        i += 1
    rounds = max(1, -(-sum(alloc) // ncpu))
    per = budget / rounds
    jobs = []
    tmpd = tempfile.mkdtemp(prefix="hilasim-check-")
    for ti, (t, n) in enumerate(zip(prop.tasks, alloc)):
        for k in range(n):
            # disjoint seed stripes; VERIF_SEED shifts the whole range
            first = 1 + k + (vseed - 1) * 1000000007
            jobs.append((t, ["--scenario", t.scenario, "--first", str(first), "--step", str(n), "--time", "%.1f" % per,
                             "--tier", "1" if tier == "thorough" else "0", "--twice", "40", "--maxviol", "40",
                             "--hashes", os.path.join(tmpd, "h%d_%d" % (ti, k))]))
    results = []
    with cf.ThreadPoolExecutor(ncpu) as ex:
        futs = {ex.submit(run_sim, exe, sos[t.variant.name], a, per + 600): t for t, a in jobs}
        for f in cf.as_completed(futs):
            t = futs[f]
            try:
                rc, out, err, raw = f.result()
            except subprocess.TimeoutExpired:
                print("ERROR a simulator worker did not end")
                shutil.rmtree(tmpd, ignore_errors=True)
                return 2
            if rc != 0 or not any(o["type"] == "stats" for o in out):
                print("ERROR simulator worker failed rc=%s %s %s" % (rc, err[-500:], raw[-300:]))
                shutil.rmtree(tmpd, ignore_errors=True)
                return 2
            results.append((t, out))
    t_search = time.time() - t_start - t_build
    hashes = set()
    for fn in os.listdir(tmpd):
        data = open(os.path.join(tmpd, fn), "rb").read()
        ti = fn.split("_")[0]
        for o in range(0, len(data), 8):
            hashes.add((ti, data[o:o + 8]))
    shutil.rmtree(tmpd, ignore_errors=True)
    agg = {"runs": 0, "events": 0, "steps": 0, "switches": 0, "sim_s": 0.0, "distinct_states": 0, "twice": 0, "nondet": 0}
    counters, classes, samples, viols, internal = {}, {}, [], [], []
    for t, out in results:
        for o in out:
            if o["type"] == "stats":
                for k in agg:
                    agg[k] += o[k]
                for k, v in o["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                for k, v in o["classes"].items():
                    classes[k] = classes.get(k, 0) + v
                if len(samples) < 4:
                    samples.append({"build": t.variant.name, "scenario": t.scenario, "plan": o["sample"].replace("\n", " ").strip()})
            elif o["type"] == "violation":
                viols.append((t, o))
            elif o["type"] in ("internal", "nondet"):
                internal.append((t, o))
    rc = 0
    nviol = 0
    known = known_findings()
    if internal:
        print("ERROR simulator trouble: %s" % json.dumps(internal[0][1])[:1500])
        rc = 2
    groups = {}
    for t, v in viols:
        kt = is_known(pid, v, known)
        groups.setdefault((v["cls"], kt), []).append((t, v))
    printed_known = set()
    new_reported = 0
    for (cls, ktext), lst in sorted(groups.items(), key=lambda kv: (kv[0][0], str(kv[0][1]))):
        lst.sort(key=lambda tv: (tv[1]["ndec"], tv[1]["seed"]))
        t, v = lst[0]
        so = sos[t.variant.name]
        if ktext is not None:
            if ktext not in printed_known:
                printed_known.add(ktext)
                print("KNOWN-FINDING: property=%s %s" % (pid, ktext))
            continue
        spec = Spec(v["seed"], parse_plan(v["plan"]))
        a, b = run_spec(exe, so, spec), run_spec(exe, so, spec)
        if not (a["type"] == b["type"] == "violation" and a["cls"] == b["cls"] == cls and a["hash"] == b["hash"] == v["hash"]):
            print("ERROR not reproducible: %s seed %d: %s / %s" % (cls, v["seed"], json.dumps(a)[:400], json.dumps(b)[:400]))
            rc = 2
            continue
        best, res, tries = minimise(exe, so, spec, cls, prop, 40.0 if new_reported < 2 else 8.0)
        # what remains must fail again, twice, as written to the file
        os.makedirs(REPLAYS, exist_ok=True)
        tag = hashlib.sha256((pid + cls + best.text()).encode()).hexdigest()[:10]
        path = os.path.join(REPLAYS, "%s-%s.replay" % (pid, tag))
        head = ("# property=%s variant=%s scenario=%s class=%s\n# %s\n# reproduce: python3 %s/check.py --replay %s\n"
                % (pid, t.variant.name, t.scenario, cls, res.get("msg", v["msg"]).replace("\n", " "), VERIF, path))
        with open(path, "w") as f:
            f.write(head + best.text() + "#hash=%s\n" % res.get("hash", ""))
        r2 = run_spec(exe, so, best)
        if r2["type"] != "violation" or r2["cls"] != cls or r2["hash"] != res.get("hash"):
            print("ERROR minimised replay does not reproduce (%s)" % path)
            rc = 2
            continue
        nviol += 1
        new_reported += 1
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  class %s, build %s, seed %d, found %d time(s): %s" % (cls, t.variant.name, v["seed"], len(lst), res["msg"]))
        if "minimised_from" in res:
            print("  schedule minimised from %d to %d non-default decisions in %d runs" % (res["minimised_from"], res["minimised_to"], tries))
        rc = max(rc, 1) if rc != 2 else 2
    if nviol:
        rc = 1
    faults = {k[6:]: v for k, v in counters.items() if k.startswith("fault.")}
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(hashes),
        "rule": prop.rule,
        "samples": samples,
        "simulated_runs": agg["runs"],
        "seeds_per_hour": int(agg["runs"] / max(t_search, 0.001) * 3600),
        "events": agg["events"], "scheduler_steps": agg["steps"], "context_switches": agg["switches"],
        "simulated_seconds": round(agg["sim_s"], 3),
        "faults_injected": faults,
        "network": {k[4:]: v for k, v in counters.items() if k.startswith("net.")},
        "checks_made": {k: v for k, v in counters.items() if not k.startswith(("fault.", "net."))},
        "distinct_states": agg["distinct_states"],
        "distinct_measure": "distinct hashes of the full event sequence of a run (rank, call, arguments, deliveries, faults)",
        "determinism_reruns": agg["twice"], "determinism_mismatches": agg["nondet"],
        "real_components": props.REAL, "stubbed_components": props.STUB,
        "builds": sorted(variants),
        "violation_classes": classes,
        "build_s": round(t_build, 1), "search_s": round(t_search, 1),
    }
    ev = {"property": pid, "tier": tier, "seed": vseed, "level": prop.level, "coverage": cov,
          "assumptions": prop.assumptions, "wall_s": round(time.time() - t_start, 1), "violations": nviol}
    with open(evid_file, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    log("%s %s: %d runs, %d distinct, %d events, %d rank switches, faults %s, %d reruns identical, %.0f s build, %.0f s search"
        % (pid, tier, agg["runs"], len(hashes), agg["events"], agg["switches"], faults, agg["twice"], t_build, t_search))
    if rc == 0 and agg["runs"] == 0:
        print("ERROR nothing was run")
        rc = 2
    return rc


def do_replay(path, extra):
    txt = open(path).read()
    m = re.search(r"# property=(\S+) variant=(\S+) scenario=(\S+) class=(\S+)", txt)
    prop = props.P[m.group(1)]
    v = [t.variant for t in prop.tasks if t.variant.name == m.group(2)][0]
    exe = vbuild.build_sim(log)
    so = vbuild.build_variants([v], log)[v.name]
    rc, out, err, raw = run_sim(exe, so, ["--spec", path] + extra)
    sys.stdout.write(raw.decode("utf8", "replace"))
    h = re.search(r"#hash=(\S*)", txt)
    for o in out:
        if o["type"] == "violation":
            same = h and h.group(1) == o["hash"]
            print("VIOLATION property=%s replay=%s" % (m.group(1), path))
            print("  identical execution" if same else "  the execution differs from the recorded one (the code changed)")
            return 1
        if o["type"] == "ok":
            print("the recorded run no longer violates the property")
            return 0
    return 2


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 64
    if a[0] == "--replay":
        return do_replay(a[1], a[2:])
    tier = "thorough" if "--thorough" in a or (os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in a) else "quick"
    tl = float(a[a.index("--time") + 1]) if "--time" in a else None
    if a[0] == "--all":
        rc = 0
        for pid in sorted(props.P):
            r = run_check(pid, tier, tl)
            print("== %s exit %d" % (pid, r), flush=True)
            rc = max(rc, r)
        return rc
    if a[0] == "--setup":
        vbuild.build_sim(log)
        return 0
    return run_check(a[0], tier, tl)


if __name__ == "__main__":
    sys.exit(main())
