#!/usr/bin/env python3
"""Driver of one property's check: build the simulation binaries from /repo's working tree, search seeds,
confirm / minimise / replay a violation, write the evidence file.
  check.py --prop C01 [--tier quick|thorough] [--time SECONDS] [--seed N]
  check.py --replay FILE          replay a recorded violation against /repo's working tree
"""
import argparse, json, os, subprocess, sys, time, tempfile, struct, signal, shutil
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build
from props_cfg import PROPS, ASSUMPTIONS

def sh(cmd, timeout=None, env=None):
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, start_new_session=True)
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate(); return -9, ""
def jlines(out):
    r = []
    for l in out.splitlines():
        if l.startswith("{"):
            try: r.append(json.loads(l))
            except ValueError: pass
    return r
def load_findings(prop):
    known, fixed = [], []
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        l = l.strip()
        if l.startswith("known: property=%s " % prop): known.append(l[len("known: property=%s " % prop):])
        elif l.startswith("fixed: property=%s " % prop): fixed.append(l[len("fixed: property=%s " % prop):])
    return known, fixed

def do_replay(path):
    meta = {}
    for l in open(path):
        w = l.split()
        if len(w) == 2 and w[0] in ("harness", "variant", "property"): meta[w[0]] = w[1]
    b = build.target(meta["harness"], meta["variant"])
    rc, out = sh([b, "--replay", path], 300); js = jlines(out)
    if not js: print(out); return 2
    r = js[-1]
    print("status %s kind %s (recorded %s) hash %s (recorded %s)" % (r["status"], r["kind"], r["expected_kind"], r["hash"], r["expected_hash"]))
    print(r["msg"])
    if r["status"] == 2:
        print("VIOLATION property=%s replay=%s" % (meta.get("property", "?"), path)); return 1
    return 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--time", type=float)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1)); ap.add_argument("--replay"); ap.add_argument("--scenario"); ap.add_argument("--workers", type=int, default=8)
    a = ap.parse_args()
    if a.replay: return do_replay(os.path.abspath(a.replay))
    prop = a.prop; cfg = PROPS[prop]; t0 = time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    targets = cfg["targets"] + (cfg.get("thorough_targets", []) if tier == "thorough" else [])
    tlim = a.time or (cfg.get("thorough_s", 600) if tier == "thorough" else cfg.get("quick_s", 20))
    known, fixed = load_findings(prop)
    try: bins = build.build_all([(h, v) for h, v, _ in targets])
    except build.BuildError as e:
        print("BUILD FAILED (no verdict)\n" + str(e)[:6000]); return 2
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="sim-%s-" % prop, dir=build.BUILD)
    try: return explore(a, prop, cfg, tier, targets, tlim, known, bins, tb, tmp, t0)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def base_seed(seed, k): return (seed & 0xffffffff) * 64 + k

def explore(a, prop, cfg, tier, targets, tlim, known, bins, tb, tmp, t0):
    kf = os.path.join(tmp, "known")
    with open(kf, "w") as f:
        for k in known: f.write(k.split()[0].replace("key=", "") + "\n")
    env = dict(os.environ); env.pop("SIM_STDERR", None); env.pop("SIM_NORACE", None)
    # ---- determinism: the same seeds in different processes, positions and environments give identical event logs
    det_n = 200 if tier == "thorough" else 16; det_bad = []; det_done = 0
    dprocs = []
    for k, (h, v, _) in enumerate(targets):
        b = bins[(h, v)]; bs = str(base_seed(a.seed, k))
        e2 = dict(env); e2["SIM_PERTURB"] = "x" * 777; e2.update({"SIM_PERTURB_%d" % i: "" for i in range(37)})
        A = subprocess.Popen([b, "--seed", bs, "--from", "0", "--count", str(det_n), "--hashes", "--time", "60", "--known", kf], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
        B = subprocess.Popen([b, "--seed", bs, "--from", str(det_n // 2), "--count", str(det_n - det_n // 2), "--hashes", "--time", "60", "--known", kf], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=e2, cwd="/")
        dprocs.append((h, v, A, B))
    for h, v, A, B in dprocs:
        ra = {j["h"]: (j["hash"], j["steps"], j["st"]) for j in jlines(A.communicate()[0]) if "h" in j}
        rb = {j["h"]: (j["hash"], j["steps"], j["st"]) for j in jlines(B.communicate()[0]) if "h" in j}
        for i in rb:
            if i in ra:
                det_done += 1
                if ra[i] != rb[i]: det_bad.append("%s/%s index %d: %s vs %s" % (h, v, i, ra[i], rb[i]))
    # ---- exploration: W worker processes, disjoint seed indices
    W = a.workers; tot = sum(w for _, _, w in targets); procs = []
    shares = [max(1, round(W * w / tot)) for _, _, w in targets]
    while sum(shares) > max(W, len(targets)): shares[shares.index(max(shares))] -= 1
    while sum(shares) < W: shares[max(range(len(targets)), key=lambda i: targets[i][2] / shares[i])] += 1
    te = time.time()
    for k, (h, v, _) in enumerate(targets):
        for s in range(shares[k]):
            ho = os.path.join(tmp, "h-%d-%d" % (k, s)); of = open(os.path.join(tmp, "o-%d-%d" % (k, s)), "w+")
            cmd = [bins[(h, v)], "--seed", str(base_seed(a.seed, k)), "--from", str(s), "--stride", str(shares[k]), "--time", str(tlim), "--known", kf, "--hashout", ho]
            if a.scenario: cmd += ["--scenario", a.scenario]
            procs.append([subprocess.Popen(cmd, stdout=of, stderr=subprocess.DEVNULL, env=env, start_new_session=True), of, ho, h, v, k, None])
    viol = None; deadline = te + tlim + 180
    while True:
        alive = False
        for p in procs:
            if p[6] is None:
                rc = p[0].poll()
                if rc is None: alive = True
                else:
                    p[6] = rc
                    if rc == 1 and viol is None:
                        p[1].seek(0); vs = [j for j in jlines(p[1].read()) if j.get("violation")]
                        if vs: viol = (vs[0], p)
        if viol is not None or not alive or time.time() > deadline: break
        time.sleep(0.05)
    if viol is not None:                                       # let the others flush their summaries briefly? they are killed: evidence keeps finished ones
        pass
    for p in procs:
        if p[6] is None:
            try: os.killpg(p[0].pid, signal.SIGKILL)
            except OSError: pass
            p[0].wait(); p[6] = -9
    ex_wall = time.time() - te
    agg = {"runs": 0, "ok": 0, "inconclusive": 0, "steps": 0, "sim_ns": 0, "switches": 0, "allocs": 0, "pairs": 0, "states": 0, "max_threads": 0}
    faults, frun, probes, scen, kn, inc = {}, {}, {}, {}, {}, set(); distinct = set(); bad_workers = []; pairs_max = 0; states_max = 0
    pervar = {}
    for p in procs:
        p[1].seek(0); js = jlines(p[1].read()); p[1].close(); sm = [j for j in js if j.get("summary")]
        if not sm:
            if viol is None: bad_workers.append("%s/%s exit %s" % (p[3], p[4], p[6]))
            continue
        s = sm[0]
        for k in ("runs", "ok", "inconclusive", "steps", "sim_ns", "switches", "allocs"): agg[k] += s[k]
        pairs_max = max(pairs_max, s["pairs"]); states_max = max(states_max, s["states"]); agg["max_threads"] = max(agg["max_threads"], s["max_threads"])
        if s["inconclusive_last"]: inc.add(s["inconclusive_last"])
        for k, (x, y) in s["faults"].items(): faults[k] = faults.get(k, 0) + x; frun[k] = frun.get(k, 0) + y
        for k, x in s["probes"].items(): probes[k] = probes.get(k, 0) + x
        for k, x in s["known"].items(): kn[k] = kn.get(k, 0) + x
        for k, (x, y) in s["scenarios"].items(): c = scen.setdefault("%s/%s" % (p[4], k), [0, 0]); c[0] += x; c[1] += y
        pv = pervar.setdefault(p[3] + ":" + p[4], 0); pervar[p[3] + ":" + p[4]] = pv + s["runs"]
        try:
            d = open(p[2], "rb").read()
            for i in range(0, len(d) - 15, 16):
                hh, sw = struct.unpack_from("<QQ", d, i)
                if sw > 0: distinct.add((p[5], hh))
        except OSError: pass
    status, lines, violations = 0, [], 0
    if det_bad: lines.append("NON-DETERMINISTIC simulation: " + "; ".join(det_bad[:3])); status = 2
    if bad_workers: lines.append("worker ended without a summary: " + "; ".join(bad_workers)); status = 2
    if agg["runs"] and agg["inconclusive"] > 0.5 * agg["runs"]: lines.append("more than half of the runs were inconclusive: %s" % sorted(inc)); status = 2
    if viol is None and agg["runs"] == 0: lines.append("no runs"); status = 2
    vrec = None
    if viol is not None:
        v, p = viol; b = bins[(p[3], p[4])]; conf = []
        for _ in range(2):
            rc, out = sh([b, "--one", str(v["seed"]), "--scenario", v["scenario"], "--known", kf], 120, env); js = jlines(out)
            conf.append((js[-1]["status"], js[-1]["kind"], js[-1]["hash"]) if js else None)
        ok = all(c is not None and c[0] == 2 and c[1] == v["kind"] for c in conf); exact = ok and all(c[2] == v["hash"] for c in conf)
        if not ok:
            status = 2; lines.append("violation of seed %s (%s) did not reproduce: %s" % (v["seed"], v["kind"], conf))
        else:
            rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s-%s-%s-%s.replay" % (prop, p[4], v["scenario"], v["seed"]))
            sh([b, "--one", str(v["seed"]), "--scenario", v["scenario"], "--minimise", "--minbudget", "60" if tier == "thorough" else "30", "--out", rp, "--known", kf], 400, env)
            same = False
            if os.path.exists(rp):
                rc, out = sh([b, "--replay", rp, "--known", kf], 120, env); js = jlines(out)
                same = bool(js) and js[-1]["status"] == 2 and js[-1]["kind"] == js[-1]["expected_kind"] and js[-1]["hash"] == js[-1]["expected_hash"]
            if not same:                                      # fall back to the un-minimised run: the seed itself
                with open(rp, "w") as f: f.write("scenario %s\nseed %d\nsseed %d\nmode seed\nkind %s\nhash %s\n# %s\n" % (v["scenario"], v["seed"], v["seed"], v["kind"], v["hash"], v["msg"].replace("\n", "\n# ")))
            body = open(rp).read()
            with open(rp, "w") as f: f.write("# replay with: python3 check.py --replay <this file>\nproperty %s\nharness %s\nvariant %s\n" % (prop, p[3], p[4]) + body)
            status = 1; violations = 1
            vrec = {"seed": v["seed"], "scenario": v["scenario"], "variant": p[4], "kind": v["kind"], "params": v["params"], "message": v["msg"], "replay": rp, "exact_repeat": exact, "minimised_replay_exact": same}
            lines += ["violation: %s in scenario %s (%s build), seed %s" % (v["kind"], v["scenario"], p[4], v["seed"]), v["msg"], "VIOLATION property=%s replay=%s" % (prop, rp)]
    for k in known: print("KNOWN-FINDING: property=%s %s" % (prop, k.split(" ", 1)[1] if " " in k else k))
    samples = []
    for (h, v, _), k in list(zip(targets, range(len(targets))))[:2]:
        rc, out = sh([bins[(h, v)], "--seed", str(base_seed(a.seed, k)), "--from", "3", "--count", "1", "--hashes", "--known", kf], 60, env); js = [j for j in jlines(out) if "h" in j]
        if js:
            rc, o2 = sh([bins[(h, v)], "--one", str(js[0]["seed"]), "--verbose", "--known", kf], 60, env); j2 = jlines(o2)
            if j2: samples.append({"build": v, "seed": js[0]["seed"], "scenario": j2[-1]["scenario"], "params": j2[-1]["params"], "event_log_hash": j2[-1]["hash"], "steps": j2[-1]["steps"], "context_switches": j2[-1]["switches"], "scheduling_and_fault_decisions": j2[-1]["ndec"], "verdict": "held" if j2[-1]["status"] == 1 else j2[-1]["kind"]})
    zero = [k for k, x in faults.items() if x == 0]
    cov = {"evaluations": agg["runs"], "distinct_nontrivial": len(distinct),
      "rule": "one evaluation = one simulated execution (one seed: generated workload + swarm configuration + schedule + faults); distinct = different hash over the sequence of (thread, operation) at context switches, store-buffer drains and faults; non-trivial = at least one context switch between simulated threads occurred during the run",
      "samples": samples, "runs_per_hour": int(agg["runs"] / max(ex_wall, 1e-9) * 3600), "seeds_per_hour": int(agg["runs"] / max(ex_wall, 1e-9) * 3600),
      "simulated_seconds": agg["sim_ns"] / 1e9, "scheduling_points": agg["steps"], "context_switches": agg["switches"], "max_threads_in_a_run": agg["max_threads"],
      "distinct_preemption_pairs": pairs_max, "distinct_preemption_pairs_measure": "largest per-worker count of distinct (code address where a thread was preempted, code address where the next thread resumed)",
      "distinct_abstract_states": states_max, "faults_injected": faults, "runs_with_fault": frun, "fault_kinds_not_hit": zero, "probes": probes, "runs_per_build": pervar,
      "scenarios": {k: {"runs": x, "steps": y} for k, (x, y) in sorted(scen.items())}, "inconclusive_runs": agg["inconclusive"], "inconclusive_reasons": sorted(inc),
      "determinism_check": {"seeds_run_twice": det_done, "mismatches": len(det_bad)}, "known_finding_hits": kn, "build_s": round(tb, 1), "exploration_s": round(ex_wall, 1),
      "real_components": cfg.get("real", "all parlay code under include/parlay reached by the harness, libstdc++"),
      "stub_components": "kernel threads (fibers), pthread mutex/cond/create/join, futex and sched_yield system calls, clocks and sleeps, malloc/operator new (checked deterministic heap), thread-exit destructors, C++ static-initialisation guards, sysconf(CPU count, memory), read/write on file descriptors"}
    if vrec: cov["violation"] = vrec
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": cfg.get("level", "exploration"), "coverage": cov, "assumptions": ASSUMPTIONS + cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ep = os.path.join(VERIF, "evidence", prop + ".json")
    with open(ep + ".tmp", "w") as f: json.dump(ev, f, indent=1)
    os.replace(ep + ".tmp", ep)
    print("%s tier=%s seed=%d: %d runs (%d distinct), %.0f simulated s, %d steps, %d inconclusive, build %.0f s, explored %.0f s" % (prop, tier, a.seed, agg["runs"], len(distinct), agg["sim_ns"] / 1e9, agg["steps"], agg["inconclusive"], tb, ex_wall))
    for l in lines: print(l)
    return status
if __name__ == "__main__":
    sys.exit(main())
