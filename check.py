#!/opt/venv/bin/python
"""Decide one property by seeded simulation.

    check.py ID [--tier quick|thorough] [--seed N] [--runs N]
    check.py --replay FILE

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 3: the machinery itself failed (never counts as a verdict).
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
WALL_CAP = {"quick": 420, "thorough": 7200}
PY = sys.executable


def env(scratch, hashseed="0"):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "VSIM_"))}
    for k in ("VSIM_REPO", "VSIM_KNOWN"):
        if k in os.environ:
            e[k] = os.environ[k]
    e.update(PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1", PYTHONSAFEPATH="1",
             PYTHONPYCACHEPREFIX=os.path.join(scratch, "nopyc"), OPENBLAS_NUM_THREADS="1",
             OMP_NUM_THREADS="1", MPLBACKEND="Agg", VSIM_SCRATCH=os.path.join(scratch, "disk"),
             TZ="UTC", LC_ALL="C.UTF-8", HOME=scratch, PYTHONPATH="", VSIM_PY=PY)
    return e


def die(msg):
    print("HARNESS-ERROR: " + msg, flush=True)
    sys.exit(3)


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)) if k.get("status") == "known"]


def call(args, scratch, timeout, tag):
    """Run a worker command in a process of its own; -> parsed output."""
    sub = os.path.join(scratch, tag)
    os.makedirs(os.path.join(sub, "disk"), exist_ok=True)
    p = subprocess.run([PY, os.path.join(VERIF, "vsim", "worker.py")] + args, env=env(sub),
                       cwd=sub, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        die("worker failed (%d):\n%s" % (p.returncode, p.stdout.decode("utf-8", "replace")[-3000:]))


def replay_plans(pid, plans, scratch, pad=0):
    # every replay sees the same paths (up to the random part) and environment:
    # object addresses and what depends on them repeat too
    tag = "rp"
    f = os.path.join(scratch, tag + ".in")
    o = os.path.join(scratch, tag + ".out")
    json.dump({"property": pid, "plans": plans, "pad": pad}, open(f, "w"))
    shutil.rmtree(os.path.join(scratch, tag), ignore_errors=True)
    call(["plans", f, o], scratch, 600, tag)
    return json.load(open(o))


def do_replay(path):
    spec = json.load(open(path))
    os.environ["VSIM_KNOWN"] = json.dumps(load_known())
    scratch = tempfile.mkdtemp(prefix="vsim_", dir="/tmp")
    try:
        o = replay_plans(spec["property"], spec["plans"], scratch, spec.get("pad", 0))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for v in o["viol"]:
        print("%s: %s" % (v["rule"], v["msg"]))
    if o["viol"]:
        same = o["viol"] == spec["violations"] and o["digest"] == spec["digest"]
        print("replay %s the recorded execution" % ("reproduces exactly" if same else "differs from"))
        print("VIOLATION property=%s replay=%s" % (spec["property"], path))
        sys.exit(1)
    print("replay: no violation on this tree")
    sys.exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--no-shrink", action="store_true")
    a = ap.parse_args()
    if a.replay:
        do_replay(a.replay)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    known = load_known()
    os.environ["VSIM_KNOWN"] = json.dumps(known)
    meta = json.load(open(os.path.join(VERIF, "vsim", "budget.json")))
    if a.id not in meta:
        die("unknown property %r" % a.id)
    runs = a.runs or meta[a.id][tier]
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="vsim_", dir="/tmp")
    code = 3
    try:
        code = explore(a, tier, known, runs, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def explore(a, tier, known, runs, scratch, t0):
    pid = a.id
    cap = WALL_CAP[tier]
    procs = []
    n = max(1, min(a.workers, runs))
    for w in range(n):
        sub = os.path.join(scratch, "w%d" % w)
        os.makedirs(os.path.join(sub, "disk"))
        out = os.path.join(scratch, "w%d.out" % w)
        log = open(os.path.join(scratch, "w%d.log" % w), "wb")
        procs.append((subprocess.Popen(
            [PY, os.path.join(VERIF, "vsim", "worker.py"), "run", pid, str(a.seed), tier,
             str(w), str(n), str(runs), str(t0 + cap), out],
            env=env(sub), cwd=sub, stdout=log, stderr=subprocess.STDOUT), out, w))
    res = []
    err = None
    for p, out, w in procs:
        try:
            rc = p.wait(timeout=max(1, t0 + cap + 200 - time.monotonic()))
        except subprocess.TimeoutExpired:
            err = "worker %d did not finish" % w
            break
        if rc != 0:
            txt = open(os.path.join(scratch, "w%d.log" % w), "rb").read().decode("utf-8", "replace")
            err = "worker %d failed (%d):\n%s" % (w, rc, txt[-3000:])
            break
        res.append(json.load(open(out)))
    if err:
        for p, *_ in procs:
            if p.poll() is None:
                p.kill()
        die(err)
    viols = [r["violation"] for r in res if r["violation"]]
    search_s = time.monotonic() - t0
    replay = None
    if viols:
        v = min(viols, key=lambda v: v["index"])
        replay, rule, msg = report(a, pid, tier, v, scratch, t0)
    write_evidence(pid, tier, a, res, search_s, t0, len(viols), replay, runs, n)
    tot_known = {}
    for r in res:
        for k, c in r["known"].items():
            tot_known[k] = tot_known.get(k, 0) + c
    for k in known:
        if k["property"] == pid:
            print("KNOWN-FINDING: property=%s %s (seen %d times)" % (pid, k["what"], tot_known.get(k["id"], 0)))
    done = sum(r["n"] for r in res)
    if viols:
        print("%s: %s" % (rule, msg))
        print("VIOLATION property=%s replay=%s" % (pid, replay), flush=True)
        return 1
    print("OK property=%s runs=%d nontrivial=%d distinct=%d wall=%.1fs" % (
        pid, done, sum(r["nontrivial"] for r in res),
        len(set().union(*[r["digests"] for r in res])), time.monotonic() - t0))
    if done == 0:
        die("no run was executed")
    return 0


def report(a, pid, tier, v, scratch, t0):
    """Confirm in a fresh process, minimise, confirm again, write the replay file."""
    rule = v["viol"][0]["rule"]
    plan = v["plan"]
    plans = [plan]
    o = replay_plans(pid, plans, scratch)
    alone = any(x["rule"] == rule for x in o["viol"])
    if alone and not a.no_shrink:
        f, out = os.path.join(scratch, "s.in"), os.path.join(scratch, "s.out")
        json.dump({"property": pid, "plans": plans, "rule": rule}, open(f, "w"))
        call(["shrink", f, out, "45"], scratch, 300, "shrink")
        small = json.load(open(out))["plan"]
        o2 = replay_plans(pid, [small], scratch)
        if any(x["rule"] == rule for x in o2["viol"]):
            plans, o = [small], o2
    elif not alone:
        # state left behind by earlier runs of that worker matters: replay them too
        gen = os.path.join(scratch, "prelude.out")
        pre = []
        idx = list(range(v["start"], v["index"], v["stride"]))
        code = ("import sys,json;sys.path.insert(0,%r);from vsim import world;"
                "world.install(sys.argv[1]);from vsim.registry import all_checks;from vsim import engine;"
                "c=all_checks()[%r];json.dump([engine.gen_plan(c,%d,i,%r) for i in %r],"
                "world.real.open(%r,'w'))" % (VERIF, pid, a.seed, tier, idx, gen))
        sub = os.path.join(scratch, "pre")
        os.makedirs(os.path.join(sub, "disk"))
        subprocess.run([PY, "-c", code, os.path.join(sub, "disk")], env=env(sub), cwd=sub, check=True,
                       stdout=subprocess.DEVNULL)
        pre = json.load(open(gen))
        ok = lambda ps: any(x["rule"] == rule for x in replay_plans(pid, ps + [plan], scratch)["viol"])
        if not any(ok(pre) for k in range(3)):
            # perhaps object addresses matter: the same plan on differently fragmented heaps
            for pad in range(1, 9):
                o = replay_plans(pid, [plan], scratch, pad)
                if any(x["rule"] == rule for x in o["viol"]):
                    return save(a, pid, tier, v, o, [plan], rule, pad)
            if rule.endswith(".runaway") or not drifting(pid, pre + [plan], scratch):
                die("violation %s of run %d did not reproduce: %s" % (rule, v["index"], v["viol"][0]["msg"]))
            # The harness controls every source of nondeterminism of the code it was
            # built for (det self-test); the code under test now has one it does not
            # control, and one of its executions violated the property.
            return save(a, pid, tier, v, {"viol": v["viol"], "digest": "uncontrolled"}, pre + [plan], rule)
        end = time.monotonic() + 60
        chunk = max(1, len(pre) // 2)
        while chunk >= 1 and time.monotonic() < end:
            i = 0
            while i < len(pre) and time.monotonic() < end:
                cand = pre[:i] + pre[i + chunk:]
                if ok(cand):
                    pre = cand
                else:
                    i += chunk
            chunk //= 2
        plans = pre + [plan]
        o = replay_plans(pid, plans, scratch)
    return save(a, pid, tier, v, o, plans, rule)


def drifting(pid, plans, scratch):
    """Do identical replays of these plans differ from each other?"""
    seen = set()
    for k in range(6):
        o = replay_plans(pid, plans, scratch, k // 2)
        seen.add(json.dumps([o["viol"], o["digest"]]))
    return len(seen) > 1


def save(a, pid, tier, v, o, plans, rule, pad=0):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%d-run%d.json" % (pid, a.seed, v["index"]))
    json.dump({"property": pid, "seed": a.seed, "tier": tier, "run": v["index"],
               "violations": o["viol"], "digest": o["digest"], "plans": plans, "pad": pad,
               "how": "check.py --replay " + path}, open(path, "w"), indent=1)
    x = next((x for x in o["viol"] if x["rule"] == rule), v["viol"][0])
    return path, x["rule"], x["msg"]


def write_evidence(pid, tier, a, res, search_s, t0, nviol, replay, runs, workers):
    man = json.load(open(os.path.join(VERIF, "vsim", "budget.json")))[pid]
    sums = {"faults": {}, "probes": {}}
    for r in res:
        for key in sums:
            for k, c in r[key].items():
                sums[key][k] = sums[key].get(k, 0) + c
    done = sum(r["n"] for r in res)
    distinct = set()
    for r in res:
        distinct.update(r["digests"])
    ev = {"property": pid, "tier": tier, "seed": a.seed, "level": "exploration",
          "coverage": {
              "evaluations": done, "distinct_nontrivial": len(distinct), "rule": man["rule"],
              "samples": [s for r in res for s in r["samples"]][:3] or [{"note": "plans too large to show"}],
              "runs_planned": runs, "stopped_early": sorted({r["stopped"] for r in res if r["stopped"]}),
              "simulated_runs_per_hour": round(done / max(search_s, 1e-9) * 3600),
              "seeds_per_hour": round(done / max(search_s, 1e-9) * 3600),
              "seed_note": "each run is one derived seed: sha256(property, VERIF_SEED, run index)",
              "simulated_time": {"model_time_units_total": sum(r["sim_time"] for r in res),
                                 "events_executed": sum(r["events"] for r in res)},
              "faults_fired": sums["faults"], "runs_with_faults": sum(r["fault_runs"] for r in res),
              "reach_probes": sums["probes"],
              "distinct_measure": "number of different sha256 digests of complete run histories among non-trivial runs",
              "components": man.get("components", {}), "workers": workers,
              "slowest_run": dict(zip(("cpu_s", "run"), max((r.get("slow", [0, None]) for r in res), key=lambda x: x[0])))},
          "assumptions": man.get("assumptions", []),
          "wall_s": round(time.monotonic() - t0, 2), "violations": nviol}
    if replay:
        ev["coverage"]["replay"] = replay
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, pid + ".json"))


if __name__ == "__main__":
    main()
