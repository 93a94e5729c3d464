"""Worker process: executes run indices of one property, or replays plans.

usage: worker.py run   ID SEED TIER START STRIDE COUNT DEADLINE OUT
       worker.py plans FILE OUT          (replay a list of plans in order)
       worker.py shrink FILE OUT SECONDS
       worker.py digests ID SEED TIER START STRIDE COUNT OUT
"""
import json, os, sys, re, time

_t_real = time.monotonic
_t_cpu = time.process_time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)


def match_known(known, pid, viol):
    for k in known:
        if k["property"] == pid and k["rule"] == viol["rule"] and re.search(k["match"], viol["msg"]):
            return k
    return None


def fixed_addresses():
    """Run without address-space randomisation, so that even an order that
    depends on object addresses is the same in a replay. Best effort."""
    if os.environ.get("VSIM_NOASLR"):
        return
    os.environ["VSIM_NOASLR"] = "1"
    try:
        import ctypes
        libc = ctypes.CDLL(None, use_errno=True)
        cur = libc.personality(0xffffffff)
        if cur < 0 or cur & 0x0040000 or libc.personality(cur | 0x0040000) < 0:
            return
    except Exception:
        return
    os.execv(sys.executable, [sys.executable] + sys.argv)


def main():
    from vsim import world, engine
    scratch = os.environ["VSIM_SCRATCH"]
    world.install(scratch)
    from vsim.registry import all_checks
    cmd = sys.argv[1]
    checks = all_checks()
    if cmd in ("run", "digests"):
        pid, seed, tier, start, stride, count = sys.argv[2], *[x for x in sys.argv[3:8]]
        seed, start, stride, count = int(seed), int(start), int(stride), int(count)
        check = checks[pid]
        known = json.loads(os.environ.get("VSIM_KNOWN", "[]"))
        deadline = float(sys.argv[8]) if cmd == "run" else 1e18
        outf = sys.argv[9] if cmd == "run" else sys.argv[8]
        res = {"n": 0, "digests": [], "faults": {}, "probes": {}, "sim_time": 0.0, "events": 0,
               "nontrivial": 0, "samples": [], "violation": None, "known": {}, "stopped": None,
               "per": [], "executed": [], "fault_runs": 0, "slow": [0.0, None]}
        dg = set()
        for i in range(start, count, stride):
            if _t_real() > deadline:
                res["stopped"] = "time"
                break
            plan = engine.gen_plan(check, seed, i, tier)
            t_run = _t_cpu()
            o = engine.run_plan(check, plan)
            if any(v["rule"].endswith(".runaway") for v in o["viol"]):
                o = engine.run_plan(check, plan, 4)      # hanging, or only slow?
            t_run = _t_cpu() - t_run
            if t_run > res["slow"][0]:
                res["slow"] = [round(t_run, 2), i]
            res["n"] += 1
            res["executed"].append(i)
            if cmd == "digests":
                res["per"].append([i, o["digest"], [v["rule"] for v in o["viol"]], o["events"]])
                continue
            new = []
            for v in o["viol"]:
                k = match_known(known, pid, v)
                if k is None:
                    new.append(v)
                else:
                    res["known"][k["id"]] = res["known"].get(k["id"], 0) + 1
            res["sim_time"] += o["sim_time"]
            res["events"] += o["events"]
            for key in ("faults", "probes"):
                for k, n in o[key].items():
                    res[key][k] = res[key].get(k, 0) + n
            if any(o["faults"].values()):
                res["fault_runs"] += 1
            if o["nontrivial"]:
                res["nontrivial"] += 1
                dg.add(o["digest"])
            if o.get("nontrivial") and len(res["samples"]) < 1 and len(json.dumps(plan)) < 1500:
                res["samples"].append({"run": i, "plan": plan, "digest": o["digest"]})
            if new:
                res["violation"] = {"index": i, "viol": new, "plan": plan, "start": start, "stride": stride}
                res["stopped"] = "violation"
                break
        res["digests"] = sorted(dg)
        with world.real.open(outf, "w") as f:
            json.dump(res, f)
    elif cmd == "plans":
        spec = json.load(world.real.open(sys.argv[2]))
        check = checks[spec["property"]]
        o = None
        heap = world.heap_noise(spec["pad"]) if spec.get("pad") else None     # noqa: kept alive
        for p in spec["plans"]:
            o = engine.run_plan(check, p)
        with world.real.open(sys.argv[3], "w") as f:
            json.dump(o, f)
    elif cmd == "shrink":
        spec = json.load(world.real.open(sys.argv[2]))
        check = checks[spec["property"]]
        rule = spec["rule"]
        known = json.loads(os.environ.get("VSIM_KNOWN", "[]"))
        deadline = _t_real() + float(sys.argv[4])

        def fails(p):
            try:
                o = engine.run_plan(check, p)
            except Exception:
                return False          # an ill-formed candidate, not a violation
            return any(v["rule"] == rule and match_known(known, check.id, v) is None for v in o["viol"])
        plan = spec["plans"][-1]
        best = plan
        if fails(plan):
            best = engine.shrink(plan, getattr(check, "shrink_keys", []), fails, deadline)
        with world.real.open(sys.argv[3], "w") as f:
            json.dump({"plan": best}, f)


if __name__ == "__main__":
    fixed_addresses()
    main()
