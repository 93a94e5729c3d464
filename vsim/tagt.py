"""Tag-time model (T01) and the matrix Monte-Carlo estimator (T02): the real
code driven by scripted draws, against the absorbing chain written down
independently."""
import math
from . import world
from .world import CLOCK, DRAWS
from .kern import outcome, log_config
from . import models
from .ping import near

NAMES = ["Arbitrate", "Reply", "Acknowledged", "Secured"]


def chain_next(scenario, chunks, st, ok):
    """st = (stage 0..3, chunk) -> next stage, or None when absorbed."""
    stage, chunk = st
    if not ok:
        return (0, 0) if scenario == 1 else st
    if stage < 3:
        return (stage + 1, 0)
    if scenario == 3 and chunk + 1 < chunks:
        return (3, chunk + 1)
    return None


def gen_probs(rng, k):
    style = rng.random()
    if style < 0.15:
        return [1.0] * k
    if style < 0.3:
        return [rng.choice([1, 1.0, 0.5, 0.9]) for _ in range(k)]
    if style < 0.4:
        return [round(rng.uniform(0.15, 1.0), 2)] * k
    return [round(rng.uniform(0.15, 1.0), rng.choice([1, 3, 9])) or 0.5 for _ in range(k)]


def gen_fates(rng, m):
    kind = rng.choice(["iid", "iid", "ok", "burst", "stage", "late"])
    if kind == "ok":
        return [1] * m
    if kind == "burst":
        f, b = [], rng.randrange(2)
        while len(f) < m:
            f += [b] * rng.randint(1, 5)
            b ^= 1
        return f[:m]
    if kind == "stage":
        k = rng.randint(2, 5)
        return [int((j + 1) % k != 0) for j in range(m)]
    if kind == "late":
        return ([1] * 3 + [0] * rng.randint(1, 4)) * m
    q = rng.uniform(0.2, 0.95)
    return [int(rng.random() < q) for _ in range(m)]


def value(p, f, frac):
    """a uniform value that makes the attempt with probability p end as f"""
    if f and p > 0:
        return min(p * (0.999 * frac), 1 - 2 ** -53)
    if not f and p < 1:
        return min(p + (1 - p) * (0.001 + 0.998 * frac), 1 - 2 ** -53)
    return 0.25 + 0.5 * frac


class T01:
    id = "T01"
    rule = ("tag-time runs of all three scenarios with per-state times that are all different, scripted "
            "adversarial success/failure patterns, cut-offs and machine stalls; non-trivial when at least "
            "2 events ran; distinct by digest of parameters, draws and report")
    quick, thorough = 30000, 700000
    shrink_keys = ["fates", "stalls"]
    technique = ("deterministic simulation with fault injection: scripted draws, cut-offs and stalls on the "
                 "real model against the scenario's chain")
    components = {"real": ["pysim.models.tag_time", "pysim.sim.simulator", "random"],
                  "simulated": ["clocks", "console", "values of random.random in scripted runs"], "stubbed": []}

    def gen(self, rng, i, tier):
        sc = rng.choice([1, 2, 3, 3])
        t = [round(rng.uniform(0.05, 9), 3) + k * 1e-4 for k in range(4)]
        if rng.random() < 0.25:
            t = rng.sample([1, 2, 4, 8, 16, 3, 5], 4)
        if rng.random() < 0.1:
            t[rng.randrange(4)] = 0
        plan = {"scenario": sc, "p": gen_probs(rng, 4), "t": t,
                "n": rng.choice([0, 1, 1, 2, 3, 5, 10, 25]) if i % 200 != 100 else rng.choice([130, 300]), "chunks": rng.choice([1, 1, 2, 3, 5, 9]),
                "seed": rng.randrange(1 << 30), "limits": {}, "stalls": [], "log": rng.choice([None, None, {"level": 10}])}
        if rng.random() < 0.75:
            plan["fates"] = gen_fates(rng, 400)
            plan["frac"] = rng.random()
            if rng.random() < 0.25:
                plan["edge"] = rng.choice(["near", "ends"])
        r = rng.random()
        if r < 0.2:
            plan["limits"]["sim"] = rng.choice([0, t[0], t[0] + t[1], sum(t), round(rng.uniform(0, 60), 2)])
        elif r < 0.35:
            plan["limits"]["events"] = rng.choice([0, 1, 2, 3, 5, 8, rng.randint(1, 80)])
        elif r < 0.45:
            plan["limits"]["real"] = rng.choice([0.5, 2.0])
            plan["stalls"] = [[rng.randint(0, 30), round(rng.uniform(0.2, 3), 2)] for _ in range(rng.randint(1, 3))]
        if plan["limits"].get("events") is not None and rng.random() < 0.4:
            plan["n"] = None
        return plan

    def execute(self, plan):
        p = plan
        world.reset(p["seed"])
        n, sc = p["n"], p["scenario"]
        stages = 3 + (p["chunks"] if sc == 3 else 1)
        # states visited with the scripted draws (the chain decides which
        # probability each scripted value has to be aimed at)
        script = None
        if p.get("fates") is not None:
            script, st, done = [], (0, 0), 0
            for f in p["fates"]:
                if n is not None and done >= n:
                    break
                q = p["p"][st[0]]
                u = value(q, f, p["frac"])
                if p.get("edge") and f and q > 0:        # at the probability itself, or at an end of the range
                    u = min(float(q), 1 - 2 ** -53) if p["edge"] == "near" else 0.0
                elif p.get("edge") and not f and q < 1:
                    u = math.nextafter(q, 2) if p["edge"] == "near" else 1 - 2 ** -53
                script.append(u)
                st = chain_next(sc, p["chunks"], st, u <= q)
                if st is None:
                    st, done = (0, 0), done + 1
        stalls = {}
        for k, d in p["stalls"]:
            stalls[k] = stalls.get(k, 0) + d
        stalled = [0]

        def before(tr, sim, fn, args):
            if tr.n - 1 in stalls:
                CLOCK.advance(stalls[tr.n - 1])
                stalled[0] += 1
        lim = p["limits"]
        kw = {}
        for a, b in (("sim", "max_sim_time"), ("events", "max_num_events"), ("real", "max_real_time")):
            if lim.get(a) is not None:
                kw[b] = lim[a]
        with models.tracing(lambda: models.Tracer(200000, before)) as T:
            DRAWS.on = True
            DRAWS.time_getter = lambda: T.last.time() if T.last else None
            DRAWS.script = script
            stats = models.run_kind({"kind": "tagtime", "p": p["p"], "t": p["t"], "n": n,
                                     "chunks": p["chunks"], "scenario": sc},
                                    log_config(p["log"], "A") if p["log"] else None, **kw)
            DRAWS.on = False
            DRAWS.script = None
        tr = T.last
        draws = [(u, t) for s, u, t in DRAWS.log if s == "random.random"]
        v = []
        if not hasattr(stats, "sim_time"):
            return outcome([{"rule": "T01.report", "msg": "the run reported %.60r instead of its statistics" % (stats,)}], [])

        def bad(rule, msg):
            if len(v) < 5:
                v.append({"rule": "T01." + rule, "msg": msg})
        # reference
        st, t, done, k = (0, 0), 0.0, 0, 0
        path = []
        fails = 0
        end = None
        while True:
            if n is not None and done >= n:
                end = t
                break
            if k >= len(draws):
                break
            u, tu = draws[k]
            label = NAMES[st[0]] + (" chunk %d" % st[1] if sc == 3 and st[0] == 3 else "")
            if not near(tu, t):
                bad("time", "attempt %d (%s, packet %d) was drawn at model time %r, expected %r" % (
                    k, label, done, tu, t))
                break
            ok = u <= p["p"][st[0]]
            fails += not ok
            t = t + p["t"][st[0]]
            path.append((st, ok))
            st = chain_next(sc, p["chunks"], st, ok)
            if st is None:
                st, done = (0, 0), done + 1
            k += 1
        total = stats.sim_time
        if not v:
            if k < len(draws):
                bad("extra", "%d draws after the last packet was absorbed" % (len(draws) - k))
            elif end is None:
                # the run stopped before the configured number of packets
                if not lim:
                    bad("missing", "run ended with %d of %r packets absorbed" % (done, n))
                elif set(lim) == {"sim"}:
                    if t < lim["sim"] - 1e-9:
                        bad("missing", "model-time limit %r, but the attempt due at %r was not made" % (lim["sim"], t))
                if draws and total < draws[-1][1] - 1e-9 or total > t + 1e-9 * max(1, t):
                    bad("total", "reported model time %r, but the run was between %r and %r" % (
                        total, draws[-1][1] if draws else 0, t))
            else:
                over = set(lim) == {"sim"} and end > lim["sim"]
                if not lim and not near(total, end):
                    bad("total", "total model time %r, the times spent add up to %r" % (total, end))
                elif lim and not over and not (total <= end + 1e-9 * max(1, end) and (not draws or total >= draws[-1][1] - 1e-9)):
                    bad("total", "total model time %r, the times spent add up to %r" % (total, end))
            if set(lim) == {"sim"}:
                # handlers of one attempt share its instant: only the first may be late
                late = [d for d in draws if d[1] > lim["sim"] + 1e-9]
                if len(late) > 1:
                    bad("late", "%d attempts after the model-time limit %r" % (len(late), lim["sim"]))
        ctx = getattr(tr.sim, "context", None)
        nt = getattr(ctx, "num_transmissions", None)
        if not v and isinstance(nt, int) and not lim and nt != n:
            bad("count", "%d packets counted instead of %r" % (nt, n))
        f = {}
        if fails:
            f["attempt_failed"] = fails
        if end is None:
            f["run_cut_short"] = 1
        if stalled[0]:
            f["machine_stall"] = stalled[0]
        pr = {"scenario_%d" % sc: 1, "packets": done, "chunks_passed": sum(1 for s, ok in path if ok and s[0] == 3)}
        return outcome(v, (sc, p["p"], p["t"], p["chunks"], draws, total), t, f, pr, tr.n)


class T02:
    id = "T02"
    rule = ("Monte-Carlo estimations of 1-4 cases for each scenario with scripted adversarial uniform "
            "draws; distinct by digest of cases, draws and results")
    quick, thorough = 60000, 800000
    shrink_keys = ["cases", "fates"]
    technique = ("deterministic simulation: scripted adversarial draw sequences fed to the real estimator "
                 "against the scenario's chain")
    components = {"real": ["pysim.models.tag_time.mc", "numpy"],
                  "simulated": ["values of numpy.random.random in scripted runs"], "stubbed": []}

    def gen(self, rng, i, tier):
        sc = rng.choice([1, 2, 3])
        cases = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            k = rng.choice([4, 4, 1, 2, 3]) if sc < 3 else rng.choice([4, 5, 8, 1])
            t = [round(rng.uniform(0.0005, 0.5), 6) for _ in range(k)]
            if rng.random() < 0.3:
                t = rng.sample(range(1, 30), k)
            cases.append({"p": gen_probs(rng, k), "t": t})
            if len(cases) > 1 and rng.random() < 0.35:
                # a case that resembles the previous one in all but one respect
                a = cases[-2]
                b = cases[-1] = {"p": list(a["p"]), "t": list(a["t"])}
                how = rng.choice(["same", "perm_p", "perm_t", "one_p", "one_t", "all_t"])
                if how == "perm_p":
                    rng.shuffle(b["p"])
                elif how == "perm_t":
                    rng.shuffle(b["t"])
                elif how == "one_p":
                    b["p"][rng.randrange(len(b["p"]))] = rng.choice([1.0, 0.5, 0.25])
                elif how == "one_t":
                    b["t"][rng.randrange(len(b["t"]))] = rng.choice([0.1, 3])
                elif how == "all_t":
                    b["t"] = [round(x * 1.5 + 0.01, 6) for x in b["t"]]
        p = {"scenario": sc, "cases": cases, "n": rng.choice([1, 1, 2, 3, 7, 20]) if i % 200 != 100 else rng.choice([150, 1100]), "seed": rng.randrange(1 << 30),
             "direct": rng.random() < 0.2}
        if rng.random() < 0.75:
            p["fates"] = gen_fates(rng, 300)
            p["frac"] = rng.random()
            if rng.random() < 0.3:
                p["edge"] = rng.choice(["near", "ends"])
        return p

    def execute(self, plan):
        p = plan
        world.reset(p["seed"])
        from pysim.models.tag_time import mc
        sc, n, cases = p["scenario"], p["n"], p["cases"]

        def step(k, size, ok):
            if ok:
                return k + 1
            return 0 if sc == 1 else k
        script = None
        if p.get("fates") is not None:
            script, fates = [], list(p["fates"])
            for c in cases:
                for _ in range(n):
                    k = 0
                    while k < len(c["p"]) and fates:
                        f = fates.pop(0)
                        # success exactly when u >= 1 - p
                        u = 1 - value(c["p"][k], f, 0.001 + 0.998 * p["frac"])
                        if p.get("edge"):         # hard by the threshold, or the ends of the range
                            thr = 1 - c["p"][k]
                            if f:
                                u = 1.0 if p["edge"] == "ends" else thr + 1e-10 if thr > 0 else 0.0
                            elif thr > 0:
                                u = 0.0 if p["edge"] == "ends" else max(0.0, thr - 1e-10)
                        u = min(u, 1 - 2 ** -40)
                        script.append(u)
                        k = step(k, len(c["p"]), u >= 1 - c["p"][k])
                    if not fates:
                        break
        DRAWS.on = True
        DRAWS.script = script
        import numpy as np
        if p["direct"] and len(cases) == 1:
            m = mc.create_input_probs(sc, [cases[0]["p"]])[0]
            got = [mc.monte_carlo(m, cases[0]["t"], n)]
        else:
            got = mc.run_multiple_models(sc, [c["p"] for c in cases], [c["t"] for c in cases], n)
        DRAWS.on = False
        DRAWS.script = None
        draws = [u for s, u, t in DRAWS.log if s in ("np.random", "random.random", "np.rand", "np.random_sample")]
        v = []

        def bad(rule, msg):
            if len(v) < 4:
                v.append({"rule": "T02." + rule, "msg": msg})
        try:
            got = [float(g) for g in got]
        except TypeError:
            return outcome([{"rule": "T02.report", "msg": "the estimator returned %.60r" % (got,)}], [])
        pos, want, fails, vague = 0, [], 0, False
        for c in cases:
            tot = []
            for _ in range(n):
                k, s = 0, 0.0
                while k < len(c["p"]) and pos < len(draws):
                    u = draws[pos]
                    pos += 1
                    s += c["t"][k]
                    thr = 1 - c["p"][k]
                    vague |= abs(u - thr) < 1e-12 and c["p"][k] < 1      # a certain step never fails
                    ok = u >= thr
                    fails += not ok
                    k = step(k, len(c["p"]), ok)
                if k < len(c["p"]):
                    bad("draws", "the draws end before every trial is absorbed")
                    break
                tot.append(s)
            want.append(sum(tot) / max(1, len(tot)) * 1000)
        if vague:
            v = []               # a draw on the threshold decides nothing
        else:
            if not v and pos != len(draws):
                bad("draws", "%d draws were made, the chain needs %d" % (len(draws), pos))
            if not v and len(got) != len(cases):
                bad("cases", "%d results for %d cases" % (len(got), len(cases)))
            if not v:
                for j, (g, w) in enumerate(zip(got, want)):
                    if not near(float(g), w):
                        bad("time", "case %d: estimated %r ms, the chain gives %r ms" % (j, float(g), w))
        f = {"attempt_failed": fails} if fails else {}
        return outcome(v, (p["scenario"], cases, draws, [float(g) for g in got]), sum(want) / 1000, f,
                       {"scenario_%d" % sc: 1, "trials": n * len(cases), "several_cases": int(len(cases) > 1)}, len(draws))


CHECKS = [T01(), T02()]
