"""Ping-pong model (P01, P02): the real model under scripted adversarial loss
patterns, delays, cut-offs and a stalling machine, against a reference
history computed from the parameters and the draws alone."""
import math, random
from . import world
from .world import CLOCK, DRAWS
from .kern import outcome, merge
from . import models

EPS = 1e-9


def near(a, b, tol=EPS):
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


# ------------------------------------------------------------------- plans ----
def gen_plan(rng, i, tier):
    def delay():
        r = rng.random()
        if r < 0.12:
            return 0
        if r < 0.3:
            return rng.choice([1, 2, 0.5, 10])
        if r < 0.4:
            return rng.choice([1e-6, 1e6, 0.1, 1 / 3])
        return round(rng.uniform(0.01, 20), rng.choice([2, 6, 15]))
    loss = rng.choice([0, 1, 0.0, 1.0, 0.5, 0.1, 0.9, rng.random(), rng.random(), rng.random()])
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 30, 30, 60]) if tier == "quick" or rng.random() < 0.9 \
        else rng.choice([200, 1000])
    if i % 200 == 100:
        n = rng.choice([130, 300, 1100])
    p = {"interval": delay(), "channel_delay": delay(), "service_delay": delay(), "loss_prob": loss,
         "max_pings": n, "limits": {}, "seed": rng.randrange(1 << 30), "fates": None, "stalls": [],
         "log": rng.choice([None, {}, {"level": 10}])}
    if rng.random() < 0.12:          # the number of the first ping, at the ends of its range
        p["first"] = rng.choice([0, 1, 10 ** 6, 10 ** 6 - 1, 10 ** 6 - rng.randint(2, 30),
                                 2 ** 16 - rng.randint(1, 9), 255])
    style = rng.random()
    if style < 0.7:
        # adversarial loss pattern: 1 = survive, 0 = lost
        m = n + 2
        kind = rng.choice(["iid", "burst", "alt", "first", "last", "alllost", "allok"])
        if kind == "iid":
            q = rng.random()
            f = [int(rng.random() < q) for _ in range(m)]
        elif kind == "burst":
            f, b = [], rng.randrange(2)
            while len(f) < m:
                f += [b] * rng.randint(1, 6)
                b ^= 1
            f = f[:m]
        elif kind == "alt":
            f = [(k + rng.randrange(2)) % 2 for k in range(m)]
        elif kind == "first":
            f = [0] + [1] * (m - 1)
        elif kind == "last":
            f = [1] * max(0, n - 1) + [0] * 3
        else:
            f = [int(kind == "allok")] * m
        p["fates"] = f
        p["frac"] = rng.random()
    lim = p["limits"]
    r = rng.random()
    total = max(1.0, n * (p["interval"] + 2 * p["channel_delay"] + p["service_delay"]))
    if r < 0.25:
        lim["sim"] = rng.choice([0, round(rng.uniform(0, total), 3), total, total * 2,
                                 p["channel_delay"] * rng.randint(0, 6) + p["interval"] * rng.randint(0, 3)])
    elif r < 0.45:
        lim["events"] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, rng.randint(1, 200)])
    elif r < 0.6:
        lim["real"] = rng.choice([0.5, 2.0, 5.0])
        p["stalls"] = [[rng.randint(0, 40), round(rng.uniform(0.1, 3), 2)] for _ in range(rng.randint(1, 6))]
    if rng.random() < 0.2:
        p["jumps"] = [[rng.randint(0, 30), rng.choice([-86400, 3600, -5, 1e6])] for _ in range(2)]
    if lim.get("events") is not None and rng.random() < 0.3:
        p["max_pings"] = None
    return p


# ------------------------------------------------------------ running for real ----
class Scene:
    def __init__(self, plan):
        self.plan = plan
        self.hist = []           # (kind, time, number)
        self.result = None

    def force(self):
        """scripted values that make the k-th ping survive or not"""
        p = self.plan
        if p["fates"] is None:
            return None
        q, fr = p["loss_prob"], p.get("frac", 0.5)
        out = []
        for f in p["fates"]:
            if f and q < 1:
                out.append(min(q + (1 - q) * (0.001 + 0.998 * fr), 1 - 2 ** -53))
            elif not f and q > 0:
                out.append(min(q * (0.999 * fr), 1 - 2 ** -53))
            else:
                out.append(0.25 + 0.5 * fr)      # the parameter decides anyway
        return out

    def run(self):
        p = self.plan
        world.reset(p["seed"])
        from pysim.models.pingpong import model as M
        stalls = {}
        for k, d in p["stalls"]:
            stalls[k] = stalls.get(k, 0) + d
        jumps = dict((k, d) for k, d in p.get("jumps") or [])
        self.stalled = self.jumped = 0

        def before(tr, sim, fn, args):
            k = tr.n - 1
            if k in stalls:
                CLOCK.advance(stalls[k])
                self.stalled += 1
            if k in jumps:
                CLOCK.jump(jumps[k])
                self.jumped += 1
        first = [p["first"]] if p.get("first") is not None else []
        orig_randint = random.randint

        def randint(a, b):
            if first:
                return min(max(first.pop(), a), b)
            return orig_randint(a, b)
        n = p["max_pings"]
        lim = p["limits"]
        cap = 40 + 10 * (n if n is not None else 0) + (lim.get("events") or 0)
        hist = self.hist

        def wrap(cls, name, note):
            orig = getattr(cls, name)

            def w(self_, sim, packet, *a, **k):
                note(self_, sim, packet)
                return orig(self_, sim, packet, *a, **k)
            w.__name__, w.__qualname__ = name, orig.__qualname__
            setattr(cls, name, w)
            return lambda: setattr(cls, name, orig)
        Server, Client = M.Server, M.Client

        def on_send(ch, sim, pkt):
            to = pkt.receiver
            kind = "ping" if isinstance(to, Server) else "pong" if isinstance(to, Client) else "?"
            hist.append((kind + "_sent", sim.time, pkt.number))
        undo = [wrap(M.Channel, "send", on_send),
                wrap(Server, "handle_receive", lambda s, sim, pkt: hist.append(("ping_arrived", sim.time, pkt.number))),
                wrap(Client, "handle_receive", lambda s, sim, pkt: hist.append(("pong_arrived", sim.time, pkt.number)))]
        random.randint = randint
        undo.append(lambda: setattr(random, "randint", orig_randint))
        try:
            with models.tracing(lambda: models.Tracer(cap, before)) as T:
                DRAWS.on = True
                DRAWS.time_getter = lambda: T.last.time() if T.last else None
                DRAWS.script = self.force()
                cfg = {"kind": "pingpong"}
                cfg.update({k: p[k] for k in ("interval", "channel_delay", "service_delay",
                                              "loss_prob", "max_pings")})
                from .kern import log_config
                kw = {}
                if lim.get("sim") is not None:
                    kw["max_sim_time"] = lim["sim"]
                if lim.get("events") is not None:
                    kw["max_num_events"] = lim["events"]
                if lim.get("real") is not None:
                    kw["max_real_time"] = lim["real"]
                lc = None
                if p["log"]:
                    lc = log_config(p["log"], "A")
                elif p["log"] is None:
                    lc = None
                self.result = models.run_kind(cfg, lc, **kw)
                DRAWS.on = False
        finally:
            for u in undo:
                u()
        self.tr = T.last
        self.draws = [v for s, v, t in DRAWS.log if s == "random.random"]
        return self


def reference(plan, draws, first):
    """Full history of the uncut run from the draws (as far as they go).
    -> (history, fates, complete)"""
    I, C, S = plan["interval"], plan["channel_delay"], plan["service_delay"]
    n = plan["max_pings"]
    t = 0.0
    h, fates = [], []
    k = 0
    while n is None or k < n:
        num = first + k
        h.append(("ping_sent", t, num))
        t = t + C
        h.append(("ping_arrived", t, num))
        if k >= len(draws):
            return h, fates, None, False
        ok = draws[k] > plan["loss_prob"]
        fates.append(ok)
        if ok:
            t = t + S
            h.append(("pong_sent", t, num))
            t = t + C
            h.append(("pong_arrived", t, num))
        t = t + I
        k += 1
    return h, fates, t, True


def explain(sc, prop):
    """Compare the wire with the reference. -> (violations, facts)"""
    p = sc.plan
    v = []

    def bad(rule, msg):
        if len(v) < 6:
            v.append({"rule": prop + "." + rule, "msg": msg})
    lim = p["limits"]
    first = sc.hist[0][2] if sc.hist else 0
    ref, fates, end, complete = reference(p, sc.draws, first)
    got = sc.hist
    i = 0
    for i, (a, b) in enumerate(zip(got, ref)):
        if a[0] != b[0] or a[2] != b[2] or not near(a[1], b[1]):
            bad("order", "step %d: %s of #%d at %r, expected %s of #%d at %r" % (
                (i,) + (a[0], a[2] - first, a[1]) + (b[0], b[2] - first, b[1])))
            break
    else:
        if len(got) > len(ref):
            bad("extra", "unexpected %s of #%d at %r" % (got[len(ref)][0], got[len(ref)][2] - first, got[len(ref)][1]))
    cut = False
    if len(got) < len(ref) or not complete:
        # something is missing: only a cut-off may explain it
        nxt = ref[len(got)] if len(got) < len(ref) else None
        if not lim:
            bad("missing", "the run ended before %s at %r" % (nxt[0] if nxt else "?", nxt[1] if nxt else None))
        elif set(lim) == {"sim"} and nxt is not None and nxt[1] < lim["sim"] - EPS * max(1, lim["sim"]):
            bad("missing", "model-time limit %r, but %s due at %r did not happen" % (lim["sim"], nxt[0], nxt[1]))
        cut = True
    if "sim" in lim:
        late = [h for h in got if h[1] > lim["sim"] + EPS * max(1, lim["sim"])]
        if len(late) > 1:
            bad("late", "%d messages moved after the model-time limit %r" % (len(late), lim["sim"]))
    return v, {"ref": ref, "fates": fates, "end": end, "complete": complete, "cut": cut, "first": first}


def counts(sc, facts):
    """Possible (sent, missed) pairs given what was seen on the wire."""
    p = sc.plan
    n = p["max_pings"]
    sent = sum(1 for h in sc.hist if h[0] == "ping_sent")
    fates = facts["fates"]
    out = set()
    for m in (sent, sent + 1):           # timeouts handled so far
        if n is not None and m > n + 1:
            continue
        s = m if n is None else min(m, n)
        missed = sum(1 for f in fates[:max(0, m - 1)] if not f)
        out.add((s, missed))
    if not facts["cut"] and not p["limits"]:
        out = {(n, sum(1 for f in fates[:n] if not f))}
    return out


class _Ping:
    shrink_keys = ["fates", "stalls", "jumps"]
    components = {"real": ["pysim.models.pingpong", "pysim.sim.simulator", "pysim.sim.logger", "random"],
                  "simulated": ["clocks", "console", "values of random.random in scripted runs"], "stubbed": []}

    def gen(self, rng, i, tier):
        return gen_plan(rng, i, tier)

    def finish(self, sc, v, facts):
        p = sc.plan
        f = {}
        lost = sum(1 for x in facts["fates"] if not x)
        if lost:
            f["ping_lost"] = lost
        if facts["cut"]:
            f["run_cut_short"] = 1
        if sc.stalled:
            f["machine_stall"] = sc.stalled
        if sc.jumped:
            f["wall_clock_jump"] = sc.jumped
        pr = {"pings": sum(1 for h in sc.hist if h[0] == "ping_sent"),
              "loss_then_success": sum(1 for a, b in zip(facts["fates"], facts["fates"][1:]) if not a and b),
              "all_lost": int(bool(facts["fates"]) and not any(facts["fates"])),
              "nothing_sent": int(not sc.hist)}
        res = models.plain(sc.result)
        return outcome(v, (p["interval"], p["channel_delay"], p["service_delay"], p["loss_prob"],
                           sc.hist, res), sc.hist[-1][1] if sc.hist else 0.0, f, pr, sc.tr.n)


class P01(_Ping):
    id = "P01"
    rule = ("ping-pong runs under scripted loss patterns, delays of all magnitudes, cut-offs by model "
            "time, real time and event count, machine stalls and wall-clock steps; non-trivial when at "
            "least 2 events ran; distinct by digest of parameters, wire history and result")
    quick, thorough = 80000, 1000000
    technique = ("deterministic simulation with fault injection: seeded loss patterns, stalls and cut-offs "
                 "on the real model; conservation and reported rates against the wire history")

    def execute(self, plan):
        sc = Scene(plan).run()
        v, facts = explain(sc, "P01")
        v = [x for x in v if x["rule"] in ("P01.missing", "P01.extra")]

        def bad(rule, msg):
            v.append({"rule": "P01." + rule, "msg": msg})
        p = plan
        n = p["max_pings"]
        sent = [h[2] for h in sc.hist if h[0] == "ping_sent"]
        pongs = [h[2] for h in sc.hist if h[0] == "pong_arrived"]
        if n is not None and len(sent) > n:
            bad("sent", "%d pings were sent, the maximum is %d" % (len(sent), n))
        if not p["limits"] and len(sent) != n:
            bad("sent", "%d pings were sent instead of %d" % (len(sent), n))
        if len(set(pongs)) != len(pongs):
            bad("pong", "a pong was accepted twice")
        if set(pongs) - set(sent):
            bad("pong", "a pong answers a ping that was not sent")
        ok = counts(sc, facts)
        r = sc.result
        want = sorted({(m / s if s else 0.0) for s, m in ok})
        if not any(near(r.miss_rate, w) for w in want):
            bad("miss_rate", "reported miss rate %r, true rate %s (sent, missed: %s)" % (
                r.miss_rate, " or ".join(map(repr, want)), sorted(ok)))
        # every arrival of a pong and every loss is followed by one interval
        arrived = sum(1 for h in sc.hist if h[0] == "ping_arrived")
        waits = len(pongs) + sum(1 for f in facts["fates"][:arrived] if not f)
        wi = float(p["interval"]) if waits else 0.0
        if not near(r.avg_interval, wi):
            bad("avg_interval", "reported average interval %r, true %r" % (r.avg_interval, wi))
        wd = float(p["channel_delay"]) if sc.hist else 0.0
        sends = [h for h in sc.hist if h[0].endswith("_sent")]
        if not near(r.avg_delay, wd if sends else 0.0):
            bad("avg_delay", "reported average delay %r, true %r" % (r.avg_delay, wd))
        cl = getattr(getattr(sc.tr.sim, "context", None), "client", None)
        if cl is not None:
            a = getattr(cl, "num_pings_sent", None)
            m = getattr(cl, "num_missed", None)
            k = getattr(cl, "num_acknowledged", None)
            b = getattr(cl, "num_bad_pongs", None)
            if isinstance(a, int) and isinstance(m, int) and (a, m) not in ok:
                bad("counters", "client counts %d sent and %d missed, true %s" % (a, m, sorted(ok)))
            if isinstance(k, int) and k != len(pongs):
                bad("counters", "client counts %d acknowledged, true %d" % (k, len(pongs)))
            if isinstance(b, int) and b:
                bad("counters", "client counts %d bad pongs, there was none" % b)
        return self.finish(sc, v, facts)


class P02(_Ping):
    id = "P02"
    rule = ("ping-pong runs as for P01; every message's departure and arrival time and number compared "
            "with the reference history; distinct by digest of parameters, wire history and result")
    quick, thorough = 80000, 1000000
    technique = ("deterministic simulation with fault injection: seeded loss patterns, stalls and cut-offs "
                 "on the real model; full wire history against a reference history")

    def execute(self, plan):
        sc = Scene(plan).run()
        v, facts = explain(sc, "P02")
        flying = None
        for kind, t, num in sc.hist:
            if kind == "ping_sent":
                if flying is not None:
                    v.append({"rule": "P02.inflight", "msg": "ping #%d sent while #%d is under way" % (
                        num - facts["first"], flying - facts["first"])})
                    break
                flying = num
            elif kind == "pong_arrived":
                flying = None
            elif kind == "ping_arrived":
                k = num - facts["first"]
                if 0 <= k < len(facts["fates"]) and not facts["fates"][k]:
                    flying = None
        arrived = sum(1 for h in sc.hist if h[0] == "ping_arrived")
        if len(sc.draws) != arrived:
            v.append({"rule": "P02.draws", "msg": "%d loss decisions were drawn for %d pings that reached the server" % (
                len(sc.draws), arrived)})
        return self.finish(sc, v, facts)


CHECKS = [P01(), P02()]
