"""K07 on the models themselves: several whole model runs (RFID, ping-pong,
tag-time) interleaved in one process. Each run has its own state of the random
generators, swapped in with it, so that it must repeat, event by event and draw
by draw, what it does alone in a process of its own."""
import os, threading
from . import world, models
from .world import CLOCK, DISK, DRAWS, RngState
from .child import in_child, warm
from .det import gen_cfg, reseed, res_diff
from .kern import Baton, outcome, first_diff, log_config

FMT = "{simTime!r}|{levelname}|{name}|{funcName}|{message}"


def gen_models(rng):
    n = rng.choice([2, 2, 3])
    cfgs = []
    first = gen_cfg(rng)
    while first["kind"] == "prog":
        first = gen_cfg(rng)
    cfgs.append(first)
    while len(cfgs) < n:
        c = models.vary(first, rng, rng.choice([0, 1, 1, 3])) if rng.random() < 0.7 else gen_cfg(rng)
        if c["kind"] != "prog":
            cfgs.append(c)
    mode = rng.choice(["threads", "threads", "nest", "nest2"])
    return {"mode": "models", "how": mode, "cfgs": cfgs, "seeds": [rng.randrange(1 << 30) for _ in cfgs],
            "level": [rng.choice([0, 0, 30, 20, 10]) for _ in cfgs], "at": rng.choice([0, 1, 3, 10, 30]),
            "choices": [rng.randrange(12) for _ in range(rng.choice([20, 60, 200]))], "burst": rng.choice([1, 1, 4, 15])}


class Group:
    """Runs the configurations; `park(k)` is called before every event of run k."""

    def __init__(self, plan, only=None):
        self.plan = plan
        n = len(plan["cfgs"])
        self.rec = [{"ev": [], "draws": [], "res": None, "exc": None, "log": None, "t": 0.0} for _ in range(n)]
        self.cur = None
        self.only = only
        self.park = lambda k: None

    def draw(self, src, value):
        if self.cur is not None:
            self.rec[self.cur]["draws"].append([src, models.plain(value)])

    def leave(self, k):
        """let others run, then go on with this run's generators"""
        s = RngState()
        self.park(k)
        self.cur = k
        s.restore()

    def job(self, k):
        outer, outer_k = RngState(), self.cur
        self.cur = k
        r = self.rec[k]
        p = self.plan
        reseed(p["seeds"][k])
        lc = None
        if p["level"][k]:
            lc = log_config({"level": p["level"][k], "fmt": FMT, "style": "{", "file_name": "m%d.log" % k,
                             "file_level": p["level"][k]}, "")
        try:
            r["res"] = models.plain(models.run_kind(p["cfgs"][k], lc))
        except Exception as e:
            r["exc"] = repr(e)
        path = os.path.join(DISK.root, "m%d.log" % k)
        r["log"] = (DISK.durable.get(path) or "").split("\n") if p["level"][k] else None
        self.cur = outer_k
        outer.restore()

    def tracer(self):
        k = self.cur
        r = self.rec[k]

        def before(tr, sim, fn, args):
            self.leave(k)
            r["ev"].append(["E", tr.events[-1][1], models.plain(tr.events[-1][0])])
            r["t"] = float(tr.events[-1][0])
        return models.Tracer(200000, before, None, lambda tr, sim: self.leave(k))

    def run(self):
        p = self.plan
        world.reset(1)
        n = len(p["cfgs"])
        switches = 0
        with models.tracing(self.tracer):
            DRAWS.hook = self.draw
            try:
                if self.only is not None:
                    self.job(self.only)
                elif p["how"] == "threads":
                    b = Baton(p["choices"], n)
                    left = [p["burst"]] * n

                    def park(k):
                        left[k] -= 1
                        if left[k] <= 0:
                            left[k] = p["burst"]
                            b.park(k)
                    self.park = park
                    ths = [threading.Thread(target=b.body, args=(k, lambda k=k: self.job(k)), daemon=True) for k in range(n)]
                    b.drive(ths)
                    switches = b.switches
                else:
                    # run 1.. inside an event of run 0 (or of one another)
                    todo = list(range(1, n))
                    seen = {}

                    def park(k):
                        seen[k] = seen.get(k, -1) + 1
                        if todo and seen[k] == p["at"] and (k == 0 or p["how"] == "nest2"):
                            while todo:
                                self.job(todo.pop(0))
                                if p["how"] == "nest2":
                                    break
                    self.park = park
                    self.job(0)
                    while todo:
                        self.job(todo.pop(0))
            finally:
                DRAWS.hook = None
        return {"rec": self.rec, "switches": switches}


def execute(plan):
    warm()
    n = len(plan["cfgs"])
    alone = [in_child(lambda: Group(plan, k).run()["rec"][k]) for k in range(n)]
    got = in_child(lambda: Group(plan).run())
    v = []
    for k in range(n):
        a, g = alone[k], got["rec"][k]
        who = "run %d (%s, %s)" % (k, plan["cfgs"][k]["kind"], plan["how"])
        if a["exc"] != g["exc"]:
            v.append({"rule": "K07.modelabort", "msg": "%s: alone it ended with %s, together with others %s" % (
                who, a["exc"], g["exc"])})
            continue
        for what in ("ev", "draws", "log"):
            d = first_diff(g[what] or [], a[what] or [])
            if d:
                v.append({"rule": "K07.model" + what, "msg": "%s is not as when run alone: %s" % (who, d)})
                break
        else:
            if a["res"] != g["res"]:
                v.append({"rule": "K07.modelresult", "msg": "%s: %s (together / alone)" % (who, res_diff(g["res"], a["res"]))})
    ev = sum(len(r["ev"]) for r in got["rec"])
    pr = {"mode_models_" + plan["how"]: 1, "thread_switches": got["switches"], "model_events": ev}
    for c in plan["cfgs"]:
        pr["model_" + c["kind"]] = pr.get("model_" + c["kind"], 0) + 1
    o = outcome(v, (plan["how"], got), sum(r["t"] for r in got["rec"]), {}, pr, ev)
    o["nontrivial"] = sum(1 for r in got["rec"] if r["ev"]) >= 2
    return o
