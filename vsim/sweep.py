"""Parameter sweeps (C01) and the independence of their runs (C02). The real
command line runs over a simulated worker pool: a seeded scheduler deals the
tasks to workers and orders them, each worker owning the generator state a
forked process would have. Every task's generator state is kept, so each value
can be run again on its own, under the same state, as the reference."""
import ast, os, random as _random, re, shutil
from . import world, models
from .world import DRAWS, POOL as _P, Rng, RngState, CLOCK
from .kern import outcome


class InjectedFault(RuntimeError):
    pass


class SimRec:
    """One simulation: what it executed and which generator states it used."""

    def __init__(self):
        self.events, self.draws, self.prints, self.values, self.last = [], [], [], [], {}
        self.worker, self.task, self.state = None, None, None
        self.done = False

    def key(self):
        return (tuple(self.events), tuple(self.draws))


def print_of(family, state):
    """fingerprint of one global generator, now or as saved in `state`"""
    if family == "np":
        import numpy as np
        st = np.random.get_state() if state is None else state.n
        return "np", hash(st[1].tobytes()), st[2]
    return "random", hash(_random.getstate() if state is None else state.r)


class Watch:
    """Collects the simulations of one CLI call."""
    MAX_PRINTS = 60

    def __init__(self, crash=None, prints=False):
        self.sims = []
        self.tasks = []
        self.cur_task = None
        self.crash = crash          # (simulation number, event number)
        self.fired = 0
        self.prints = prints
        self.stray = []             # draws of a task before its simulation starts
        self.attrs = []

    def on_task(self, pool, worker, i, phase):
        if phase == "start":
            self.cur_task = {"i": i, "pool": pool, "worker": worker, "state": RngState(), "sims": []}
            self.tasks.append(self.cur_task)
        else:
            self.cur_task = None
            self.idle_state = RngState()

    def factory(self):
        return models.Tracer(400000, self.before, None, self.on_init)

    def on_init(self, tr, sim):
        r = SimRec()
        r.n = len(self.sims)
        r.tr = tr
        if self.cur_task is not None:
            r.worker = (self.cur_task["pool"], self.cur_task["worker"])
            r.state = self.cur_task["state"]
            r.task = self.cur_task["i"]
            self.cur_task["sims"].append(r)
        else:
            r.state = self.main_state
        self.sims.append(r)
        r.events, r.draws = [], []
        tr.rec = r

    def before(self, tr, sim, fn, args):
        r = tr.rec
        name = getattr(fn, "__qualname__", None) or type(fn).__name__
        r.events.append((sim.time, name))
        if self.crash is not None and r.n == self.crash[0] and len(r.events) > self.crash[1] and not self.fired:
            self.fired += 1
            raise InjectedFault("injected failure of simulation %d at event %d" % self.crash)
        if len(r.events) == 1 and self.attr_of is not None:
            r.attr = self.attr_of(sim)

    attr_of = None

    def draw(self, src, value):
        r = self.sims[-1] if self.sims else None
        if r is None or (self.cur_task is not None and r.state is not self.cur_task["state"]):
            return
        r.draws.append((src, value))
        if self.prints and len(r.prints) < self.MAX_PRINTS:
            fp = print_of("np" if src.startswith("np.") else "random", None)
            last = r.last.get(fp[0])
            if last is None:
                last = print_of(fp[0], r.state)
            if fp != last:             # the draw consumed something (a range of one value does not)
                r.prints.append(fp)
                r.values.append((src, value))
            r.last[fp[0]] = fp


def call_cli(args, watch, state=None):
    """Run `sim <args>` in this process -> (return value, exception, output)."""
    import click
    from pysim.main import cli
    from .engine import Hang, Cap
    ret = exc = None
    world.STDOUT.reset(None)
    watch.main_state = RngState()
    if state is not None:
        state.restore()
        watch.main_state = state
    world.POOL.on_task = watch.on_task
    DRAWS.hook = watch.draw
    try:
        with models.tracing(watch.factory):
            try:
                ret = cli.main(args=[str(a) for a in args], prog_name="sim", standalone_mode=False)
            except (Hang, Cap, KeyboardInterrupt):
                raise
            except BaseException as e:
                exc = e
    finally:
        world.POOL.on_task = None
        DRAWS.hook = None
    return ret, exc, world.STDOUT.getvalue()


# ------------------------------------------------------------- reading output ----
def tables(text):
    out, cur = [], None
    for line in text.splitlines():
        if line.startswith("|"):
            if cur is None:
                cur = []
                out.append(cur)
            cur.append([c.strip() for c in line.strip().strip("|").split("|")])
        elif line.startswith("+") and cur is not None:
            continue
        else:
            cur = None
    return out


def num(s):
    try:
        return float(s)
    except (TypeError, ValueError):
        return s


def near(a, b, rel=1e-4):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return str(a) == str(b)
    return abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-9


def pairs(table):
    return {r[0]: r[1] for r in table if len(r) == 2}


def ping_single(text):
    """numbers of the single-run report, in order: interval, delay, miss rate"""
    v = re.findall(r"^- [^\n]*?= *(\S+) *$", text, re.M)
    return [num(x) for x in v[:3]]


def rfid_single(text):
    for t in tables(text):
        d = pairs(t)
        if "inventory_prob" in d:
            return [num(d["read_tid_prob"]), num(d["inventory_prob"]), num(d["rounds_per_tag"])]
    return None


# -------------------------------------------------------------------- models ----
class Ping:
    base = ["run", "pingpong"]
    opts = {"interval": "-i", "channel_delay": "-ch", "service_delay": "-s", "loss_prob": "-l", "max_pings": "-mp"}

    @staticmethod
    def shown(text, ret, var):
        """-> list of (value, results) as displayed"""
        ts = [pairs(t) for t in tables(text)]
        par = next((d for d in ts if var in d), None)
        res = next((d for d in ts if "miss_rate" in d), None)
        if par is None or res is None:
            return None

        def lst(s):
            v = ast.literal_eval(s)
            return list(v) if isinstance(v, (list, tuple)) else [v]
        vals = lst(par[var])
        cols = [lst(res[k]) for k in ("avg_interval", "avg_delay", "miss_rate")]
        if any(len(c) != len(vals) for c in cols):
            return "lengths differ: %d values, %s results" % (len(vals), [len(c) for c in cols])
        return [(num(v), [num(c[k]) for c in cols]) for k, v in enumerate(vals)]

    single = staticmethod(lambda text, ret: ping_single(text))
    attr_of = None

    @staticmethod
    def direct(p, var, v, state):
        """the same run through the model's own entry point"""
        cfg = {"kind": "pingpong", **{k: x[0] for k, x in p.items()}}
        cfg[var] = v
        return cfg

    @staticmethod
    def gen(rng, var, vals):
        p = {"interval": [round(rng.uniform(1, 20), 3)], "channel_delay": [round(rng.uniform(0, 4), 3)],
             "service_delay": [round(rng.uniform(0, 4), 3)], "loss_prob": [round(rng.random() * 0.8, 3)],
             "max_pings": [rng.randint(3, 40)]}
        for name in var:
            k = vals()
            pool = {"loss_prob": lambda: round(rng.random(), 3), "max_pings": lambda: rng.randint(1, 40),
                    "interval": lambda: round(rng.uniform(0.5, 30), 2)}.get(name, lambda: round(rng.uniform(0, 6), 2))
            p[name] = [pool() for _ in range(k)]
        return p


class Rfid:
    base = ["run", "rfid"]
    opts = {"speed": "-s", "tid_word_size": "-ws", "altitude": "-a", "reader_offset": "-ro", "tag_offset": "-to",
            "power": "-p"}

    @staticmethod
    def shown(text, ret, var):
        t = next((t for t in tables(text) if t and t[0] and t[0][0] == var and "inventory_prob" in t[0]), None)
        if t is None:
            return None
        h = t[0]
        ix = [h.index(k) for k in ("read_tid_prob", "inventory_prob", "rounds_per_tag")]
        return [(num(r[0]), [num(r[i]) for i in ix]) for r in t[1:]]

    single = staticmethod(lambda text, ret: rfid_single(text))

    @staticmethod
    def attr_of(sim):
        m = sim.context
        r, g = m.reader, m.generators[0]
        a = r.get_antenna(0)
        return {"speed": float(g.velocity) * 3.6, "tid_word_size": r.read_tid_words_num, "altitude": float(a.pos[2]),
                "reader_offset": float(a.pos[0]), "tag_offset": float(g.pos0[0]), "power": float(r.max_power),
                "tari": float(r.tari) * 1e6, "encoding": float(r.tag_encoding.symbols_per_bit),
                "num_tags": m.max_tags_num, "useadjust": bool(r.use_query_adjust), "delta": float(r.adjust_delta)}

    @staticmethod
    def gen(rng, var, vals):
        p = {"speed": [rng.choice([250, 400, 600, 900])], "tid_word_size": [rng.choice([1, 2, 4, 8])],
             "altitude": [rng.choice([1.0, 2.5, 3.0, 5.0])], "reader_offset": [rng.choice([1.0, 3.0, 5.0])],
             "tag_offset": [rng.choice([0.5, 1.0, 3.0, 5.0])], "power": [rng.choice([29, 31, 26])]}
        for name in var:
            k = vals()
            pool = {"speed": lambda: rng.randint(150, 1200), "tid_word_size": lambda: rng.randint(0, 12),
                    "power": lambda: rng.randint(20, 36)}.get(name, lambda: round(rng.uniform(0.5, 7), 1))
            p[name] = [pool() for _ in range(k)]
        return p

    @staticmethod
    def fixed(rng):
        adj = rng.random() < 0.5
        return {"tari": rng.choice(["12.5", "18.75", "25", "25"]), "encoding": rng.choice(["1", "2", "4", "8"]),
                "num_tags": rng.choice([1, 1, 2]), "useadjust": adj, "delta": rng.choice([0.1, 0.3, 0.5, 1.0])}

    @staticmethod
    def fixed_args(f):
        return ["-t", f["tari"], "-m", f["encoding"], "-n", f["num_tags"], "-d", f["delta"]] + \
            (["-ua"] if f["useadjust"] else [])


KINDS = {"pingpong": Ping, "rfid": Rfid}


def argv(plan, params):
    K = KINDS[plan["kind"]]
    a = list(K.base) + list(plan.get("sub", []))
    order = list(params)
    for name in order:
        for v in params[name]:
            a += [K.opts[name], v]
    if plan["kind"] == "rfid":
        a += Rfid.fixed_args(plan["fixed"])
    return a


def tag_args(plan, idx):
    a = ["run", "tag_time"]
    for k in idx:
        a += ["-p"] + plan["pt"][k][0] + ["-t"] + plan["pt"][k][1]
    return a + ["-m", plan["n"], "-cn", plan["chunks"], "-s", plan["scenario"]]


class _Sweep:
    shrink_keys = ["pt", "pre"]
    components = {"real": ["pysim.main command line", "pysim.models.*.cli", "pysim.models.*.processing", "all three models",
                           "pysim.sim", "numpy and random generators", "pickling of tasks and results"],
                  "simulated": ["worker pool: assignment, order and failure of tasks, per-worker generator state", "clocks",
                                "console", "entropy"],
                  "stubbed": ["matplotlib (records what is plotted)"]}

    def gen_base(self, rng, i):
        kind = rng.choice(["pingpong"] * 6 + ["tag_time"] * 5 + ["rfid"])
        plan = {"kind": kind, "seed": rng.randrange(1 << 30), "ncpu": rng.choice([1, 2, 3, 4, 8]),
                "pre": [rng.randint(0, 3) for _ in range(rng.choice([0, 0, 1]))]}
        if kind == "tag_time":
            n = rng.choice([1, 2, 2, 3, 4, 6, 12])
            pt = []
            for _ in range(n):
                if pt and rng.random() < 0.25:
                    pt.append([list(x) for x in rng.choice(pt)])
                else:
                    pt.append([[round(rng.uniform(0.3, 1), 3) for _ in range(4)],
                               [round(rng.uniform(0.1, 5), 3) for _ in range(4)]])
            plan.update(pt=pt, n=rng.choice([2, 5, 20]), chunks=rng.choice([1, 3, 10]), scenario=rng.choice([1, 2, 3]))
            return plan
        K = KINDS[kind]
        plan["var"] = rng.choice(list(K.opts))
        big = 5 if kind == "rfid" else 12
        plan["params"] = K.gen(rng, [plan["var"]], lambda: rng.choice([2, 2, 3, 4, big]) if kind != "rfid"
                               else rng.choice([2, 2, 3]))
        v = plan["params"][plan["var"]]
        if rng.random() < 0.3:
            v.append(rng.choice(v))
        if rng.random() < 0.15 and isinstance(v[0], float) and v[0] > 0:
            # a value that differs from another one only far behind the point
            v.append(v[0] * (1 + rng.choice([1e-5, 1e-7, -1e-7, 1e-9, 1e-12])) if plan["var"] != "loss_prob"
                     else v[0] * (1 - rng.choice([1e-5, 1e-7, 1e-9, 1e-12])))
        if rng.random() < 0.2:
            v.sort()
        if rng.random() < 0.05:
            plan["params"][plan["var"]] = [v[0]] * 3
        if kind == "rfid":
            plan["fixed"] = Rfid.fixed(rng)
        return plan

    def setup(self, plan):
        world.reset(plan["seed"], ncpu=plan["ncpu"])
        shutil.rmtree(os.path.join(world.DISK.root, "results"), ignore_errors=True)
        for k in plan["pre"]:
            import numpy as np
            for _ in range(k):
                np.random.uniform()
                _random.random()


# ====================================================================== C01 ====
class C01(_Sweep):
    id = "C01"
    quick, thorough = 2500, 60000
    technique = ("deterministic simulation with fault injection: the real command line over a simulated worker pool with "
                 "seeded task assignment, order and failures; every displayed result re-derived by running its value alone "
                 "under the generator state its task had")
    rule = ("sweeps of ping-pong, tag-time and RFID with unsorted and repeated values over a simulated pool of 1 to 8 workers; "
            "runs made to fail at a random event; several swept parameters; non-trivial when at least two values were swept "
            "or a fault fired; distinct by digest of command line, task schedule and all events")

    def gen(self, rng, i, tier):
        plan = self.gen_base(rng, i)
        r = rng.random()
        plan["mode"] = "sweep"
        if r < 0.16:
            plan["mode"] = "fail"
            plan["crash"] = [rng.randrange(6), rng.choice([0, 1, 5, 20, 60])]
        elif r < 0.26 and plan["kind"] != "tag_time":
            plan["mode"] = "refuse"
            K = KINDS[plan["kind"]]
            other = rng.choice([o for o in K.opts if o != plan["var"]])
            q = K.gen(rng, [other], lambda: 2)[other]
            if rng.random() < 0.3:
                q = [q[0], q[0]]
            plan["params"][other] = q
        elif r < 0.34 and plan["kind"] == "tag_time":
            plan["mode"] = "refuse"
            plan["extra"] = rng.choice(["p", "t"])
        return plan

    def execute(self, plan):
        self.setup(plan)
        v = []

        def bad(rule, msg):
            if len(v) < 3:
                v.append({"rule": "C01." + rule, "msg": msg})
        mode, kind = plan["mode"], plan["kind"]
        hist = [kind, mode]
        faults, probes = {}, {}
        w = Watch(tuple(plan["crash"]) if mode == "fail" else None)
        K = KINDS.get(kind)
        if K is not None:
            w.attr_of = K.attr_of if kind == "rfid" else None
            args = argv(plan, plan["params"])
            vals = sorted(set(plan["params"][plan["var"]]))
            nruns = len(vals)
        else:
            args = tag_args(plan, range(len(plan["pt"])))
            nruns = len(plan["pt"])
            if mode == "refuse":
                p = plan["pt"][0]
                args += (["-p"] + p[0]) if plan["extra"] == "p" else (["-t"] + p[1])
        ret, exc, out = call_cli(args, w)
        line = " ".join(str(a) for a in args)
        ev = sum(len(s.events) for s in w.sims)
        t = max((s.events[-1][0] for s in w.sims if s.events), default=0.0)
        hist += [list(world.POOL.sched), [s.key() for s in w.sims]]
        probes["sweep_" + kind] = 1
        probes["pool_tasks"] = len(w.tasks)
        if len({x["worker"] for x in w.tasks}) > 1:
            probes["several_workers"] = 1
        if [x["i"] for x in w.tasks] != sorted(x["i"] for x in w.tasks):
            probes["tasks_out_of_order"] = 1
            faults["reordered_tasks"] = 1

        def done(nontrivial):
            o = outcome(v, hist, t, faults, probes, ev)
            o["nontrivial"] = bool(nontrivial)
            return o
        if mode == "refuse":
            if exc is None:
                bad("refuse", "`sim %s` gives several values to two parameters and was accepted" % line)
            if w.sims:
                bad("refuse", "`sim %s` was refused after %d runs" % (line, len(w.sims)))
            probes["refused"] = int(exc is not None)
            return done(True)
        if mode == "fail" and w.fired:
            faults["failed_run"] = 1
            if exc is None:
                bad("failure", "`sim %s`: simulation %d failed and the sweep reported success" % (line, plan["crash"][0]))
            elif nruns > 1 and K is not None:
                sh = self.shown(K, out, ret, plan)
                if sh:
                    bad("failure", "`sim %s`: a run failed and results are shown for %d values" % (line, len(sh)))
            return done(True)
        if exc is not None:
            bad("abort", "`sim %s` failed: %s: %s" % (line, type(exc).__name__, str(exc)[:150]))
            return done(True)
        if len(w.sims) != nruns:
            bad("count", "`sim %s`: %d runs for %d distinct values" % (line, len(w.sims), nruns))
            return done(True)
        sched = [(x["i"], x["worker"]) for x in w.tasks]
        save = RngState()
        if K is None:
            self.check_tag(plan, w, ret, out, line, bad)
        else:
            self.check_values(plan, K, vals, w, ret, out, line, bad, probes)
        save.restore()
        hist.append(sched)
        return done(nruns > 1 or faults)

    @staticmethod
    def shown(K, out, ret, plan):
        try:
            return K.shown(out, ret, plan["var"])
        except Exception as e:
            return "unreadable (%s)" % type(e).__name__

    def alone(self, plan, K, value, state):
        """the same command line with this value only"""
        params = {k: list(x) for k, x in plan["params"].items()}
        params[plan["var"]] = [value]
        w = Watch()
        ret, exc, out = call_cli(argv(plan, params), w, state)
        if exc is not None or len(w.sims) != 1:
            return None, "failed: %r" % (exc,)
        return w.sims[0], K.single(out, ret)

    def check_values(self, plan, K, vals, w, ret, out, line, bad, probes):
        kind, var = plan["kind"], plan["var"]
        # which run belongs to which value?
        used, truth = set(), {}
        order = list(range(len(w.sims)))
        order.sort(key=lambda k: (w.sims[k].task is None, w.sims[k].task))
        for n, value in enumerate(vals):
            cand = [order[n]] + [k for k in order if k != order[n]] if n < len(order) else list(order)
            for k in cand:
                if k in used:
                    continue
                s = w.sims[k]
                rec, res = self.alone(plan, K, value, s.state)
                probes["reference_runs"] = probes.get("reference_runs", 0) + 1
                if rec is not None and rec.key() == s.key():
                    used.add(k)
                    truth[value] = (res, s)
                    break
            else:
                bad("params", "`sim %s`: no run of the sweep behaves like a run with %s = %r alone" % (line, var, value))
                return
        if kind == "pingpong":
            for value in vals:
                cfg = Ping.direct(plan["params"], var, value, None)
                s = truth[value][1]
                s.state.restore()
                w2 = Watch()
                w2.main_state = s.state
                DRAWS.hook = w2.draw
                try:
                    with models.tracing(w2.factory):
                        models.run_kind(cfg)
                finally:
                    DRAWS.hook = None
                if w2.sims[0].key() != s.key():
                    bad("params", "`sim %s`: the run for %s = %r does not behave like the model with these parameters" % (
                        line, var, value))
                    return
        if kind == "rfid":
            want = {k: x[0] for k, x in plan["params"].items()}
            f = plan["fixed"]
            want.update(tari=float(f["tari"]), encoding=float(f["encoding"]), num_tags=f["num_tags"],
                        useadjust=f["useadjust"], delta=f["delta"])
            for value in vals:
                want[var] = value
                s = truth[value][1]
                diff = {k: (s.attr[k], want[k]) for k in want if not near(float(s.attr[k]), float(want[k]), 1e-9)}
                if diff:
                    bad("params", "`sim %s`: the run for %s = %r uses (what: used, asked) %r" % (line, var, value, diff))
                    return
        if len(plan["params"][var]) == 1:
            return
        sh = self.shown(K, out, ret, plan)
        if not isinstance(sh, list):
            bad("shown", "`sim %s`: no table of results (%s)" % (line, sh))
            return
        if len(sh) != len(vals) or any(not near(a, float(b)) for (a, _), b in zip(sorted(sh, key=lambda x: x[0]), vals)):
            bad("shown", "`sim %s`: results are shown for %s, the distinct values are %s" % (line, [a for a, _ in sh], vals))
            return
        # a display rounds, so values very close to each other are told apart by their results only
        free = list(vals)
        for a, res in sh:
            cand = [x for x in free if near(a, float(x))] or [min(vals, key=lambda x: abs(x - a))]
            hit = [x for x in cand if truth[x][0] is not None and len(res) == len(truth[x][0]) and
                   all(near(x2, y) for x2, y in zip(res, truth[x][0]))]
            if not hit:
                value = min(cand, key=lambda x: abs(x - a))
                bad("shown", "`sim %s`: %s = %r is shown with %r, its run gave %r" % (line, var, a, res, truth[value][0]))
                return
            # a further row for the same value, when a second one is near, would be a lost value
            value = min(hit, key=lambda x: (abs(x - a), x))
            if value in free:
                free.remove(value)
        if free and len({str(r) for _, r in sh}) == len(sh):
            bad("shown", "`sim %s`: no result of %s = %r is shown" % (line, var, free[0]))
            return
        if kind == "rfid":
            for data in world.PLOTS.plots[:1]:
                if len(data) < 2 or not isinstance(data[0], list):
                    continue
                x, y = data[0], data[1]
                for a, b in zip(x, y):
                    value = min(vals, key=lambda z: abs(z - a))
                    if not near(a, float(value)) or not any(near(b, truth[z][0][0]) for z in vals if near(a, float(z))):
                        bad("plotted", "`sim %s`: plotted %r at %s = %r, its run gave %r" % (
                            line, b, var, a, truth[value][0][0]))
                        return
                if len(x) != len(vals):
                    bad("plotted", "`sim %s`: %d points for %d values" % (line, len(x), len(vals)))

    def check_tag(self, plan, w, ret, out, line, bad):
        n = len(plan["pt"])
        order = sorted(range(n), key=lambda k: (w.sims[k].task is None, w.sims[k].task))
        many = n > 1
        if many and (not isinstance(ret, list) or len(ret) != n):
            return bad("shown", "`sim %s`: %r returned for %d parameter sets" % (line, type(ret).__name__, n))
        used = set()
        for k in range(n):
            got = models.plain(ret[k]) if many else models.plain(ret)
            for c in [order[k]] + [c for c in order if c != order[k]]:
                if c in used:
                    continue
                s = w.sims[c]
                s.state.restore()
                w2 = Watch()
                w2.main_state = s.state
                DRAWS.hook = w2.draw
                try:
                    with models.tracing(w2.factory):
                        p, t = plan["pt"][k]
                        res = models.plain(models.run_kind({"kind": "tagtime", "p": p, "t": t, "n": plan["n"],
                                                            "chunks": plan["chunks"], "scenario": plan["scenario"]}))
                finally:
                    DRAWS.hook = None
                if w2.sims[0].key() == s.key() and res == got:
                    used.add(c)
                    break
            else:
                return bad("shown", "`sim %s`: result %d (%s) is not that of parameter set %r" % (
                    line, k, str(got)[:100], plan["pt"][k]))


# ====================================================================== C02 ====
class C02(_Sweep):
    id = "C02"
    quick, thorough = 2500, 60000
    technique = ("deterministic simulation: the real command line over a simulated worker pool in which every worker holds the "
                 "generator state a forked process would have; generator states recorded at every draw of every run")
    rule = ("sweeps of all three models over simulated pools of 1 to 8 workers with random task assignment and parent "
            "generator states; no generator state after a draw may occur in two runs, and runs of equal parameters may not be "
            "copies; non-trivial when two or more runs drew random numbers; distinct by digest of schedule and draws")

    def gen(self, rng, i, tier):
        plan = self.gen_base(rng, i)
        plan["ncpu"] = rng.choice([1, 2, 3, 4, 8, 8])
        if plan["kind"] == "tag_time":
            plan["n"] = 20
            while len(plan["pt"]) < 2:
                plan["pt"].append([list(x) for x in plan["pt"][0]])
            if rng.random() < 0.5:
                base = [[0.5, 0.6, 0.4, 0.5], [1.0, 1.0, 1.0, 1.0]]
                plan["pt"] = [[list(base[0]), list(base[1])] for _ in range(rng.choice([2, 3, 6]))]
                plan["n"] = 60
        return plan

    def execute(self, plan):
        self.setup(plan)
        v = []
        w = Watch(prints=True)
        K = KINDS.get(plan["kind"])
        args = argv(plan, plan["params"]) if K is not None else tag_args(plan, range(len(plan["pt"])))
        ret, exc, out = call_cli(args, w)
        line = " ".join(str(a) for a in args)
        seen = {}
        for k, s in enumerate(w.sims):
            for j, fp in enumerate(s.prints):
                if fp in seen and seen[fp][0] != k:
                    o, oj = seen[fp]
                    v.append({"rule": "C02.same_stream", "msg": "`sim %s`: runs %s and %s (workers %s and %s) draw from the "
                              "same %s stream (draw %d = draw %d, e.g. %r)" % (
                                  line, w.sims[o].task, s.task, w.sims[o].worker, s.worker, fp[0], oj, j, s.values[j])})
                    break
                seen[fp] = (k, j)
            if v:
                break
        if not v and plan["kind"] == "tag_time" and plan["n"] >= 60:
            keys = {}
            for k, s in enumerate(w.sims):
                if s.key() in keys:
                    v.append({"rule": "C02.copy", "msg": "`sim %s`: runs %d and %d executed exactly the same" % (
                        line, keys[s.key()], k)})
                    break
                keys[s.key()] = k
        drew = sum(1 for s in w.sims if s.prints)
        probes = {"sweep_" + plan["kind"]: 1, "runs_with_draws": drew,
                  "workers_used": len({s.worker for s in w.sims})}
        if exc is not None:
            probes["sweep_failed"] = 1       # C01 judges that
        faults = {}
        if [x["i"] for x in w.tasks] != sorted(x["i"] for x in w.tasks):
            faults["reordered_tasks"] = 1
        t = max((s.events[-1][0] for s in w.sims if s.events), default=0.0)
        o = outcome(v, [list(world.POOL.sched), [s.key() for s in w.sims]], t, faults, probes,
                    sum(len(s.events) for s in w.sims))
        o["nontrivial"] = drew > 1
        return o


CHECKS = [C01(), C02()]
