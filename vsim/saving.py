"""C03: saved sweep results. A history of finished sweeps is processed by the
models' own result processing over the simulated disk: some within the same
second, some after the wall clock was stepped back, some into folders that do
not exist yet, some while opening, writing or plotting fails. Everything that
is durable afterwards is compared with what was run."""
import json, os, random as _random, re, shutil
from . import world, models
from .world import CLOCK, DISK, PLOTS
from .kern import outcome
from .sweep import Ping, Rfid, near, ping_single, rfid_single

PING = ("interval", "channel_delay", "service_delay", "loss_prob", "max_pings")
RES = {"pingpong": ("avg_interval", "avg_delay", "miss_rate"),
       "rfid": ("read_tid_prob", "inventory_prob", "rounds_per_tag")}


def documents(text):
    """all JSON documents in a text, in order"""
    dec, out, i = json.JSONDecoder(), [], 0
    while i < len(text):
        if text[i] in "{[":
            try:
                v, i = dec.raw_decode(text, i)
                out.append(v)
                continue
            except ValueError:
                pass
        i += 1
    return out


def jsonable(x):
    return json.loads(json.dumps(x))


def number(rng, coarse=False):
    if coarse:
        return rng.choice([0.0, 1.0, 0.5])
    return rng.choice([0.0, 1.0, rng.random(), rng.random() * 1e-7, rng.uniform(0, 500), 1 / 3, 0.1 + 0.2, 1e22 * rng.random()])


class C03:
    id = "C03"
    quick, thorough = 8000, 200000
    shrink_keys = ["steps"]
    technique = ("deterministic simulation with fault injection: histories of sweeps saved to a simulated disk under a simulated "
                 "wall clock, with failing opens, writes and plots; the durable files and the terminal judged against the runs")
    rule = ("2 to 8 sweeps of the three models saved one after another, often in the same second or after the clock stepped "
            "back, into present or missing folders, with disk full, I/O error, torn write, refused open or failing plot; "
            "non-trivial when two saves finished or a fault fired; distinct by digest of clock, files and terminal")
    components = {"real": ["pysim.models.*.processing", "pysim.models.* and pysim.sim for the sweeps that are run", "json, tabulate"],
                  "simulated": ["disk", "wall clock", "console"],
                  "stubbed": ["matplotlib (records what is plotted and under which name)",
                              "results of part of the sweeps (drawn, of the type the models return)"]}

    def gen(self, rng, i, tier):
        steps = []
        only = rng.choice([None, None, "pingpong", "tag_time", "rfid"])
        for _ in range(rng.choice([1, 2, 3, 4, 6, 8])):
            kind = only or rng.choice(["pingpong", "tag_time", "rfid"])
            s = {"kind": kind, "seed": rng.randrange(1 << 30), "real": rng.random() < 0.25, "single": rng.random() < 0.12,
                 "adv": rng.choice([0, 0, 0, 0.25, 0.5, 1, 1.0, 3, 61]),
                 "jump": rng.choice([0, 0, 0, 0, -0.5, -1, -2, -60, -3600, 3600, -86400]),
                 "save": rng.random() < 0.93, "plot": rng.random() < 0.5,
                 "coarse": rng.random() < 0.35}      # equal results for different values
            n = rng.choice([2, 2, 3, 5, 12])
            if kind == "tag_time":
                s["pt"] = [[[round(rng.uniform(0.3, 1), 3) for _ in range(4)], [round(rng.uniform(0.1, 5), 3) for _ in range(4)]]
                           for _ in range(n)]
                if rng.random() < 0.3:
                    s["pt"][-1] = [list(x) for x in s["pt"][0]]
                s.update(n=rng.choice([1, 3, 7]), chunks=rng.choice([1, 10]), scenario=rng.choice([1, 2, 3]))
            else:
                K = {"pingpong": Ping, "rfid": Rfid}[kind]
                s["var"] = rng.choice(list(K.opts))
                s["params"] = K.gen(rng, [s["var"]], lambda: n)
                v = s["params"][s["var"]]
                if rng.random() < 0.3:
                    v.append(rng.choice(v))
                if kind == "rfid":
                    s["fixed"] = Rfid.fixed(rng)
                    s["real"] = s["real"] and rng.random() < 0.04
            steps.append(s)
        plan = {"seed": rng.randrange(1 << 30), "steps": steps, "dirs": [rng.random() < 0.5, rng.random() < 0.5],
                "wall": rng.choice([1.7e9, 1.7e9 + 0.999, 1.7e9 * rng.random(), 86400 * 19000 - 0.5]), "fault": {}, "plotfail": 0}
        if rng.random() < 0.5:
            a = rng.choice([0, 0, 1, 2, 3])
            plan["fault"] = {"kind": rng.choice(["enospc", "eio", "torn", "open", "open", "slow"]), "from": a,
                             "until": a + rng.choice([1, 1, 2, 100])}
        if rng.random() < 0.15:
            plan["plotfail"] = rng.choice([1, 2])
        return plan

    # ------------------------------------------------------------ one sweep ----
    @staticmethod
    def sweep(s):
        """-> (what the command line hands over, results, expected parameters, expected results as saved)"""
        rng = _random.Random(s["seed"])
        kind = s["kind"]
        if kind == "tag_time":
            from pysim.sim.simulator import ExecutionStats, ExitReason
            kw = {"probability": tuple(tuple(p) for p, _ in s["pt"]), "processing_time": tuple(tuple(t) for _, t in s["pt"]),
                  "max_transmisions": s["n"], "chunks_number": s["chunks"], "scenario": s["scenario"]}
            out = []
            for p, t in s["pt"]:
                if s["real"]:
                    out.append(models.run_kind({"kind": "tagtime", "p": p, "t": t, "n": s["n"], "chunks": s["chunks"],
                                                "scenario": s["scenario"]}))
                else:
                    out.append(ExecutionStats(num_events_processed=rng.randrange(99), sim_time=number(rng, s.get("coarse")), time_elapsed=1.5,
                                              exit_reason=ExitReason.NO_MORE_EVENTS, stop_message="", last_handler=None))
            par = jsonable(kw)
            if s["single"]:
                kw["probability"], kw["processing_time"] = kw["probability"][0], kw["processing_time"][0]
                return kw, out[0], jsonable(kw), [out[0].sim_time / s["n"]]
            return kw, out, par, [o.sim_time / s["n"] for o in out]
        var = s["var"]
        one = {k: v[0] for k, v in s["params"].items()}
        vals = sorted(set(s["params"][var]))
        if s["single"]:
            vals = vals[:1]
            one[var] = vals[0]
        out, exp = [], []
        for v in vals:
            if kind == "pingpong":
                from pysim.models.pingpong.objects import Result
                if s["real"]:
                    r = models.run_kind(dict(one, kind="pingpong", **{var: v}))
                else:
                    c = s.get("coarse")
                    r = Result(avg_interval=number(rng, c), avg_delay=number(rng, c), miss_rate=rng.choice([0.0, 1.0])
                               if c else rng.random())
                exp.append([r.avg_interval, r.avg_delay, r.miss_rate])
            else:
                if s["real"]:
                    m = models.run_kind({"kind": "rfid", "num_tags": 1, "speed": 200.0 + 10 * len(out), "settings": {
                        "tid_word_size": 1, "tag_antenna_x": 5.0}})
                    d = {"rounds_per_tag": m["rounds"], "inventory_prob": m["inventory"], "read_tid_prob": m["tid"]}
                else:
                    d = {"rounds_per_tag": rng.choice([0.0, 12.0]) if s.get("coarse") else rng.uniform(0, 300),
                         "inventory_prob": rng.choice([0.0, 1.0, rng.random()]),
                         "read_tid_prob": rng.choice([0.0, 1.0, rng.random()])}
                    if s.get("coarse"):
                        d["inventory_prob"], d["read_tid_prob"] = rng.choice([(0.0, 0.0), (1.0, 1.0), (1.0, 0.0)])
                r = (d, rng.random())
                exp.append([d[k] for k in RES["rfid"]])
            out.append(r)
        kw = dict(one)
        if kind == "rfid":
            kw.update(s["fixed"])
        par = jsonable(kw)
        if s["single"]:
            return kw, out[0], par, exp[0]
        kw[var] = tuple(s["params"][var])
        par[var] = vals
        return kw, out, par, exp

    @staticmethod
    def valid(s):
        """a shrunk step may have lost what makes it a sweep"""
        if s["kind"] == "tag_time":
            return len(s["pt"]) > 1 and s["n"] > 0 and s["scenario"] in (1, 2, 3) and s["chunks"] > 0 and all(
                len(x) == 2 and len(x[0]) == len(x[1]) == 4 and min(x[0]) > 0 for x in s["pt"])
        return all(len(x) > 1 if k == s["var"] else len(x) == 1 for k, x in s["params"].items()) and \
            s["params"].get("max_pings", [1])[0] > 0 and s["params"].get("interval", [1])[0] > 0

    # -------------------------------------------------------------- execution ----
    def execute(self, plan):
        world.reset(plan["seed"], disk_faults=plan["fault"], wall0=plan["wall"])
        root = os.path.join(DISK.root, "results")
        shutil.rmtree(root, ignore_errors=True)
        for sub, there in zip(("text", "plots"), plan["dirs"]):
            if there:
                os.makedirs(os.path.join(root, sub))
        PLOTS.fail = plan["plotfail"]
        v, hist = [], []

        def bad(rule, msg):
            if len(v) < 3:
                v.append({"rule": "C03." + rule, "msg": msg})
        saved = {}          # complete files: path -> text
        probes, faults = {}, {}

        def probe(k):
            probes[k] = probes.get(k, 0) + 1
        good = 0
        for n, s in enumerate(plan["steps"]):
            CLOCK.advance(s["adv"])
            CLOCK.jump(s["jump"])
            kind = s["kind"]
            if not self.valid(s):
                continue
            fired0 = {k: n_ for k, n_ in DISK.fired.items() if k != "slow"}
            try:
                kw, results, par, exp = self.sweep(s)
            except Exception as e:
                bad("abort", "sweep %d (%s): a run failed: %s: %s" % (n, kind, type(e).__name__, str(e)[:100]))
                break
            before = models.plain(results)
            old_files, old_plots, old_drawn, failed0 = DISK.files(), len(PLOTS.saved), len(PLOTS.plots), PLOTS.failed
            world.STDOUT.reset(None)
            exc = None
            try:
                self.process(kind, s, kw, results)
            except (world.SimCrash, KeyboardInterrupt):
                raise
            except Exception as e:
                exc = e
            text = world.STDOUT.getvalue()
            fired = {k: n_ for k, n_ in DISK.fired.items() if k != "slow"} != fired0
            plot_failed = PLOTS.failed > failed0
            what = "%s results %d (%s)" % (kind, n, "one run" if s["single"] else "%d runs" % len(results))
            files_now = DISK.files()
            changed = {p for p in set(files_now) | set(old_files) if files_now.get(p) != old_files.get(p)}
            hist.append([kind, type(exc).__name__, sorted((os.path.basename(p), files_now.get(p)) for p in changed),
                         PLOTS.saved[old_plots:], PLOTS.plots[old_drawn:], text])
            if exc is not None and not (fired or plot_failed):
                bad("abort", "%s: processing failed without any fault: %s: %s" % (what, type(exc).__name__, str(exc)[:120]))
                break
            for p in sorted(set(saved) & changed):
                bad("overwritten", "%s: %s, saved earlier, was %s" % (
                    what, os.path.basename(p), "removed" if p not in files_now else "overwritten"))
            for p in PLOTS.saved[old_plots:]:
                if os.path.abspath(p) in [os.path.abspath(q) for q in PLOTS.saved[:old_plots]]:
                    bad("overwritten", "%s: plot %s, saved earlier, was overwritten" % (what, os.path.basename(p)))
            if models.plain(results) != before:
                bad("changed", "%s: the results were changed while being processed" % what)
            sh = self.shown(s, text, exp)
            if sh:
                bad("lost" if exc is not None else "shown", "%s: %s%s" % (
                    what, sh, " although only saving failed (%s)" % exc if exc is not None else ""))
            files = kind == "pingpong" if s["single"] else True       # the other models print a single result only
            if not files or not s["save"]:
                if changed - {p for p in changed if p in saved}:
                    pass
                probe("not_saved")
            else:
                complete = [p for p in sorted(changed) if p in files_now and self.matches(files_now[p], s, par, exp) is None]
                if complete:
                    good += 1
                    probe("saved_" + kind)
                    saved[complete[0]] = files_now[complete[0]]
                elif exc is None:
                    new = [p for p in sorted(changed) if p in files_now]
                    why = self.matches(files_now[new[0]], s, par, exp) if new else "no file was written"
                    bad("incomplete" if fired else "content", "%s: saving reported no error, but %s" % (what, why))
                elif not fired and not plot_failed:
                    bad("content", "%s: not saved" % what)
                elif plot_failed and not fired:
                    bad("content", "%s: a plot failed and nothing was saved" % what)
                else:
                    probe("save_failed")
            drawn = PLOTS.plots[old_drawn:]
            if drawn and not s["single"]:
                want = [[float(k) for k in range(len(exp))], exp] if kind == "tag_time" else \
                    [[float(x) for x in par[s["var"]]], [e[0] for e in exp]]
                if drawn[0][:2] != want:
                    bad("plotted", "%s: plotted %r, the runs gave %r" % (what, drawn[0][:2], want))
                probe("plotted")
            if exc is None and not s["single"] and (kind == "rfid" or (kind == "tag_time" and s["plot"])) and \
                    len(PLOTS.saved) == old_plots:
                bad("plotted", "%s: no plot was saved" % what)
            if v:
                break
        for k, m in DISK.fired.items():
            faults["disk_" + k] = m
        if PLOTS.failed:
            faults["plot_failure"] = PLOTS.failed
        if any(s["jump"] < 0 for s in plan["steps"]):
            faults["clock_stepped_back"] = 1
        if any(not s["adv"] and not s["jump"] for s in plan["steps"][1:]):
            probe("same_instant")
        o = outcome(v, hist, 0.0, faults, probes, len(plan["steps"]))
        o["nontrivial"] = good > 1 or any(k != "clock_stepped_back" for k in faults)
        return o

    @staticmethod
    def process(kind, s, kw, results):
        if kind == "pingpong":
            from pysim.models.pingpong.processing import result_processing
            result_processing(kw, results, None if s["single"] else s["var"], save_results=s["save"])
        elif kind == "rfid":
            from pysim.models.rfid.processing import result_processing
            result_processing(kw, results, None if s["single"] else s["var"], save_results=s["save"])
        else:
            from pysim.models.tag_time.processing import result_processing
            result_processing(kw, results, save_res=s["save"], plot_res=s["plot"])

    @staticmethod
    def matches(text, s, par, exp):
        """None if the file holds exactly these parameters and results, else why not"""
        docs = documents(text)
        if len(docs) < 2:
            return "the file holds %d of the two documents (%r)" % (len(docs), text[-60:])
        p, r = docs[0], docs[1]
        if not isinstance(p, dict):
            return "the parameters are %r" % (p,)
        diff = {k: (p.get(k), par[k]) for k in par if p.get(k) != par[k]}
        if diff:
            return "the file gives (what: saved, used) %r" % (diff,)
        kind = s["kind"]
        if kind == "tag_time":
            want = exp
        elif s["single"]:
            want = dict(zip(RES[kind], exp))
        else:
            want = {k: [e[j] for e in exp] for j, k in enumerate(RES[kind])}
        if isinstance(want, dict) and isinstance(r, dict):
            r = {k: r.get(k) for k in want}
        if r != want:
            return "the file holds results %s, the runs gave %s" % (str(r)[:150], str(want)[:150])

    @staticmethod
    def shown(s, text, exp):
        """None if the terminal shows every result against its value, else why not"""
        kind = s["kind"]
        try:
            if kind == "tag_time":
                nums = [float(x) for x in re.findall(r"[-+]?\d+(?:\.\d+)?(?:e[-+]?\d+)?", text)]
                miss = [e for e in exp if not any(near(x, e) for x in nums)]
                return "results %r are not shown" % miss[:3] if miss else None
            if s["single"]:
                got = ping_single(text) if kind == "pingpong" else rfid_single(text)
                if got is None or len(got) != len(exp) or not all(near(a, b) for a, b in zip(got, exp)):
                    return "shown %r, the run gave %r" % (got, exp)
                return None
            K = {"pingpong": Ping, "rfid": Rfid}[kind]
            sh = K.shown(text, None, s["var"])
            vals = sorted(set(s["params"][s["var"]]))
            if not isinstance(sh, list) or len(sh) != len(vals):
                return "no table of all results is shown (%r)" % (sh if not isinstance(sh, list) else len(sh),)
            for value, res in sh:
                k = min(range(len(vals)), key=lambda j: abs(vals[j] - value))
                if not near(value, float(vals[k])) or not all(near(a, b) for a, b in zip(res, exp[k])):
                    return "%s = %r is shown with %r, its run gave %r" % (s["var"], value, res, exp[k])
        except (ValueError, SyntaxError, TypeError, KeyError, IndexError) as e:
            return "the terminal output is not readable (%s)" % type(e).__name__


CHECKS = [C03()]
