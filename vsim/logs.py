"""L03: histories of set-ups and records of several ModelLoggers against a list
of what each destination must hold."""
import os, re

from . import world
from .world import DISK, STDERR, CLOCK
from .kern import SITES, LEVEL_OF, FMT, ANSI, LINE, log_config, gen_log_config, outcome

RESET = "\x1b[0m"
TB = "Traceback (most recent call last):"


class Holder:
    """what the log call sites expect: an object with a .logger"""

    def __init__(self, logger):
        self.logger = logger


class Ref:
    def __init__(self, k, spec):
        self.k, self.name = k, spec["name"]
        self.run = spec["run"]              # None: chosen by the logger
        self.t = spec["t"]
        self.conf = None
        self.file = None
        self.n = 0


DEFAULTS = {}


def default_colors():
    """what the untouched process wraps a record of each level in"""
    if not DEFAULTS:
        from pysim.sim.logger import ModelLogger, ModelLoggerConfig
        world.reset(1)
        lg = ModelLogger("defaults", run_id=1)
        lg.setup(ModelLoggerConfig(fmt="~{message}", style="{", level=10, use_console=True, colored_console=True))
        for lv in (10, 20, 30, 40, 50):
            STDERR.reset(None)
            lg.log(lv, "x")
            DEFAULTS[lv] = STDERR.getvalue().split("~")[0]
    return DEFAULTS


class L03:
    id = "L03"
    quick, thorough = 60000, 2000000
    shrink_keys = ["ops"]
    technique = ("deterministic simulation with fault injection: seeded histories of set-ups, forced set-ups, run-id and "
                 "time-source changes and records of several loggers, with failing disk, failing console and process "
                 "crash, against the list of what each destination must hold")
    rule = ("interleaved histories of 1-3 loggers (set-up, ignored and forced set-up, run id, time source, records of all "
            "kinds) with a failing disk or console or a process crash; non-trivial when at least one record was due "
            "somewhere; distinct by digest of history, configurations and faults")
    components = {"real": ["pysim.sim.logger", "the standard logging package"],
                  "simulated": ["disk", "console", "process crash", "entropy"], "stubbed": []}

    def gen(self, rng, i, tier):
        n = rng.choice([1, 1, 2, 3])
        names = [rng.choice(["m", "m", "model x"]) for _ in range(n)]
        specs = [{"name": names[k], "run": rng.choice([None, None, 1, 77, 123456]),
                  "t": rng.choice([None, 0.0, 12.5])} for k in range(n)]
        ops = []
        styles = {}

        def setup(k, force):
            cfg = gen_log_config(rng, rng.choice(["l%d.log" % k, "l%d.log" % k, "l%d-x%d.log" % (k, len(ops)), "l%d" % k]))
            cfg["style"] = rng.choice(["{", "%", "$"])
            cfg["fmt"] = FMT[cfg["style"]]
            if cfg.get("colored_console") and rng.random() < 0.4:
                cfg["console_colors"] = {str(l): "\x1b[%dm" % rng.choice([31, 35, 36]) for l in (10, 20, 30, 40, 50)
                                         if rng.random() < 0.5}
            ops.append([k, "setup", cfg, force])
        for k in range(n):
            setup(k, rng.random() < 0.2)
        for _ in range(rng.choice([4, 10, 25])):
            k = rng.randrange(n)
            r = rng.random()
            if r < 0.62:
                how = rng.choice(["debug", "info", "warning", "error", "critical", "exception", "log"])
                ops.append([k, "rec", how, rng.choice([10, 15, 20, 25, 30, 40, 50, 60]),
                            "b" if how == "exception" else rng.choice(["a", "b"]), rng.random() < 0.3])
            elif r < 0.72:
                ops.append([k, "time", round(rng.uniform(0, 1e4), 3), rng.random() < 0.3])
            elif r < 0.78:
                ops.append([k, "run", rng.choice([5, 6, 999999])])
            elif r < 0.84:
                setup(k, False)
            else:
                setup(k, True)
        plan = {"specs": specs, "ops": ops, "seed": rng.randrange(1 << 30), "crash": rng.random() < 0.3}
        r = rng.random()
        if r < 0.2:
            plan["disk"] = {"kind": rng.choice(["enospc", "eio", "torn"]), "from": rng.choice([0, 1, 3]),
                            "until": rng.choice([1, 2, 5, 10 ** 9])}
        elif r < 0.4:
            plan["stderr"] = {"kind": rng.choice(["epipe", "eio", "closed", "encode"]), "from": rng.choice([0, 1, 4]),
                              "until": rng.choice([2, 8, 10 ** 9])}
        return plan

    def execute(self, plan):
        from pysim.sim.logger import ModelLogger
        default_colors()
        world.reset(plan["seed"], plan.get("disk"), plan.get("stderr"))
        refs = [Ref(k, s) for k, s in enumerate(plan["specs"])]
        real = []
        clock = [r.t for r in refs]

        def getter(k):
            return lambda: clock[k]
        for r in refs:
            kw = {}
            if r.t is not None:
                kw["time_getter"] = getter(r.k)
            if r.run is not None:
                kw["run_id"] = r.run
            real.append(ModelLogger(r.name, **kw))
        files, opened = {}, []                 # key -> due records
        console, due = [], 0
        v = []
        probes = {}

        def count(what):
            probes[what] = probes.get(what, 0) + 1
        try:
            for j, op in enumerate(plan["ops"]):
                r = refs[op[0]]
                lg = real[op[0]]
                if op[1] == "setup":
                    lg.setup(log_config(op[2], "A"), *([True] if op[3] else []))
                    if r.conf is not None and not op[3]:
                        count("ignored_setups")
                        continue
                    if r.conf is not None:
                        count("forced_setups")
                    r.conf = op[2]
                    r.file = None
                    if r.conf.get("file_name"):
                        r.file = [r.conf["file_name"], r.run if not r.conf.get("file_name_no_run_id", True) else "",
                                  r.conf.get("file_name_sep", "_"), r.k]
                        if r.file[1] is None:
                            r.file[1] = "own"
                        r.file = tuple(r.file)
                        files[r.file] = []
                elif op[1] == "time":
                    if op[3] or r.t is None:
                        lg.set_time_getter(getter(r.k))
                    clock[r.k] = op[2]
                    r.t = op[2]
                elif op[1] == "run":
                    lg.set_run_id(op[2])
                    r.run = op[2]
                elif op[1] == "rec":
                    how, level, site, with_args = op[2:6]
                    lv = LEVEL_OF.get(how, level)
                    text = "@@%d:%d@@" % (r.k, j)
                    args = (j,) if with_args else ()
                    SITES[site](Holder(lg), how, level, text + (" v=%d" if args else ""), args)
                    rec = {"text": text + (" v=%d" % j if args else ""), "level": lv, "run": r.run, "logger": r.k,
                           "t": 0 if r.t is None else r.t, "func": SITES[site].__name__, "name": r.name,
                           "tb": how == "exception", "style": r.conf["style"]}
                    c = r.conf
                    if r.file is not None and lv >= (c.get("file_level") or c["level"]):
                        files[r.file].append(rec)
                        due += 1
                    if c.get("use_console") and lv >= (c.get("console_level") or c["level"]):
                        col = None
                        if c.get("colored_console"):
                            col = (c.get("console_colors") or {}).get(str(lv), True) if lv in (10, 20, 30, 40, 50) else None
                        console.append(dict(rec, color=col))
                        due += 1
        except (OSError, ValueError) as e:
            v.append({"rule": "L03.abort", "msg": "a failing destination made a log call fail: %r" % e})
        if plan["crash"]:
            DISK.crash()
        if not v:
            self.verify(files, console, v, plan, refs)
        f = {}
        for k, n in DISK.fired.items():
            f["disk_" + k] = n
        for k, n in STDERR.fired.items():
            f["console_" + k] = n
        if plan["crash"]:
            f["crash"] = 1
        probes["records_due"] = due
        o = outcome(v[:3], [plan["ops"], plan["specs"], sorted(DISK.durable), STDERR.getvalue(), sorted(f)], 0.0, f, probes,
                    len(plan["ops"]))
        o["nontrivial"] = due > 0
        return o

    def verify(self, files, console, v, plan, refs):
        own = {}

        def path(key):
            name, run, sep, k = key
            if run == "own":
                run = own.get(k)
                if run is None:
                    return None
            name = name.strip()
            if run != "":
                base, ext = (name[:-4], name[-4:]) if name.lower().endswith(".log") else (name, "")
                name = base + sep + str(run) + ext
            return os.path.join(DISK.root, name)

        def parse(text):
            out = []
            lines = text.split("\n")
            for n, raw in enumerate(lines):
                i = raw.find("~~")
                m = LINE.match(ANSI.sub("", raw[i:])) if i >= 0 else None
                if m and m.group("msg").startswith("@@"):
                    g = m.groupdict()
                    g["pre"], g["post"] = raw[:i], raw[raw.rfind(g["msg"]) + len(g["msg"]):]
                    g["next"] = lines[n + 1] if n + 1 < len(lines) else ""
                    out.append(g)
            return out
        got_console = parse(STDERR.getvalue())
        texts = {p: parse(t) for p, t in DISK.durable.items()}
        for g in got_console + [g for p in sorted(texts) for g in texts[p]]:
            m = re.match(r"@@(\d+):(\d+)@@", g["msg"])
            if m is None or not int(m[1]) < len(plan["specs"]):
                continue                 # torn by a failing disk
            k, j = int(m[1]), int(m[2])
            if plan["specs"][k]["run"] is None and k not in own:
                if not any(o[0] == k and o[1] == "run" for o in plan["ops"][:j]):
                    own[k] = g["run"]
        for key in files:                # an id that shows in a file name only
            name, run, sep, k = key
            if run == "own" and k not in own:
                known = {path(x) for x in files}
                base, ext = (name[:-4], name[-4:]) if name.lower().endswith(".log") else (name, "")
                pat = re.compile(re.escape(base + sep) + r"(\d+)" + re.escape(ext) + "$")
                for p in sorted(texts):
                    m = pat.match(os.path.basename(p))
                    if m and p not in known:
                        own[k] = m.group(1)
                        break
        # --- files
        if not plan.get("disk"):
            want = {}
            for key, recs in files.items():
                p = path(key)
                if p is not None:
                    want[p] = recs
                elif recs:
                    v.append({"rule": "L03.file", "msg": "%d records due in file %s appear nowhere" % (len(recs), key[0])})
            unknown = sum(path(key) is None for key in files)
            extra = sorted(set(texts) - set(want))
            missing = sorted(set(want) - set(texts))
            if missing or len(extra) > unknown:
                v.append({"rule": "L03.file", "msg": "log files missing %s, unexpected %s" % (
                    [os.path.basename(x) for x in missing], [os.path.basename(x) for x in extra])})
            for p in extra:
                if texts[p]:
                    v.append({"rule": "L03.file", "msg": "records in a file no configuration in force names: %s" % os.path.basename(p)})
            for p, recs in sorted(want.items()):
                if p in texts:
                    self.same("file " + os.path.basename(p), texts[p], recs, own, v, False)
        if not plan.get("stderr"):
            self.same("console", got_console, console, own, v, True)
            if not console and not plan.get("disk") and STDERR.getvalue().strip():
                v.append({"rule": "L03.console", "msg": "output on a console no record is due on: %r" % STDERR.getvalue()[:80]})

    def same(self, name, got, want, own, v, colors):
        gm, wm = [g["msg"] for g in got], [w["text"] for w in want]
        if gm != wm:
            v.append({"rule": "L03." + name.split()[0], "msg": "%s: %d records, expected %d; missing %s, unexpected %s" % (
                name, len(gm), len(wm), [m for m in wm if m not in gm][:3],
                [m for k, m in enumerate(gm) if m not in wm or m in gm[:k]][:3])})
            return

        def bad(rule, what, w):
            v.append({"rule": "L03." + rule, "msg": "%s: record %s %s" % (name, w["text"], what)})
        for g, w in zip(got, want):
            run = w["run"] if w["run"] is not None else own.get(w["logger"])
            lvname = {10: "DEBUG", 20: "INFO", 30: "WARNING", 40: "ERROR", 50: "CRITICAL"}.get(w["level"], "Level %d" % w["level"])
            if float(g["t"]) != w["t"]:
                bad("time", "stamped %s, logged at %r" % (g["t"], w["t"]), w)
            elif run is not None and g["run"] != str(run):
                bad("runid", "shows run %s, in force was %s" % (g["run"], run), w)
            elif g["name"] != w["name"] or g["fn"] != w["func"] or g["lv"].strip() != lvname:
                bad("stamp", "shows name %r, function %s, level %s" % (g["name"], g["fn"], g["lv"]), w)
            elif w["tb"] and g["next"] != TB:
                bad("traceback", "of an exception is not followed by its traceback", w)
            elif not w["tb"] and g["next"] == TB:
                bad("traceback", "is followed by a traceback of no exception", w)
            elif colors and w["color"] is None and (g["pre"] or g["post"]):
                bad("color", "is coloured", w)
            elif not colors and (g["pre"] or g["post"]):
                bad("color", "has colours or junk around it in a file", w)
            elif colors and w["color"] is True and not (ANSI.match(g["pre"]) and not ANSI.sub("", g["pre"])):
                bad("color", "is not coloured", w)
            elif colors and w["color"] is True and g["pre"] != DEFAULTS[w["level"]]:
                bad("color", "has colour %r, the default of its level is %r" % (g["pre"], DEFAULTS[w["level"]]), w)
            elif colors and isinstance(w["color"], str) and g["pre"] != w["color"]:
                bad("color", "has colour %r, configured %r" % (g["pre"], w["color"]), w)
            elif colors and w["color"] is not None and g["post"] != RESET:
                bad("color", "does not reset the colour", w)


CHECKS = [L03()]
