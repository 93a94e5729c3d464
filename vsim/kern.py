"""Kernel and logger: workloads, executable reference model, oracles
(K01..K07, L01, L02).

A plan holds one or more *programs*. A program is a tree of operations issued
by the initialiser and by event handlers through the public simulator object.
The same interpreter drives pysim and the reference kernel below.
"""
import copy, functools, hashlib, json, logging, os, random, re, sys, threading
from . import world
from .world import CLOCK, DISK, DRAWS, STDERR, SimCrash, Rng

MAX_EVENTS = 20000


class EventCap(BaseException):
    pass


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


EXC = {"Boom": Boom, "KeyError": KeyError, "ValueError": ValueError,
       "IndexError": IndexError, "AttributeError": AttributeError,
       "KeyboardInterrupt": KeyboardInterrupt, "BaseBoom": BaseBoom,
       "RuntimeError": RuntimeError, "TypeError": TypeError, "OSError": OSError,
       "StopIteration": StopIteration, "GeneratorExit": GeneratorExit}


# ------------------------------------------------------------- reference ----
class RefSim:
    """Reference kernel: a plain list scanned for its minimum."""

    def __init__(self, prog, clock):
        self.now = 0.0
        self.pending = []
        self.n_ids = 0
        self.ctx = None
        self.stopped = False
        self.msg = ""
        self.clock = clock
        self.prog = prog

    # API offered to handlers
    @property
    def time(self):
        return self.now

    def schedule(self, delay, handler, args=(), msg=""):
        self.n_ids += 1
        self.pending.append([self.now + delay, self.n_ids, handler, tuple(args)])
        return self.n_ids

    def call(self, fn, args=(), msg=""):
        return self.schedule(0, fn, args, msg)

    def cancel(self, i):
        for k, e in enumerate(self.pending):
            if e[1] == i and i is not None:
                del self.pending[k]
                return 1
        return 0

    def stop(self, msg=""):
        self.stopped = True
        self.msg = msg

    def reasons(self):
        lim = self.prog["limits"]
        out = set()
        if lim.get("sim") is not None and self.now > lim["sim"]:
            out.add("REACHED_SIM_TIME_LIMIT")
        if lim.get("events") is not None and self.done >= lim["events"]:
            out.add("REACHED_NUM_EVENTS_LIMIT")
        if lim.get("real") is not None and self.clock.mono - self.t0 > lim["real"]:
            out.add("REACHED_REAL_TIME_LIMIT")
        return out

    def run(self, init, init_args, fin):
        self.t0 = self.clock.mono
        self.done = 0
        self.last = None
        init(self, *init_args)
        while self.pending:
            if self.stopped or self.reasons():
                break
            e = min(self.pending, key=lambda e: (e[0], e[1]))
            self.pending.remove(e)
            self.now = e[0]
            e[2](self, *e[3])
            self.done += 1
            self.last = e[2]
        allowed = self.reasons()
        if self.stopped:
            allowed.add("STOPPED")
        elif not self.pending:
            allowed.add("NO_MORE_EVENTS")
        t_end = self.clock.mono - self.t0
        fin_ret = fin(self) if fin else None
        return {"n": self.done, "time": self.now, "reasons": allowed,
                "elapsed": (t_end, self.clock.mono - self.t0),
                "msg": self.msg, "last": self.last, "fin": fin_ret}


class FakeClock:
    def __init__(self):
        self.mono = CLOCK.mono

    def advance(self, dt):
        self.mono += dt

    def jump(self, dt):
        pass


# ----------------------------------------------------------- interpreter ----
class Obj:
    def __init__(self, name):
        self.name = name


class Functor:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a):
        return self.fn(*a)


class Holder:
    def __init__(self, fn):
        self._fn = fn

    def method(self, *a):
        return self._fn(*a)


def _lvl(sim, how, level, text, args):
    if how == "log":
        sim.logger.log(level, text, *args)
    else:
        getattr(sim.logger, how)(text, *args)


def site_alpha(sim, how, level, text, args):
    if how == "log":
        sim.logger.log(level, text, *args)
    else:
        getattr(sim.logger, how)(text, *args)


def site_beta(sim, how, level, text, args):
    if how == "exception":
        try:
            raise Boom("logged failure")
        except Boom:
            sim.logger.exception(text, *args)
    elif how == "log":
        sim.logger.log(level, text, *args)
    elif how == "debug":
        sim.logger.debug(text, *args)
    elif how == "info":
        sim.logger.info(text, *args)
    elif how == "warning":
        sim.logger.warning(text, *args)
    elif how == "error":
        sim.logger.error(text, *args)
    else:
        sim.logger.critical(text, *args)


SITES = {"a": site_alpha, "b": site_beta}
LEVEL_OF = {"debug": 10, "info": 20, "warning": 30, "error": 40, "critical": 50,
            "exception": 40}


class Interp:
    """Runs one program against a simulator object (pysim's or reference)."""

    def __init__(self, name, prog, clock, real, nest=None, yield_point=None):
        self.name, self.prog, self.clock, self.real = name, prog, clock, real
        self.trace = []
        self.ids = {}
        self.seen_ids = set()
        self.labels = 0
        self.fns = {}
        self.nest = nest
        self.yp = yield_point
        self.raised = None
        self.events = 0
        self.logs = []           # expected log records
        self.fin_calls = 0
        self.init_calls = 0
        self.probes = {}
        self.finished = False
        self.ctx_final = None
        self.fin_obj0 = Obj("fin")

    def probe(self, k):
        self.probes[k] = self.probes.get(k, 0) + 1

    # --- callbacks given to the kernel
    def init(self, sim, *args):
        self.init_calls += 1
        self.trace.append(("init", sim.time, tuple(args)))
        if self.real:
            kind = self.prog["ctx"]
            if kind == "none":
                self.trace.append(("ctx", type(sim.context).__name__ == "dict" and sim.context == {}))
                sim.context["owner"] = self.name
            elif kind == "replace":
                self.ctx_final = Obj("replaced")
                sim.context = self.ctx_final
                self.trace.append(("ctx", sim.context is self.ctx_final))
            else:
                self.trace.append(("ctx", sim.context is self.ctx_given))
        else:
            self.trace.append(("ctx", True))
        self.body(sim, self.prog["init"])

    def make_ctx(self):
        k = self.prog["ctx"]
        self.ctx_given = {"none": None, "replace": {"a": 1}, "obj": Obj("given"),
                          "dict": {"k": 1}, "empty": {}, "list": [],
                          "finreplace": Obj("given")}[k]
        return self.ctx_given

    def fin(self, sim):
        self.fin_calls += 1
        self.trace.append(("fin", sim.time))
        if self.real and self.prog["ctx"] == "replace":
            self.trace.append(("finctx", sim.context is self.ctx_final))
        elif self.real and self.prog["ctx"] != "none":
            self.trace.append(("finctx", sim.context is self.ctx_given))
        else:
            self.trace.append(("finctx", True))
        if self.real and self.prog["ctx"] == "finreplace":
            self.ctx_final = {"final": 1}
            sim.context = self.ctx_final
        self.body(sim, self.prog.get("finbody", []), fin=True)
        # falsy results are results as well
        self.fin_obj = {"falsy0": 0, "falsy1": [], "falsy2": "", "falsy3": False, "falsy4": {}}.get(self.prog["fin"], self.fin_obj0)
        return None if self.prog["fin"] == "none_ret" else self.fin_obj

    def handler(self, label, node, kind, left=None):
        def run(sim, *args):
            if self.yp:
                self.yp()
            self.events += 1
            if self.events > self.prog.get("cap", MAX_EVENTS):
                raise EventCap()
            self.trace.append(("E", label, sim.time, args))
            if self.real:
                k = self.prog["ctx"]
                if k in ("obj", "dict", "empty", "list", "finreplace") and sim.context is not self.ctx_given:
                    self.trace.append(("ctxlost", label))
                if k == "none" and sim.context.get("owner") != self.name:
                    self.trace.append(("ctxmixed", label))
            if left is not None and left > 0:
                self.sched(sim, node["d"], node, kind, left - 1)
            self.body(sim, node["b"])
        if kind == 1:
            fn = functools.partial(run)
        elif kind == 2:
            fn = Functor(run)
        elif kind == 3:
            fn = Holder(run).method
        else:
            fn = run
        return fn

    def sched(self, sim, delay, node, kind, left=None, via_call=False):
        label = self.labels
        self.labels += 1
        fn = self.handler(label, node, kind, left)
        self.fns[label] = fn
        args = (label,) + tuple(range(label % 3))
        form = label % 4
        a = args if form < 2 else (list(args) if form == 2 else iter(args))
        now = sim.time
        if via_call:
            ev = sim.call(fn, a) if form else sim.call(fn, a, msg="m%d" % label)
        elif form == 1:
            ev = sim.schedule(delay=delay, handler=fn, args=a, msg="x")
        else:
            ev = sim.schedule(delay, fn, a)
        self.trace.append(("S", label, now, now + (0 if via_call else delay), args))
        if self.real:
            if ev is None or ev in self.seen_ids:
                self.trace.append(("badid", label))
            self.seen_ids.add(ev)
        self.ids[label] = ev
        return label

    def body(self, sim, ops, fin=False):
        for op in ops:
            k = op[0]
            if k == "s":
                self.sched(sim, op[1], {"b": op[2]}, op[3])
            elif k == "c":
                self.sched(sim, 0, {"b": op[1]}, op[2], via_call=True)
            elif k == "tick":
                self.sched(sim, op[1], {"d": op[1], "b": op[3]}, 0, op[2])
            elif k == "x":
                label = self.labels - 1 - op[1]
                if label >= 0:
                    r = sim.cancel(self.ids[label])
                    self.trace.append(("X", label, r))
            elif k == "X":
                raw = op[1]
                if raw == "future":     # an id that was never handed out
                    mx = [i for i in self.ids.values() if isinstance(i, int)]
                    raw = (max(mx) if mx else 0) + 1000
                r = sim.cancel(raw)
                self.trace.append(("XU", r))
            elif k == "stop":
                self.trace.append(("stop", op[1]))
                sim.stop(op[1]) if op[1] is not None else sim.stop()
            elif k == "bad":
                self.bad(sim, op)
            elif k == "adv":
                self.clock.advance(op[1])
            elif k == "wall":
                self.clock.jump(op[1])
                if self.real:
                    self.probe("wall_jump")
            elif k == "rnd":
                v = random.random() if self.real else self.refrandom()
                self.trace.append(("R", v))
            elif k == "log":
                self.log(sim, op)
            elif k == "raise":
                e = EXC[op[1]]("injected")
                self.raised = e
                self.trace.append(("raise", op[1]))
                raise e
            elif k == "crash":
                self.trace.append(("crash",))
                self.probe("crash")
                self.raised = SimCrash("simulated process crash")
                raise self.raised
            elif k == "nest":
                self.trace.append(("nest", op[1]))
                if self.nest:
                    self.nest(self, op[1])
            elif k == "yield":
                if self.yp:
                    self.yp()
            else:
                raise AssertionError("unknown op %r" % (op,))

    def refrandom(self):
        return self.ref_rng.random()

    def bad(self, sim, op):
        kind, via = op[1], op[2]
        if not self.real:
            self.trace.append(("bad", kind, "rejected"))
            return
        from pysim.sim.simulator import SchedulingInPastError

        def never(sim, *a):
            self.trace.append(("badrun", kind))
        want, call = {
            "neg": (SchedulingInPastError, lambda: sim.schedule(op[3], never)),
            "none": (ValueError, lambda: sim.schedule(op[3], None)),
            "noncall": (TypeError, lambda: sim.schedule(op[3], "not callable")),
            "nonint": (TypeError, lambda: sim.schedule(op[3], 5)),
            "args": (TypeError, lambda: sim.schedule(op[3], never, 7)),
            "args_none": (TypeError, lambda: sim.schedule(op[3], never, None)),
            "c_none": (ValueError, lambda: sim.call(None)),
            "c_noncall": (TypeError, lambda: sim.call("nope")),
            "c_args": (TypeError, lambda: sim.call(never, 3.5)),
        }[kind]
        self.probe("bad_" + kind)
        try:
            call()
            self.trace.append(("bad", kind, "accepted"))
        except Exception as e:
            ok = isinstance(e, want)
            if kind != "neg" and isinstance(e, SchedulingInPastError):
                ok = False
            if want is ValueError and isinstance(e, TypeError):
                ok = False
            self.trace.append(("bad", kind, "rejected" if ok else
                               "wrong error %s" % type(e).__name__))

    def log(self, sim, op):
        # ["log", how, level, site, text]
        how, level, site, text = op[1], op[2], op[3], op[4]
        n = len(self.logs)
        tag = "@@%s:%d@@%s" % (self.name, n, text)
        lv = LEVEL_OF.get(how, level)
        fname = SITES[site].__name__
        if self.real:
            args = () if n % 2 else (n,)
            fmt = tag.replace("%", "%%") + (" v=%d" if args else "") if args else tag
            shown = (tag + " v=%d" % n) if args else tag
            self.logs.append({"time": sim.time, "level": lv, "func": fname, "text": shown})
            SITES[site](sim, how, level, fmt, args)
        else:
            self.logs.append(None)


# ---------------------------------------------------- running a program ----
class Crashed(Exception):
    pass


def log_config(cfg, name):
    """plan log configuration -> ModelLoggerConfig (or None)."""
    if not cfg:
        return None
    from pysim.sim.logger import ModelLoggerConfig
    kw = dict(cfg)
    kw.pop("dir", None)
    if kw.get("file_name"):
        kw["file_name"] = os.path.join(DISK.root, kw["file_name"])
    if "console_colors" in kw and kw["console_colors"]:
        kw["console_colors"] = {int(k): v for k, v in kw["console_colors"].items()}
    return ModelLoggerConfig(**kw)


def build_real(it):
    from pysim.sim.simulator import build_simulation
    p = it.prog
    kw = {}
    lim = p["limits"]
    if lim.get("sim") is not None:
        kw["max_sim_time"] = lim["sim"]
    if lim.get("real") is not None:
        kw["max_real_time"] = lim["real"]
    if lim.get("events") is not None:
        kw["max_num_events"] = lim["events"]
    if p.get("log"):
        kw["logger_config"] = log_config(p["log"], it.name)
    if p.get("debug"):
        kw["debug"] = True
    ctx = it.make_ctx()
    if ctx is not None:
        kw["context"] = ctx
    if p["fin"] != "absent":
        kw["fin"] = it.fin if p["fin"] in ("obj", "none_ret") else Functor(it.fin)
    if p["iargs"]:
        # any iterable serves, a one-shot one too
        a = p["iargs"]
        kw["init_args"] = {"list": list, "iter": iter}.get(p.get("iform"), tuple)(a)
    return build_simulation(p["model"], init=it.init, **kw)


def run_real(it, gen=None):
    from pysim.sim.simulator import run_simulation
    out = {"exc": None, "report": None}
    try:
        if gen is None:
            gen = build_real(it)
        out["report"] = run_simulation(gen)
    except EventCap:
        raise
    except BaseException as e:
        from .engine import Hang
        if isinstance(e, Hang):
            raise
        out["exc"] = e
    return out


def run_ref(prog, name, nestprogs=None, rnd_seed=None):
    clock = FakeClock()
    it = Interp(name, prog, clock, False)
    it.ref_rng = random.Random(rnd_seed) if rnd_seed is not None else random.Random(0)
    rs = RefSim(prog, clock)
    out = {"exc": None, "report": None}
    try:
        out["report"] = rs.run(it.init, tuple(prog["iargs"]),
                               it.fin if prog["fin"] != "absent" else None)
    except EventCap:
        raise
    except BaseException as e:
        if e is not it.raised:
            raise
        out["exc"] = e
    return it, out


def norm_trace(tr):
    out = []
    for t in tr:
        if t[0] == "X":
            t = ("X", t[1], int(t[2]) if t[2] is not None else None)
        elif t[0] == "XU":
            t = ("XU", int(t[1]) if t[1] is not None else None)
        out.append(t)
    return out


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "step %d: observed %r, expected %r" % (i, x, y)
    if len(a) < len(b):
        return "history ends early after %d steps; expected next %r" % (len(a), b[len(a)])
    if len(a) > len(b):
        return "extra step %d: %r" % (len(b), a[len(b)])
    return None


def compare(it, out, ref, rout, prop, what=("trace", "report", "exc")):
    """Observed run of program against the reference run."""
    v = []

    def bad(rule, msg):
        v.append({"rule": prop + "." + rule, "msg": msg})
    a, b = norm_trace(it.trace), norm_trace(ref.trace)
    d = first_diff(a, b)
    if d:
        bad("trace", d)
    if (out["exc"] is None) != (rout["exc"] is None):
        bad("exception", "observed exception %r, expected %r" % (out["exc"], rout["exc"]))
        return v
    if out["exc"] is not None:
        if out["exc"] is not it.raised:
            bad("exception", "caller received %r instead of the raised object %r"
                % (out["exc"], it.raised))
        if it.fin_calls != ref.fin_calls:
            bad("finaliser", "finaliser called %d times, expected %d"
                % (it.fin_calls, ref.fin_calls))
        return v
    rep, exp = out["report"], rout["report"]
    try:
        stats, ctx, fin_ret = rep
    except Exception:
        bad("report", "result is %r, not (stats, context, finaliser result)" % (rep,))
        return v
    if stats.num_events_processed != exp["n"]:
        bad("events", "reported %r events, %r were due" % (stats.num_events_processed, exp["n"]))
    if stats.sim_time != exp["time"]:
        bad("simtime", "reported model time %r, expected %r" % (stats.sim_time, exp["time"]))
    reason = getattr(stats.exit_reason, "name", stats.exit_reason)
    if reason not in exp["reasons"]:
        bad("reason", "exit reason %s, conditions that held: %s" % (reason, sorted(exp["reasons"])))
    if exp["msg"] != stats.stop_message and "STOPPED" in exp["reasons"]:
        bad("stopmsg", "stop message %r, expected %r" % (stats.stop_message, exp["msg"]))
    if "STOPPED" not in exp["reasons"] and stats.stop_message not in ("", None):
        bad("stopmsg", "stop message %r without a stop request" % (stats.stop_message,))
    lo, hi = exp["elapsed"]
    if not (lo - 1e-9 <= stats.time_elapsed <= hi + 1e-9):
        bad("elapsed", "reported elapsed %r s, real duration %r..%r s" % (stats.time_elapsed, lo, hi))
    lh = stats.last_handler
    want = None
    labels = [t[1] for t in it.trace if t[0] == "E"]
    if labels:
        want = it.fns[labels[-1]]
    if isinstance(lh, tuple) and len(lh) == 2:
        lh = lh[0]
    if lh is not want and lh != want:
        bad("lasthandler", "reported last handler %r, expected %r" % (lh, want))
    kind = it.prog["ctx"]
    if kind == "none":
        if not isinstance(ctx, dict) or ctx.get("owner") != it.name:
            bad("context", "default context lost: %r" % (ctx,))
    elif kind == "replace" or (kind == "finreplace" and it.ctx_final is not None):
        if ctx is not it.ctx_final:
            bad("context", "reported context is not the final one")
    elif ctx is not it.ctx_given:
        bad("context", "reported context is not the one passed in")
    if it.prog["fin"] == "absent":
        if fin_ret is not None:
            bad("finret", "finaliser result %r without a finaliser" % (fin_ret,))
    else:
        if it.fin_calls != 1:
            bad("finaliser", "finaliser called %d times" % it.fin_calls)
        elif it.prog["fin"] in FINS and fin_ret is not it.fin_obj:
            bad("finret", "finaliser result not returned")
        elif it.prog["fin"] == "none_ret" and fin_ret is not None:
            bad("finret", "finaliser returned None, reported %r" % (fin_ret,))
    return v


# -------------------------------------------------------- program sampling ----
DELAYS = [0, 0, 0.25, 0.5, 0.5, 1, 1, 1, 1.5, 2, 3, 0.1, 0.2, 0.3, 1e-6, 1 / 3, 7, 1e6, 1e-12]


# -1e-17 and -5e-324 vanish when added to almost any model time: the sign alone must tell
NEG_DELAYS = [-1e-9, -0.5, -1, -100, -1e6, -1e-12, -1e-17, -5e-324, float("-inf")]


def gen_delay(rng, style):
    if style == "ties":
        return rng.choice([0, 0, 1, 1, 2])
    if style == "wild":
        return rng.choice(DELAYS)
    if style == "float":
        return rng.random() * rng.choice([1e-3, 1, 100])
    return rng.choice([0, 1, 2, 3, 5, 0.5, 0.25])


def gen_body(rng, cfg, depth, budget):
    ops = []
    n = rng.randint(0, cfg["width"])
    if depth == 0:
        n = rng.randint(1, cfg["width"] * 2)
    for _ in range(n):
        if budget[0] <= 0:
            break
        r = rng.random()
        acc = 0.0
        for kind, w in cfg["mix"]:
            acc += w
            if r < acc:
                break
        else:
            kind = "s"
        if kind == "s":
            budget[0] -= 1
            sub = gen_body(rng, cfg, depth + 1, budget) if depth < cfg["depth"] else []
            ops.append(["s", gen_delay(rng, cfg["style"]), sub, rng.randrange(4)])
        elif kind == "c":
            budget[0] -= 1
            sub = gen_body(rng, cfg, depth + 1, budget) if depth < cfg["depth"] else []
            ops.append(["c", sub, rng.randrange(4)])
        elif kind == "tick":
            if depth > cfg["depth"]:
                continue
            k = rng.randint(1, 6)
            budget[0] -= k
            sub = dict(cfg, width=min(3, cfg["width"]))
            ops.append(["tick", gen_delay(rng, cfg["style"]), k,
                        gen_body(rng, sub, cfg["depth"] + 1, budget)])
        elif kind == "x":
            # mostly recent events: they are the ones still pending
            ops.append(["x", rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 13])])
        elif kind == "X":
            ops.append(["X", rng.choice([-1, None, "future", 10 ** 9])])
        elif kind == "stop":
            ops.append(["stop", rng.choice(["", "enough", "done %d", None])])
        elif kind == "adv":
            ops.append(["adv", rng.choice([0.25, 0.5, 1, 2, 10])])
        elif kind == "wall":
            ops.append(["wall", rng.choice([-3600, -1, -0.25, 0.25, 1, 5, 3600, 1e6])])
        elif kind == "rnd":
            ops.append(["rnd"])
        elif kind == "log":
            how = rng.choice(["debug", "info", "warning", "error", "critical", "exception", "log"])
            lv = rng.choice(cfg.get("loglevels", [10, 20, 30, 40, 50]))
            site = "b" if how == "exception" else rng.choice("ab")
            ops.append(["log", how, lv, site, rng.choice(["m", "рус", "a b", "100%", "x" * 40])])
        elif kind == "raise":
            ops.append(["raise", rng.choice(sorted(EXC))])
        elif kind == "crash":
            ops.append(["crash"])
        elif kind == "bad":
            bk = rng.choice(["neg", "neg", "none", "noncall", "nonint", "args", "args_none",
                             "c_none", "c_noncall", "c_args"])
            d = rng.choice(NEG_DELAYS) if bk == "neg" else rng.choice([0, 0.5, 1])
            ops.append(["bad", bk, 0, d])
    return ops


FINS = ["obj", "falsy0", "falsy1", "falsy2", "falsy3", "falsy4"]


def empty_prog(i=0):
    return {"model": "m", "init": [], "limits": {}, "ctx": "none", "fin": "absent", "iargs": []}


def gen_prog(rng, mix, size=None, ctxs=("none", "obj"), fins=("absent", "obj"), **kw):
    sw = rng.random()
    cfg = {"width": rng.choice([2, 3, 4, 6]), "depth": rng.choice([1, 2, 3, 5]),
           "style": rng.choice(["plain", "ties", "wild", "float", "ties"])}
    cfg.update(kw)
    # swarm: drop a random subset of the optional operation kinds
    keep = {k: (1 if k in ("s",) or rng.random() < 0.75 else 0) for k, _ in mix}
    tot = sum(w for k, w in mix if keep[k])
    cfg["mix"] = [(k, w / tot) for k, w in mix if keep[k]]
    b = [size or rng.choice([6, 12, 30, 60, 120])]
    p = empty_prog()
    p["init"] = gen_body(rng, cfg, 0, b)
    p["ctx"] = rng.choice(list(ctxs))
    p["fin"] = rng.choice(list(fins))
    p["iargs"] = rng.choice([[], [], [1], ["a", 2], [None]])
    if p["iargs"]:
        p["iform"] = rng.choice(["tuple", "list", "iter"])
    p["model"] = rng.choice(["m", "model", "RFID", ""]) if rng.random() < 0.3 else "m"
    return p


def gen_mass(rng):
    """Many pending events with scattered due times, most of them cancelled, in the initialiser
    and from handlers: bookkeeping that depends on the share of dead entries shows only here."""
    p = empty_prog()
    n = rng.choice([15, 30, 60, 120])
    share = rng.choice([0.3, 0.5, 0.7, 0.8, 0.9])
    style = rng.choice(["float", "wild", "ties", "float"])
    ops = [["s", gen_delay(rng, style), [], rng.randrange(4)] for _ in range(n)]
    victims = list(range(n))
    rng.shuffle(victims)
    victims = victims[:int(n * share)]
    if rng.random() < 0.6:
        ops += [["x", k] for k in victims]
    else:
        # one early handler cancels them all, then the model goes on
        sub = [["x", k + 1] for k in victims]
        for _ in range(rng.randrange(6)):
            sub.append(["s", gen_delay(rng, style), [], 0])
        ops.append(["s", 0, sub, 0])
    for _ in range(rng.randrange(8)):
        sub = [["s", gen_delay(rng, style), [], 0], ["x", rng.randrange(n)]]
        ops.append(["s", gen_delay(rng, style), sub, 0])
    p["init"] = ops
    return p


def gen_long(rng):
    """Tens of thousands of events: numbers, counters and ties far beyond any boundary a short
    program reaches (256, 1024, 65536)."""
    p = empty_prog()
    n = rng.choice([1100, 4200, 33000, 66000])
    k = rng.choice([1, 2, 3])
    d = [rng.choice([0, 0.25, 1, 1, 1 / 3]) for _ in range(k)]
    ops = [["tick", d[j], n // k, [["s", rng.choice([0, 1, 2]), [], 0], ["x", rng.choice([0, 1, 2])]] if rng.random() < 0.3
            else []] for j in range(k)]
    for _ in range(rng.randrange(6)):
        at = rng.choice([n // k - 1, n / k, rng.uniform(0, n / k)]) * (d[0] or 1)
        ops.append(["s", at, [["s", gen_delay(rng, "ties"), [], 0], ["s", gen_delay(rng, "ties"), [], 0], ["x", 0],
                              ["s", gen_delay(rng, "ties"), [], 1]], 0])
    p["init"] = ops
    p["cap"] = 200000
    return p


def count_ops(body, kinds):
    n = 0
    for op in body:
        if op[0] in kinds:
            n += 1
        for sub in op:
            if isinstance(sub, list) and sub and isinstance(sub[0], list):
                n += count_ops(sub, kinds)
    return n


# ------------------------------------------------------------ direct oracles ----
def check_order(trace, prop):
    """K01 on the observed history alone."""
    v = []
    due, seq, ran = {}, {}, []
    runs_later = {}
    for i, t in enumerate(trace):
        if t[0] == "E" and t[1] not in runs_later:
            runs_later[t[1]] = i
    last = 0.0
    import heapq
    pend = []
    n = 0
    for i, t in enumerate(trace):
        now = None
        if t[0] == "S":
            label = t[1]
            due[label], seq[label] = t[3], n
            n += 1
            if label in runs_later:
                heapq.heappush(pend, (t[3], seq[label], label))
            now = t[2]
        elif t[0] == "E":
            label, now = t[1], t[2]
            if label in due:
                if now != due[label]:
                    v.append({"rule": prop + ".due", "msg":
                              "event %d ran at %r, due at %r" % (label, now, due[label])})
                    break
                if runs_later[label] == i and pend:
                    if pend[0][2] != label:
                        o = pend[0]
                        v.append({"rule": prop + ".order", "msg":
                                  "event %d (due %r, scheduled as #%d) ran before event %d (due %r, scheduled as #%d)"
                                  % (label, due[label], seq[label], o[2], o[0], o[1])})
                        break
                    heapq.heappop(pend)
        elif t[0] == "fin":
            now = t[1]
        if now is not None:
            if now < last:
                v.append({"rule": prop + ".clock", "msg":
                          "model clock went from %r back to %r" % (last, now)})
                break
            last = now
    return v


def check_once(trace, prop, complete):
    """K02 on the observed history alone."""
    v = []
    state, args = {}, {}

    def bad(rule, msg):
        v.append({"rule": prop + "." + rule, "msg": msg})
    for t in trace:
        if t[0] == "S":
            state[t[1]] = "pending"
            args[t[1]] = t[4]
        elif t[0] == "badid":
            bad("id", "event %d got no id of its own" % t[1])
        elif t[0] == "E":
            st = state.get(t[1])
            if st == "done":
                bad("twice", "event %d ran twice" % t[1])
            elif st == "cancelled":
                bad("cancelled", "cancelled event %d ran at %r" % (t[1], t[2]))
            state[t[1]] = "done"
            if tuple(t[3]) != tuple(args.get(t[1], ())):
                bad("args", "event %d got arguments %r, scheduled with %r" % (t[1], t[3], args.get(t[1])))
        elif t[0] == "X":
            st = state.get(t[1])
            want = 1 if st == "pending" else 0
            if t[2] is None or int(t[2]) != want:
                bad("count", "cancel of %s event %d reported %r" % (st, t[1], t[2]))
            if st == "pending":
                state[t[1]] = "cancelled"
        elif t[0] == "XU":
            if t[1] is None or int(t[1]) != 0:
                bad("count", "cancel of an unknown event reported %r" % (t[1],))
        if v:
            return v
    if complete:
        left = sorted(l for l, s in state.items() if s == "pending")
        if left:
            bad("lost", "events %s never ran and were not cancelled" % left[:5])
    return v


# ------------------------------------------------------------- result helper ----
def digest(*objs):
    h = hashlib.sha256()
    for o in objs:
        h.update(repr(o).encode("utf-8", "replace"))
    return h.hexdigest()[:16]


def outcome(viol, trace, sim_time=0.0, faults=None, probes=None, events=0, sample=None):
    return {"viol": viol, "digest": digest(trace), "sim_time": float(sim_time),
            "faults": faults or {}, "probes": probes or {}, "events": events,
            "nontrivial": events >= 2, "sample": sample}


def merge(a, b):
    for k, n in b.items():
        a[k] = a.get(k, 0) + n
    return a


def trace_probes(tr):
    p = {}
    for t in tr:
        if t[0] == "X":
            k = "cancel_hit" if t[2] else "cancel_miss"
            p[k] = p.get(k, 0) + 1
        elif t[0] in ("stop", "raise", "crash", "nest", "XU"):
            p[t[0]] = p.get(t[0], 0) + 1
    times = [t[2] for t in tr if t[0] == "E"]
    p["same_time_events"] = sum(1 for a, b in zip(times, times[1:]) if a == b)
    return p


def faults_of(tr, it):
    f = {}
    for t in tr:
        if t[0] == "raise":
            f["handler_exception"] = f.get("handler_exception", 0) + 1
        elif t[0] == "crash":
            f["process_crash"] = f.get("process_crash", 0) + 1
    if it.probes.get("wall_jump"):
        f["wall_clock_jump"] = it.probes["wall_jump"]
    return f


MIX_BASE = [("s", 5), ("c", 2), ("tick", 0.6), ("x", 1.5), ("X", 0.2)]


# ================================================================ K01, K02 ====
class K01:
    id = "K01"
    rule = ("seeded random event programs (trees of schedule/call/cancel/tick operations, swarm-"
            "selected delay styles); a run is non-trivial when at least 2 events executed; distinct "
            "by digest of the full operation/event history")
    quick, thorough = 40000, 2000000

    def gen(self, rng, i, tier):
        if i % 2000 == 1000:
            return {"prog": gen_long(rng)}
        if rng.random() < 0.06:
            return {"prog": gen_mass(rng)}
        big = rng.random() < 0.02
        p = gen_prog(rng, MIX_BASE, size=rng.choice([800, 2000]) if big else None,
                     **({"width": 300, "depth": 1} if big else {}))
        return {"prog": p}

    def execute(self, plan):
        world.reset(1)
        it = Interp("A", plan["prog"], CLOCK, True)
        out = run_real(it)
        v = check_order(it.trace, "K01")
        if out["exc"] is not None:
            v.append({"rule": "K01.abort", "msg": "run failed with %r" % (out["exc"],)})
        return outcome(v, it.trace, last_time(it), faults_of(it.trace, it),
                       trace_probes(it.trace), it.events)

    shrink_keys = ["prog.init"]


def last_time(it):
    ts = [t[2] for t in it.trace if t[0] == "E"]
    return ts[-1] if ts else 0.0


class K02:
    id = "K02"
    rule = ("two workloads: event programs heavy in cancellations, and raw operation sequences on "
            "the event queue compared step by step with a sorted list; non-trivial when at least 2 "
            "events executed/queue operations applied; distinct by digest of the history")
    quick, thorough = 120000, 2000000

    def gen(self, rng, i, tier):
        if i % 5000 == 2500:
            return {"prog": gen_long(rng)}
        if rng.random() < 0.05 or i % 3000 == 1700:
            return {"queue": self.burst(rng, i % 3000 == 1700)}
        if rng.random() < 0.35:
            ops = []
            n = rng.choice([5, 12, 30, 80, 300]) if i % 400 else 3000
            wclear = rng.choice([0, 0.02])
            for _ in range(n):
                r = rng.random()
                if r < 0.45:
                    ops.append(["push", gen_delay(rng, rng.choice(["ties", "wild", "float"])), rng.randrange(1000)])
                elif r < 0.65:
                    ops.append(["pop"])
                elif r < 0.95 - wclear:
                    ops.append(["cancel", rng.choice([0, 1, 1, 2, 3, 5, 9, rng.randrange(n)])])
                elif r < 0.97 - wclear:
                    ops.append(["cancel_unknown", rng.choice([-5, 10 ** 8, None])])
                elif r < 1 - wclear:
                    ops.append(["drain"])
                else:
                    ops.append(["clear"])
            return {"queue": ops}
        if rng.random() < 0.08:
            return {"prog": gen_mass(rng)}
        mix = [("s", 5), ("c", 2), ("tick", 0.5), ("x", 4), ("X", 0.6)]
        return {"prog": gen_prog(rng, mix, size=rng.choice([6, 12, 30, 60, 120, 300]))}

    shrink_keys = ["prog.init", "queue"]

    @staticmethod
    def burst(rng, big):
        """Waves of pushes, then most of what waits is cancelled in any order, then some pops:
        dead entries outnumber the live ones by far."""
        ops = []
        style = rng.choice(["float", "wild", "ties"])
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([1100, 2500]) if big else rng.choice([40, 90, 150, 300])
            ops += [["push", gen_delay(rng, style), rng.randrange(1000)] for _ in range(n)]
            victims = list(range(n))
            rng.shuffle(victims)
            del victims[int(n * rng.choice([0.5, 0.7, 0.8, 0.9, 0.95, 1])):]
            for k in victims:
                ops.append(["cancel", k])
                if not big and rng.random() < 0.03:
                    ops.append(["pop"])
            ops += [["pop"]] * rng.choice([1, 10, n // 10])
        ops.append(["drain"])
        return ops

    def execute(self, plan):
        world.reset(1)
        if "queue" in plan:
            return self.queue(plan["queue"])
        it = Interp("A", plan["prog"], CLOCK, True)
        out = run_real(it)
        v = check_once(it.trace, "K02", out["exc"] is None)
        if out["exc"] is not None:
            v.append({"rule": "K02.abort", "msg": "run failed with %r" % (out["exc"],)})
        return outcome(v, it.trace, last_time(it), faults_of(it.trace, it),
                       trace_probes(it.trace), it.events)

    def queue(self, ops):
        from pysim.sim.simulator import EventQueue
        q = EventQueue()
        ref = []                 # [time, order, id, task]
        ids = []
        known = set()
        every = 1 if len(ops) < 700 else 17
        tr = []
        v = []
        n = 0

        def bad(rule, msg):
            v.append({"rule": "K02.queue_" + rule, "msg": msg})

        def pop():
            if not ref:
                try:
                    r = q.pop()
                    bad("pop", "pop of an empty queue returned %r" % (r,))
                except KeyError:
                    pass
                return
            e = min(ref, key=lambda e: (e[0], e[1]))
            ref.remove(e)
            t, i, task = q.pop()
            if (t, i, task) != (e[0], e[2], e[3]):
                bad("order", "pop returned %r, expected %r" % ((t, i, task), (e[0], e[2], e[3])))
            tr.append(("pop", t, i))
        for op in ops:
            if op[0] == "push":
                i = q.push(op[1], ("task", op[2]))
                if i is None or i in known:
                    bad("id", "push returned %r, already used or missing" % (i,))
                ids.append(i)
                known.add(i)
                ref.append([op[1], n, i, ("task", op[2])])
                n += 1
            elif op[0] == "pop":
                pop()
            elif op[0] == "drain":
                while ref and not v:
                    pop()
            elif op[0] == "cancel":
                if len(ids) > op[1]:
                    i = ids[-1 - op[1]]
                    q.cancel(i)
                    ref[:] = [e for e in ref if e[2] != i]
            elif op[0] == "cancel_unknown":
                q.cancel(op[1])
            elif op[0] == "clear":
                q.clear()
                ref.clear()
            tr.append((op[0], len(ref)))
            if len(q) != len(ref):
                bad("len", "after %r: length %d, expected %d" % (op, len(q), len(ref)))
            if bool(q.empty) != (not ref):
                bad("empty", "after %r: empty=%r with %d entries" % (op, q.empty, len(ref)))
            if len(tr) % every:
                if v:
                    break
                continue
            held = q.to_list()
            want = sorted((e[0], e[2], e[3]) for e in ref)
            if held is None:
                bad("contents", "after %r the queue has no list of its entries" % (op,))
            elif sorted((e[0], e[1], e[2]) for e in held if e[2] is not None) != want or len(held) != len(want):
                bad("contents", "after %r the queue lists %r, expected %r" % (op, [tuple(e) for e in held][:6], want[:6]))
            elif n % 3 == 0:
                held.clear()     # the caller's list is the caller's
            if v:
                break
        while ref and not v:
            pop()
        return outcome(v[:1], tr, 0, {}, {"queue_ops": len(ops)}, len(ops))


# ==================================================================== K03 ====
class K03:
    id = "K03"
    rule = ("random event programs with stop requests and random combinations of model-time, event-"
            "count and real-time limits, compared with the reference kernel; non-trivial when at "
            "least 2 events executed or a limit/stop ended the run; distinct by digest of history and report")
    quick, thorough = 150000, 3000000
    shrink_keys = ["prog.init"]

    def gen(self, rng, i, tier):
        mix = [("s", 5), ("c", 2), ("tick", 1), ("x", 0.7), ("stop", rng.choice([0, 0.15, 0.5])), ("adv", 0.5)]
        p = gen_prog(rng, mix)
        lim = {}
        if rng.random() < 0.5:
            lim["sim"] = rng.choice([0, 0.25, 0.5, 1, 1, 2, 2, 3, 5, 7.5, 1e6])
        if rng.random() < 0.45:
            lim["events"] = rng.choice([0, 1, 2, 3, 5, 8, 13, 30, 1000])
        if rng.random() < 0.25:
            lim["real"] = rng.choice([0.1, 0.6, 1.1, 2.3, 10.1, 1000.1])
        p["limits"] = lim
        if rng.random() < 0.1:
            p["init"] = [op for op in p["init"] if op[0] in ("stop", "adv", "x")]
        return {"prog": p}

    def execute(self, plan):
        world.reset(1)
        p = plan["prog"]
        ref, rout = run_ref(p, "A")
        it = Interp("A", p, CLOCK, True)
        out = run_real(it)
        v = compare(it, out, ref, rout, "K03")
        keep = {"K03.trace", "K03.reason", "K03.stopmsg", "K03.events", "K03.simtime", "K03.exception"}
        v = [x for x in v if x["rule"] in keep]
        pr = trace_probes(it.trace)
        rep = rout["report"]
        if rep:
            for r in rep["reasons"]:
                pr["ended_" + r] = 1
            if len(rep["reasons"]) > 1:
                pr["simultaneous_conditions"] = 1
        o = outcome(v, (it.trace, sorted(rep["reasons"]) if rep else None), last_time(it),
                    {"stop_request": pr.get("stop", 0)}, pr, it.events)
        o["nontrivial"] = it.events >= 2 or bool(p["limits"]) or pr.get("stop", 0) > 0
        return o


class K04:
    id = "K04"
    rule = ("random event programs whose handlers take simulated real time and during which the wall "
            "clock is stepped; real-time limits off the time lattice; non-trivial when real time "
            "advanced during the run; distinct by digest of history")
    quick, thorough = 150000, 3000000
    shrink_keys = ["prog.init"]

    def gen(self, rng, i, tier):
        mix = [("s", 5), ("c", 1), ("tick", 1), ("x", 0.3), ("adv", 3), ("wall", rng.choice([0, 1, 3]))]
        p = gen_prog(rng, mix, fins=("absent", "obj"))
        if rng.random() < 0.7:
            p["limits"]["real"] = rng.choice([0.1, 0.3, 0.6, 1.1, 2.3, 3.1, 5.6, 10.1, 20.1])
        if p["fin"] == "obj" and rng.random() < 0.5:
            p["finbody"] = [rng.choice([["adv", 2], ["wall", 100], ["wall", -100]])]
        return {"prog": p, "prewall": rng.choice([0, 0, -500, 1e5]), "predelay": rng.choice([0, 0, 3])}

    def execute(self, plan):
        world.reset(1)
        p = plan["prog"]
        ref, rout = run_ref(p, "A")
        it = Interp("A", p, CLOCK, True)
        gen = build_real(it)
        # time passes and the clock may be stepped between building and running
        CLOCK.advance(plan["predelay"])
        CLOCK.jump(plan["prewall"])
        out = run_real(it, gen)
        v = compare(it, out, ref, rout, "K04")
        keep = {"K04.trace", "K04.reason", "K04.elapsed", "K04.events", "K04.exception"}
        v = [x for x in v if x["rule"] in keep]
        pr = trace_probes(it.trace)
        if rout["report"] and "REACHED_REAL_TIME_LIMIT" in rout["report"]["reasons"]:
            pr["real_limit_reached"] = 1
        adv = CLOCK.mono - CLOCK.mono0
        f = {"wall_clock_jump": it.probes.get("wall_jump", 0), "slow_handler": count_ops(p["init"], {"adv"})}
        o = outcome(v, it.trace, last_time(it), f, pr, it.events)
        o["nontrivial"] = adv > 0
        return o


class K05:
    id = "K05"
    rule = ("random event programs with all context kinds and finalisers, in about half of them a "
            "failure injected in the initialiser, a handler or the finaliser; compared with the "
            "reference kernel; non-trivial when at least 2 events executed or a failure was injected")
    quick, thorough = 150000, 3000000
    shrink_keys = ["prog.init", "prog.finbody"]

    def gen(self, rng, i, tier):
        mix = [("s", 5), ("c", 2), ("tick", 0.6), ("x", 1), ("raise", rng.choice([0, 0.1, 0.4])),
               ("stop", rng.choice([0, 0.2])), ("log", 0.3)]
        p = gen_prog(rng, mix, ctxs=("none", "obj", "dict", "empty", "list", "replace", "finreplace"),
                     fins=("absent", "obj", "obj", "none_ret") + tuple(FINS))
        if rng.random() < 0.25:
            p["limits"]["sim"] = rng.choice([0.5, 1, 2, 3])
        if p["fin"] != "absent" and rng.random() < 0.2:
            p["finbody"] = [["raise", rng.choice(sorted(EXC))]]
        if rng.random() < 0.05:
            p["init"] = []
        if rng.random() < 0.15:
            p["debug"] = True
        return {"prog": p}

    def execute(self, plan):
        world.reset(1)
        p = plan["prog"]
        ref, rout = run_ref(p, "A")
        it = Interp("A", p, CLOCK, True)
        out = run_real(it)
        v = compare(it, out, ref, rout, "K05")
        drop = {"K05.reason", "K05.elapsed", "K05.stopmsg"}
        v = [x for x in v if x["rule"] not in drop]
        f = faults_of(it.trace, it)
        o = outcome(v, it.trace, last_time(it), f, trace_probes(it.trace), it.events)
        o["nontrivial"] = it.events >= 2 or bool(f)
        return o


class K06:
    id = "K06"
    rule = ("random event programs with invalid scheduling requests planted in handlers and the "
            "initialiser, compared with the reference kernel in which those requests do nothing; "
            "non-trivial when an invalid request was actually made; distinct by digest of history")
    quick, thorough = 150000, 3000000
    shrink_keys = ["prog.init"]

    def gen(self, rng, i, tier):
        mix = [("s", 5), ("c", 2), ("tick", 0.5), ("x", 1), ("bad", 1.5), ("X", 0.1)]
        p = gen_prog(rng, mix)
        if rng.random() < 0.2:
            p["limits"]["sim"] = rng.choice([0.5, 1, 2, 3])
        return {"prog": p}

    def execute(self, plan):
        world.reset(1)
        p = plan["prog"]
        ref, rout = run_ref(p, "A")
        it = Interp("A", p, CLOCK, True)
        out = run_real(it)
        v = compare(it, out, ref, rout, "K06")
        keep = {"K06.trace", "K06.exception", "K06.events", "K06.simtime"}
        v = [x for x in v if x["rule"] in keep]
        nbad = sum(n for k, n in it.probes.items() if k.startswith("bad_"))
        pr = trace_probes(it.trace)
        merge(pr, it.probes)
        o = outcome(v, it.trace, last_time(it), {"invalid_request": nbad}, pr, it.events)
        o["nontrivial"] = nbad > 0
        return o


# ==================================================================== K07 ====
class Baton:
    """Real threads, parked and released one at a time by the plan's list."""

    def __init__(self, choices, n):
        self.choices = list(choices)
        self.pos = 0
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.main = threading.Semaphore(0)
        self.alive = set()
        self.switches = 0
        self.last = None
        self.abort = False

    def park(self, i):
        self.main.release()
        self.sems[i].acquire()
        if self.abort:
            raise SystemExit

    def drive(self, threads):
        for i, t in enumerate(threads):
            self.alive.add(i)
            t.start()
        while self.alive:
            live = sorted(self.alive)
            c = self.choices[self.pos] if self.pos < len(self.choices) else self.pos
            self.pos += 1
            i = live[c % len(live)]
            if i != self.last:
                self.switches += 1
            self.last = i
            self.sems[i].release()
            self.main.acquire()

    def body(self, i, fn):
        self.sems[i].acquire()
        try:
            if not self.abort:
                fn()
        finally:
            self.alive.discard(i)
            self.main.release()


LOGFMT = "~~{simTime!r}|{runId}|{levelname}|{name}|{funcName}|{message}"


class K07:
    id = "K07"
    rule = ("two to four event programs (with stop requests, limits, crashes, logging to their own "
            "files) run sequentially, built together and run in another order, nested inside one "
            "another's handlers, or on real threads interleaved at handler boundaries by the seeded "
            "scheduler; each compared with its reference run alone; one plan in 100 interleaves whole runs "
            "of the shipped models instead, each compared with its own run alone in a pristine process; distinct by digest of all histories "
            "and the interleaving; non-trivial when at least two simulations executed events")
    quick, thorough = 50000, 800000
    shrink_keys = ["progs.0.init", "progs.1.init", "progs.2.init", "progs.3.init", "choices"]

    def gen(self, rng, i, tier):
        if i % 100 == 57:
            from . import together
            return together.gen_models(rng)
        n = rng.choice([2, 2, 3, 4])
        progs = []
        same_model = rng.random() < 0.6
        for k in range(n):
            mix = [("s", 5), ("c", 2), ("tick", 1), ("x", 1.2), ("stop", rng.choice([0, 0.1, 0.3])),
                   ("raise", rng.choice([0, 0, 0.1])), ("log", 1.2)]
            p = gen_prog(rng, mix, size=rng.choice([6, 12, 30]),
                         ctxs=("none", "none", "obj", "replace"), fins=("absent", "obj"))
            p["model"] = "m" if same_model else "m%d" % k
            if rng.random() < 0.25:
                p["limits"]["sim"] = rng.choice([0.5, 1, 2])
            if rng.random() < 0.2:
                p["limits"]["events"] = rng.choice([1, 3, 6])
            if rng.random() < 0.7:
                p["log"] = {"level": 10, "fmt": LOGFMT, "style": "{", "file_name": "k07_%d.log" % k}
            progs.append(p)
        mode = rng.choice(["seq", "built", "nest", "threads", "threads"])
        plan = {"mode": mode, "progs": progs}
        if mode == "built":
            order = list(range(n))
            rng.shuffle(order)
            plan["order"] = order
        elif mode == "nest":
            # program 0 runs program 1.. from one of its handlers
            for k in range(1, n):
                tgt = progs[0]["init"]
                for _ in range(rng.randint(0, 2)):
                    subs = [op for op in tgt if op[0] in ("s", "c")]
                    if not subs:
                        break
                    op = rng.choice(subs)
                    tgt = op[2] if op[0] == "s" else op[1]
                tgt.insert(rng.randint(0, len(tgt)), ["nest", k])
        elif mode == "threads":
            plan["choices"] = [rng.randrange(12) for _ in range(rng.choice([20, 60, 150]))]
            plan["burst"] = rng.choice([1, 1, 3])
        return plan

    def execute(self, plan):
        if plan["mode"] == "models":
            from . import together
            return together.execute(plan)
        world.reset(1)
        progs = plan["progs"]
        n = len(progs)
        refs = [run_ref(p, "P%d" % k) for k, p in enumerate(progs)]
        its = [Interp("P%d" % k, p, CLOCK, True) for k, p in enumerate(progs)]
        outs = [None] * n
        switches = 0
        mode = plan["mode"]
        if mode == "seq":
            for k in range(n):
                outs[k] = run_real(its[k])
        elif mode == "built":
            gens = [build_real(it) for it in its]
            for k in plan["order"]:
                outs[k] = run_real(its[k], gens[k])
        elif mode == "nest":
            def nest(it, k):
                if k < n and outs[k] is None:
                    outs[k] = {}
                    outs[k] = run_real(its[k])
            its[0].nest = nest
            outs[0] = run_real(its[0])
            for k in range(1, n):
                if outs[k] is None:
                    outs[k] = run_real(its[k])
        else:
            b = Baton(plan["choices"], n)

            def job(k):
                def fn():
                    outs[k] = run_real(its[k])
                return fn
            for k in range(n):
                its[k].yp = (lambda k: lambda: b.park(k))(k)
            ths = [threading.Thread(target=b.body, args=(k, job(k)), daemon=True) for k in range(n)]
            try:
                b.drive(ths)
            except BaseException:
                b.abort = True
                for s in b.sems:
                    s.release()
                raise
            switches = b.switches
        v = []
        all_runs = []
        for k in range(n):
            if outs[k] is None:
                v.append({"rule": "K07.lost", "msg": "simulation %d produced nothing" % k})
                continue
            for x in compare(its[k], outs[k], refs[k][0], refs[k][1], "K07"):
                x["msg"] = "simulation %d (%s): %s" % (k, mode, x["msg"])
                v.append(x)
            if progs[k].get("log"):
                path = os.path.join(DISK.root, "k07_%d.log" % k)
                got = re.findall(r"@@(P\d+:\d+)@@", DISK.durable.get(path, ""))
                want = ["P%d:%d" % (k, j) for j in range(len(its[k].logs))]
                if got != want:
                    v.append({"rule": "K07.log", "msg": "simulation %d (%s): its log file holds %s, it logged %s"
                              % (k, mode, got[:8], want[:8])})
                    continue
                runs = set()
                for g, w in zip(parse_records(DISK.durable.get(path, ""), "{"), its[k].logs):
                    runs.add(g["run"])
                    if float(g["t"]) != w["time"] or g["name"] != progs[k]["model"]:
                        v.append({"rule": "K07.logstamp", "msg": "simulation %d (%s): record %r logged at %r by model "
                                  "%r is stamped %s, %r" % (k, mode, w["text"], w["time"], progs[k]["model"],
                                                            g["t"], g["name"])})
                        break
                if len(runs) > 1:
                    v.append({"rule": "K07.runid", "msg": "simulation %d (%s): run ids %s in its records"
                              % (k, mode, sorted(runs))})
                all_runs.append(runs)
        seen_runs = [r for rs in all_runs for r in rs]
        if len(seen_runs) != len(set(seen_runs)):
            v.append({"rule": "K07.runid", "msg": "simulations share a run id: %s" % all_runs})
        tr = [it.trace for it in its]
        f = {}
        pr = {"mode_" + mode: 1, "thread_switches": switches}
        for it in its:
            merge(f, faults_of(it.trace, it))
            merge(pr, trace_probes(it.trace))
        o = outcome(v, (mode, tr, switches), sum(last_time(it) for it in its), f, pr,
                    sum(it.events for it in its))
        o["nontrivial"] = sum(1 for it in its if it.events) >= 2
        return o


# ==================================================================== L01 ====
def gen_log_config(rng, fname):
    cfg = {"level": rng.choice([10, 20, 30, 40, 50])}
    if rng.random() < 0.8:
        cfg["file_name"] = fname
        if rng.random() < 0.5:
            cfg["file_level"] = rng.choice([10, 20, 30, 40, 50])
        if rng.random() < 0.5:
            cfg["file_name_no_run_id"] = False
            if rng.random() < 0.5:
                cfg["file_name_sep"] = rng.choice(["-", "__", "."])
    if rng.random() < 0.5:
        cfg["use_console"] = True
        cfg["colored_console"] = rng.random() < 0.5
        if rng.random() < 0.5:
            cfg["console_level"] = rng.choice([10, 20, 30, 40, 50])
        if cfg["colored_console"] and rng.random() < 0.3:
            cfg["console_colors"] = {"20": "\x1b[35m"}
    return cfg


class L01:
    id = "L01"
    rule = ("event programs that log and draw random numbers, and whole model runs (ping-pong, tag-"
            "time, RFID), executed with logging off and again under a random logging configuration "
            "with log-file and console failures; non-trivial when records were written or a fault "
            "fired; distinct by digest of history, configuration and faults")
    quick, thorough = 10000, 60000
    shrink_keys = ["prog.init"]

    def gen(self, rng, i, tier):
        plan = {"log": gen_log_config(rng, "l01.log")}
        r = rng.random()
        if r < 0.45:
            plan["disk"] = {"kind": rng.choice(["enospc", "eio", "torn"]), "from": rng.choice([0, 1, 3, 10]),
                            "until": rng.choice([1, 2, 5, 20, 10 ** 9])}
        if rng.random() < 0.4:
            plan["stderr"] = {"kind": rng.choice(["epipe", "eio", "closed", "encode"]), "from": rng.choice([0, 1, 4]),
                              "until": rng.choice([2, 8, 10 ** 9])}
        kind = rng.random()
        if kind < 0.7:
            mix = [("s", 5), ("c", 2), ("tick", 0.6), ("x", 1), ("log", 4), ("rnd", 1.5),
                   ("stop", rng.choice([0, 0.1]))]
            plan["prog"] = gen_prog(rng, mix, loglevels=[10, 15, 20, 25, 30, 40, 50, 60])
            if rng.random() < 0.2:
                plan["prog"]["debug"] = True
        elif kind < 0.8:
            plan["model"] = {"kind": "pingpong", "interval": 10.0, "channel_delay": 2.0, "service_delay": 1.0,
                             "loss_prob": rng.choice([0, 0.3, 1.0]), "max_pings": rng.choice([1, 5, 20])}
        elif kind < 0.87:
            plan["model"] = {"kind": "tagtime", "scenario": rng.choice([1, 2, 3]), "p": [0.5, 0.7, 0.6, 0.8],
                             "t": [1, 2, 3, 4], "n": rng.choice([1, 4]), "chunks": 3}
        else:
            from .det import gen_rfid, gen_fade
            m = plan["model"] = gen_rfid(rng)
            if rng.random() < 0.6:               # tags in and out of reach, and all of them in reach together
                n = m["num_tags"] = rng.choice([2, 3, 4, 6])
                m["settings"]["generation_interval"] = [round(0.005 * rng.random() + 0.0005, 6) for _ in range(n)]
                m["settings"]["tag_sensitivity"] = -30.0
                m["speed"] = rng.choice([150.0, 400.0])
                m["fade"] = gen_fade(rng)
            if rng.random() < 0.5:
                plan["log"] = {"level": 10, "file_name": "l01.log"}
        plan["seed"] = rng.randrange(1 << 30)
        return plan

    def one(self, plan, with_log):
        world.reset(plan["seed"], plan.get("disk") if with_log else None,
                    plan.get("stderr") if with_log else None)
        if "prog" in plan:
            p = dict(plan["prog"])
            if with_log:
                p["log"] = plan["log"]
            it = Interp("A", p, CLOCK, True)
            out = run_real(it)
            rep = None
            if out["report"]:
                s, c, f = out["report"]
                rep = (s.num_events_processed, s.sim_time, getattr(s.exit_reason, "name", None),
                       s.stop_message, s.time_elapsed)
            return norm_trace(it.trace), rep, out["exc"], it.events, last_time(it), len(it.logs)
        from . import models
        tr, res, exc, ev, t = models.run_model_plain(plan["model"], log_config(plan["log"], "A") if with_log else None)
        return tr, res, exc, ev, t, 0

    def execute(self, plan):
        base = self.one(plan, False)
        got = self.one(plan, True)
        v = []
        d = first_diff(got[0], base[0])
        if got[2] is not None and base[2] is None:
            v.append({"rule": "L01.abort", "msg": "run with logging failed with %r" % (got[2],)})
        elif d:
            v.append({"rule": "L01.trace", "msg": "with logging: " + d})
        elif got[1] != base[1]:
            v.append({"rule": "L01.report", "msg": "with logging: %r, without: %r" % (got[1], base[1])})
        if base[2] is not None:
            v.append({"rule": "L01.abort", "msg": "run without logging failed with %r" % (base[2],)})
        f = {}
        merge(f, {"log_disk_" + k: n for k, n in DISK.fired.items()})
        merge(f, {"console_" + k: n for k, n in STDERR.fired.items()})
        pr = {"log_writes": DISK.n_writes, "console_writes": STDERR.n}
        o = outcome(v, (got[0], got[1], sorted(plan["log"].items(), key=str), sorted(f)), got[4], f, pr, got[3])
        o["nontrivial"] = DISK.n_writes > 0 or STDERR.n > 0
        return o


# ==================================================================== L02 ====
ANSI = re.compile(r"\x1b\[[0-9;]*m")
LINE = re.compile(r"~~(?P<t>[^|]*)\|(?P<run>[^|]*)\|(?P<lv>[^|]*)\|(?P<name>[^|]*)\|(?P<fn>[^|]*)\|(?P<msg>.*)")
FMT = {"{": LOGFMT,
       "%": "~~%(simTime)r|%(runId)s|%(levelname)s|%(name)s|%(funcName)s|%(message)s",
       "$": "~~${simTime}|${runId}|${levelname}|${name}|${funcName}|${message}"}


def parse_records(text, style):
    """records that came from the program, from a destination's text"""
    out = []
    for line in text.split("\n"):
        line = ANSI.sub("", line)
        if style is None:
            m = re.match(r"(?P<t>[0-9.]+) \[(?P<lv>[^\]]*)\] (?P<name>.*?) \(R:(?P<run>\d+)\) "
                         r"\((?P<file>[^:)]*):(?P<fn>[^)]*)\) - (?P<msg>.*)", line)
        else:
            m = LINE.match(line)
        if m and m.group("msg").startswith("@@"):
            out.append(m.groupdict())
    return out


class L02:
    id = "L02"
    rule = ("event programs with log calls of all kinds under random destination configurations "
            "(file, console, per-destination levels, file naming, format styles, preexisting file), "
            "with a process crash or failure after an arbitrary operation in about 40% of runs; "
            "non-trivial when at least one record was due in a destination; distinct by digest of "
            "history and configuration")
    quick, thorough = 120000, 2000000
    shrink_keys = ["prog.init"]

    def gen(self, rng, i, tier):
        mix = [("s", 5), ("c", 2), ("tick", 0.6), ("x", 0.5), ("log", 6),
               ("crash", rng.choice([0, 0.15])), ("raise", rng.choice([0, 0, 0.1])),
               ("stop", rng.choice([0, 0.1]))]
        name = rng.choice(["l02.log", "l02.log", "l02", "l02.txt", "L02.LOG", "l02.Log", "a.b.log", "l02.log.1"])
        cfg = gen_log_config(rng, name)
        style = rng.choice(["{", "{", "%", "$"])
        cfg["style"], cfg["fmt"] = style, FMT[style]
        default_fmt = rng.random() < 0.15
        if default_fmt:
            del cfg["style"], cfg["fmt"]
        p = gen_prog(rng, mix, fins=("absent", "obj"), loglevels=[10, 15, 20, 25, 30, 35, 40, 50, 60])
        p["model"] = rng.choice(["m", "model x", "RFID"])
        p["log"] = cfg
        if rng.random() < 0.15:
            p["debug"] = True
        if p["fin"] == "obj" and rng.random() < 0.5:
            p["finbody"] = [["log", "info", 20, "a", "fin"]]
        return {"prog": p, "stale": rng.random() < 0.4, "seed": rng.randrange(1 << 30),
                "rerun": rng.random() < 0.25}

    def expected_path(self, cfg, run):
        name = cfg["file_name"].strip()
        if not cfg.get("file_name_no_run_id", True):
            sep = cfg.get("file_name_sep", "_")
            base, ext = (name[:-4], name[-4:]) if name.lower().endswith(".log") else (name, "")
            name = base + sep + run + ext
        return os.path.join(DISK.root, name)

    def execute(self, plan):
        world.reset(plan["seed"])
        p = plan["prog"]
        cfg = p["log"]
        v = []
        tr = []
        n_due = 0
        faults, probes = {}, {}
        runs_seen = []
        ev = 0
        for rep in range(2 if plan["rerun"] else 1):
            DISK.durable.clear()
            STDERR.reset(None)
            if plan["stale"] and cfg.get("file_name") and cfg.get("file_name_no_run_id", True):
                DISK.durable[self.expected_path(cfg, "")] = "~~0|0|INFO|x|y|@@stale@@ old record\n"
            it = Interp("A", p, CLOCK, True)
            out = run_real(it)
            if isinstance(out["exc"], SimCrash):
                DISK.crash()
            elif out["exc"] is not None and out["exc"] is not it.raised:
                v.append({"rule": "L02.abort", "msg": "run failed with %r" % (out["exc"],)})
            if out["exc"] is not None and out["exc"] is it.raised and not isinstance(out["exc"], SimCrash):
                DISK.crash()         # the uncaught failure ends the process
            tr.append(it.trace)
            ev += it.events
            merge(faults, faults_of(it.trace, it))
            n_due += self.verify(it, p, cfg, v, runs_seen, probes)
            if v:
                break
        if plan["rerun"] and len(runs_seen) == 2 and runs_seen[0] == runs_seen[1]:
            v.append({"rule": "L02.runid", "msg": "two runs share the run id %s" % runs_seen[0]})
        o = outcome(v[:3], (tr, sorted(cfg.items(), key=str)), 0, faults, probes, ev)
        o["nontrivial"] = n_due > 0
        return o

    def verify(self, it, p, cfg, v, runs_seen, probes):
        level = cfg["level"]
        style = cfg.get("style")
        total = 0
        dests = []
        run = None
        if cfg.get("file_name"):
            files = sorted(DISK.durable)
            if len(files) != 1:
                v.append({"rule": "L02.file", "msg": "log files on disk: %s"
                          % [os.path.basename(f) for f in files]})
                return 0
            text = DISK.durable[files[0]]
            if "@@stale@@" in text:
                v.append({"rule": "L02.stale", "msg": "log file still holds records of an earlier run"})
            dests.append(("file", cfg.get("file_level") or level, text, files[0]))
        if cfg.get("use_console"):
            dests.append(("console", cfg.get("console_level") or level, STDERR.getvalue(), None))
        for name, thr, text, path in dests:
            got = parse_records(text, style)
            want = [r for r in it.logs if r["level"] >= thr]
            total += len(want)
            probes["records_" + name] = probes.get("records_" + name, 0) + len(want)
            gm, wm = [g["msg"] for g in got], [w["text"] for w in want]
            if gm != wm:
                missing = [m for m in wm if m not in gm]
                extra = [m for m in gm if m not in wm]
                v.append({"rule": "L02." + name, "msg":
                          "%s (threshold %s): %d records, expected %d; missing %s, unexpected %s"
                          % (name, thr, len(gm), len(wm), missing[:3], extra[:3])})
                continue
            for g, w in zip(got, want):
                run = run or g["run"]
                t = g["t"]
                ok_t = ("%013.06f" % w["time"] == t) if style is None else (float(t) == w["time"])
                lvname = {10: "DEBUG", 20: "INFO", 30: "WARNING", 40: "ERROR", 50: "CRITICAL"}.get(
                    w["level"], "Level %d" % w["level"])
                if not ok_t:
                    v.append({"rule": "L02.time", "msg": "%s: record %r stamped %s, logged at %r"
                              % (name, w["text"], t, w["time"])})
                elif g["lv"].strip() != lvname:
                    v.append({"rule": "L02.level", "msg": "%s: record %r shows level %s, logged at %s"
                              % (name, w["text"], g["lv"], lvname)})
                elif g["fn"] != w["func"]:
                    v.append({"rule": "L02.site", "msg": "%s: record %r attributed to %s, logged in %s"
                              % (name, w["text"], g["fn"], w["func"])})
                elif g["run"] != run:
                    v.append({"rule": "L02.runid", "msg": "%s: run id %s and %s in one run" % (name, run, g["run"])})
                elif g["name"] != p["model"]:
                    v.append({"rule": "L02.name", "msg": "%s: model name %r, expected %r" % (name, g["name"], p["model"])})
                if v:
                    return total
            if path:
                r = run
                if r is None:            # take it from any record of the kernel
                    m = re.search(r"\(R:(\d+)\)", text) if style is None else re.search(r"~~[^|]*\|(\d+)\|", text)
                    r = m.group(1) if m else None
                if r is not None and path != self.expected_path(cfg, r):
                    v.append({"rule": "L02.filename", "msg": "log file %s, expected %s"
                              % (os.path.basename(path), os.path.basename(self.expected_path(cfg, r)))})
                elif r is None and cfg.get("file_name_no_run_id", True) and path != self.expected_path(cfg, ""):
                    v.append({"rule": "L02.filename", "msg": "log file %s" % os.path.basename(path)})
        if run:
            runs_seen.append(run)
        return total


CHECKS = [K01(), K02(), K03(), K04(), K05(), K06(), K07(), L01(), L02()]
