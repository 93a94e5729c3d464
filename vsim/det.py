"""D01: a run is a function of its configuration and seeds. Each plan runs one
configuration twice in different surroundings - hash seed, wall clock, speed of
the machine, logging, entropy, working directory, and a different history of
complete, cut-short and crashed simulations in the same process - and compares
every event, every random draw and the result."""
import json, os, random as _random, subprocess, sys
from . import world, models
from .child import in_child, warm
from .world import CLOCK, DRAWS, Rng
from .kern import outcome, log_config, gen_log_config, first_diff, Interp, run_real, norm_trace, last_time


class Crash(RuntimeError):
    pass


def gen_rfid(rng):
    nt = rng.choice([1, 2, 3, 5])
    tari = rng.choice([6.25e-6, 12.5e-6, 25e-6])
    adj = rng.random() < 0.5
    q = rng.choice([0, 1, 2, 3])
    s = {"generation_interval": [round(rng.uniform(0.001, 0.05), 6) for _ in range(nt)],
         "q": q, "q_fp": float(q), "use_query_adjust": adj, "adjust_delta": rng.choice([0.1, 0.3, 0.5]),
         "session": rng.choice(["S0", "S1", "S2", "S3"]), "encoding": rng.choice(["FM0", "M2", "M4", "M8"]),
         "target_strategy": rng.choice(["switch", "const"]), "rounds_per_target": rng.choice([1, 2]),
         "reader_power_on_duration": round(rng.uniform(0.01, 0.1), 4),
         "reader_power_off_duration": round(rng.uniform(0.001, 0.02), 4),
         "update_interval": round(rng.uniform(0.002, 0.02), 4), "tid_word_size": rng.choice([1, 2, 8, 64]),
         "tari": tari, "initial_distance_to_reader": rng.choice([10.0, 4.0]), "tag_antenna_x": rng.choice([5.0, 3.0]),
         "collect_power_statistics": rng.random() < 0.15}
    if rng.random() < 0.6:
        for k, vals in rng.sample(models.RFID_VARS, rng.choice([1, 3, 8, 20])):
            s[k] = rng.choice(vals)
    c = {"kind": "rfid", "num_tags": nt, "speed": rng.choice([150.0, 300.0, 600.0]), "settings": s}
    if rng.random() < 0.3:
        c["fade"] = gen_fade(rng)
    return c


def gen_fade(rng):
    return {"seed": rng.randrange(1 << 30), "period": rng.choice([0.002, 0.01, 0.05]), "p": rng.choice([0.1, 0.3, 0.5])}


def gen_cfg(rng, light=False):
    r = rng.random()
    if r < 0.3:
        return {"kind": "pingpong", "interval": rng.choice([10.0, 1.0, round(rng.uniform(0.1, 9), 3)]),
                "channel_delay": round(rng.uniform(0, 4), 3), "service_delay": round(rng.uniform(0, 3), 3),
                "loss_prob": rng.choice([0.1, 0.5, round(rng.random(), 3), 0, 1.0]),
                "max_pings": rng.choice([1, 10, 60])}
    if r < 0.6:
        return {"kind": "tagtime", "scenario": rng.choice([1, 2, 3]), "p": [round(rng.uniform(0.2, 1), 3) for _ in range(4)],
                "t": [round(rng.uniform(0.1, 5), 3) for _ in range(4)], "n": rng.choice([1, 10, 40]),
                "chunks": rng.choice([1, 3, 10])}
    if r < 0.75 and not light:
        return {"kind": "prog", "seed": rng.randrange(1 << 30)}
    return gen_rfid(rng)


def gen_env(rng, cfg):
    e = {"entropy": rng.randrange(1 << 30), "wall": rng.choice([0.0, 1.7e9, 4e9, 1e9 * rng.random()]),
         "slow": rng.choice([0, 0, 1e-6, 0.01, 5.0]), "jump": rng.random() < 0.4,
         "log": gen_log_config(rng, "d01.log") if rng.random() < 0.5 else None,
         "prior": [], "cwd": rng.random() < 0.3, "heap": rng.choice([0, rng.randrange(1, 1 << 30)])}
    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
        # often a neighbour of the run itself: what is wrongly kept between runs differs in little
        c = gen_cfg(rng, True) if cfg["kind"] == "prog" or rng.random() < 0.4 \
            else models.vary(cfg, rng, rng.choice([0, 1, 1, 2, 4]))
        how = rng.choice(["full", "full", "crash", "limit", "stop_in_model"])
        e["prior"].append({"cfg": c, "how": how, "at": rng.choice([0, 1, 7, 60]),
                           "limit": round(rng.uniform(0, 3), 3), "same_seed": rng.random() < 0.6})
    return e


class D01:
    id = "D01"
    quick, thorough = 1000, 80000
    shrink_keys = ["a.prior", "b.prior"]
    technique = ("deterministic simulation with fault injection: each configuration run twice under equal generator seeds in "
                 "different simulated surroundings (clock, machine speed, entropy, logging, hash seed, crashed and complete "
                 "earlier runs), comparing complete event and draw histories")
    rule = ("pairs of runs of one configuration of ping-pong, tag-time, RFID or an event program under equal seeds in "
            "different surroundings, each in a process of its own that has run nothing but the given earlier "
            "simulations (often neighbours of the configuration); one pair in 8 has its second run in a fresh interpreter with another hash seed; "
            "non-trivial when at least 2 events ran; distinct by digest of the common history")
    components = {"real": ["all three models", "pysim.sim", "numpy and random generators"],
                  "simulated": ["clocks", "entropy", "console", "disk of log files", "hash seed (fresh interpreters)"],
                  "stubbed": ["matplotlib"]}

    def gen(self, rng, i, tier):
        cfg = gen_cfg(rng)
        if cfg["kind"] == "prog":
            from .kern import gen_prog
            mix = [("s", 5), ("c", 2), ("tick", 0.6), ("x", 1), ("log", 2), ("rnd", 3), ("stop", rng.choice([0, 0.1]))]
            cfg["prog"] = gen_prog(rng, mix, loglevels=[10, 20, 30, 40])
        a, b = gen_env(rng, cfg), gen_env(rng, cfg)
        if cfg["kind"] == "rfid" and rng.random() < 0.35:
            # after runs that differ from this one in a single parameter each
            n = rng.randrange(len(models.RFID_VARS))
            a["prior"] = a["prior"][:1] if rng.random() < 0.5 else []
            b["prior"] = [{"cfg": models.vary(cfg, rng, which=[models.RFID_VARS[(n + 11 * k) % len(models.RFID_VARS)]]),
                           "how": "full", "at": 0, "limit": 0, "same_seed": True} for k in range(5)]
        return {"cfg": cfg, "seed": rng.randrange(1 << 30), "a": a, "b": b,
                "hash": str(rng.randrange(1, 1 << 30)) if i % 8 == 7 else None}

    def execute(self, plan):
        warm()
        a = in_child(lambda: one(plan, plan["a"]))
        if plan.get("hash"):
            b = self.other_interpreter(plan)
        else:
            b = in_child(lambda: one(plan, plan["b"]))
        v = []
        d = first_diff(b["trace"], a["trace"])
        if a["exc"] != b["exc"]:
            v.append({"rule": "D01.abort", "msg": "one run ended with %s, its repetition with %s" % (a["exc"], b["exc"])})
        elif d:
            v.append({"rule": "D01.trace", "msg": "the repetition of a run of %s differs: %s" % (plan["cfg"]["kind"], d)})
        elif a["res"] != b["res"]:
            v.append({"rule": "D01.result", "msg": "equal histories of %s, different results: %s" % (
                plan["cfg"]["kind"], res_diff(a["res"], b["res"]))})
        f = {}
        for e in (plan["a"], plan["b"]):
            for p in e["prior"]:
                f["prior_" + p["how"]] = f.get("prior_" + p["how"], 0) + 1
            if e["jump"]:
                f["clock_jumps"] = f.get("clock_jumps", 0) + 1
            if e.get("heap"):
                f["shuffled_addresses"] = f.get("shuffled_addresses", 0) + 1
            if e["slow"]:
                f["slow_machine"] = f.get("slow_machine", 0) + 1
        pr = {"model_" + plan["cfg"]["kind"]: 1, "draws": sum(1 for x in a["trace"] if x and x[0] == "D")}
        if plan.get("hash"):
            pr["fresh_interpreter"] = 1
        o = outcome(v, [plan["cfg"], a["trace"], a["res"]], a["t"], f, pr, a["n"] + b["n"])
        o["nontrivial"] = a["n"] >= 2
        return o

    def other_interpreter(self, plan):
        root = os.path.dirname(world.DISK.root)
        d = os.path.join(root, "d01")
        os.makedirs(os.path.join(d, "disk"), exist_ok=True)
        fin, fout = os.path.join(d, "in"), os.path.join(d, "out")
        with world.real.open(fin, "w") as f:
            json.dump(plan, f)
        env = dict(os.environ, PYTHONHASHSEED=plan["hash"], VSIM_SCRATCH=os.path.join(d, "disk"))
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        code = ("import sys;sys.path.insert(0,%r);sys.setrecursionlimit(5000)\nfrom vsim import world\nworld.install(%r)\n"
                "from vsim import det\ndet.inner(%r,%r)" % (here, os.path.join(d, "disk"), fin, fout))
        p = subprocess.Popen([sys.executable, "-c", code], env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        err = p.communicate()[1]
        if p.returncode != 0:
            from .engine import HarnessError
            raise HarnessError("inner interpreter failed: %s" % err.decode("utf-8", "replace")[-1500:])
        with world.real.open(fout) as f:
            return json.load(f)


def inner(fin, fout):
    plan = json.load(world.real.open(fin))
    o = one(plan, plan["b"])
    world.release()
    with world.real.open(fout, "w") as f:
        json.dump(o, f)


def res_diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return res_diff(a.get(k), b.get(k), path + "." + str(k))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return res_diff(x, y, "%s[%d]" % (path, k))
    return "%s: %.80r / %.80r" % (path, a, b)


def reseed(seed):
    import numpy as np
    _random.seed(seed)
    np.random.seed(seed % (2 ** 32))


def one(plan, env):
    """the configuration in one environment -> comparable record"""
    world.reset(env["entropy"], wall0=env["wall"])
    if env["cwd"]:
        os.makedirs(os.path.join(world.DISK.root, "elsewhere"), exist_ok=True)
        os.chdir(os.path.join(world.DISK.root, "elsewhere"))
    try:
        for p in env["prior"]:
            if p.get("same_seed"):           # the neighbour then draws what the run will draw
                reseed(plan["seed"])
            prior(p)
        heap = world.heap_noise(env["heap"]) if env.get("heap") else None      # noqa: kept alive during the run
        DRAWS.reset()
        reseed(plan["seed"])
        rng = Rng("env", plan["seed"], env["entropy"])

        def tick(*_):
            if env["slow"]:
                CLOCK.advance(env["slow"] * rng.random())
            if env["jump"] and rng.random() < 0.05:
                CLOCK.jump(rng.choice([-3600, 86400, -1e6]))
        cfg = plan["cfg"]
        if cfg["kind"] == "prog":
            p = dict(cfg["prog"])
            if env["log"]:
                p["log"] = env["log"]
            it = Interp("A", p, CLOCK, True)
            out = run_real(it)
            s = out["report"][0] if out["report"] else None
            rep = [s.num_events_processed, s.sim_time, getattr(s.exit_reason, "name", None)] if s is not None else None
            return {"trace": models.plain(norm_trace(it.trace)), "res": rep, "exc": repr(out["exc"]), "t": last_time(it),
                    "n": it.events}
        return traced(cfg, log_config(env["log"], "A") if env["log"] else None, tick)
    finally:
        os.chdir(world.DISK.root)


def traced(cfg, lc, tick, crash=None, **limits):
    from .engine import Hang, Cap
    res = exc = None

    def before(tr, sim, fn, args):
        tick()
        if crash is not None and tr.n > crash:
            raise Crash("injected")
    with models.tracing(lambda: models.Tracer(400000, before)) as T:
        DRAWS.on = True
        DRAWS.log = []
        DRAWS.time_getter = lambda: T.last.time() if T.last else None
        try:
            res = models.plain(models.run_kind(cfg, lc, **limits))
        except (Hang, Cap):
            raise
        except Exception as e:
            exc = repr(e)
        finally:
            DRAWS.on = False
    tr = []
    for s in T.sims:
        tr += [["E", name, tm] for tm, name in s.events]
    tr += [["D"] + list(d) for d in DRAWS.log]
    return {"trace": models.plain(tr), "res": res, "exc": exc, "t": max((s.events[-1][0] for s in T.sims if s.events), default=0.0),
            "n": sum(s.n for s in T.sims)}


def prior(p):
    how = p["how"]
    kw = {}
    if how == "limit":
        kw["max_sim_time"] = p["limit"]
    elif how == "stop_in_model":
        kw["max_num_events"] = 1 + p["at"]
    traced(p["cfg"], None, lambda *_: None, p["at"] if how == "crash" else None, **kw)


CHECKS = [D01()]
