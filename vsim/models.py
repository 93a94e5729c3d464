"""Tracing seam around whole model runs, and entry points of the models.

The kernel hands every handler a `Simulator`; the name is looked up in
`pysim.sim.simulator` when a run starts, so replacing it by a subclass shows
us every event of every run (time, handler, arguments) without touching the
model or the kernel.
"""
import functools
from . import world
from .world import DRAWS, CLOCK


class Tracer:
    """One traced simulation."""

    def __init__(self, cap=200000, before=None, after=None, on_init=None):
        self.cap = cap
        self.before, self.after, self.on_init = before, after, on_init
        self.sim = None
        self.events = []         # (time, handler name)
        self.n = 0
        self.scheduled = 0
        self.running = False

    def time(self):
        return self.sim.time if self.sim is not None else None

    def event(self, fn, sim, args):
        from .engine import Cap
        self.n += 1
        if self.n > self.cap:
            raise Cap("more than %d events" % self.cap)
        name = getattr(fn, "__qualname__", None) or type(fn).__name__
        self.events.append((sim.time, name))
        if self.before:
            self.before(self, sim, fn, args)
        self.running = True
        try:
            ret = fn(sim, *args)
        finally:
            self.running = False
        if self.after:
            self.after(self, sim, fn, args)
        return ret


def _same(x):
    return x


class _Wrapped:
    """A handler with a witness; pickles as the handler itself."""

    def __init__(self, tr, handler):
        try:
            functools.update_wrapper(self, handler)
        except Exception:
            pass
        self._vsim_tr, self._vsim_fn = tr, handler

    def __call__(self, sim, *args):
        return self._vsim_tr.event(self._vsim_fn, sim, args)

    def __reduce__(self):
        return _same, (self._vsim_fn,)

    def __repr__(self):
        return repr(self._vsim_fn)


def _wrap(tr, handler):
    if not callable(handler) or getattr(handler, "_vsim_tr", None) is tr:
        return handler
    return _Wrapped(tr, handler)


class tracing:
    """with tracing(factory) as t: every simulation started inside the block
    gets a tracer made by `factory()`; t.sims lists them in start order."""

    def __init__(self, factory=Tracer):
        self.factory = factory
        self.sims = []

    @property
    def last(self):
        return self.sims[-1] if self.sims else None

    def __enter__(self):
        from pysim.sim import simulator
        self._mod = simulator
        self._orig = base = simulator.Simulator
        outer = self

        class Simulator(base):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                tr = outer.factory()
                tr.sim = self
                self._vsim = tr
                outer.sims.append(tr)
                if tr.on_init:
                    tr.on_init(tr, self)

            def schedule(self, delay, handler, *a, **k):
                self._vsim.scheduled += 1
                return super().schedule(delay, _wrap(self._vsim, handler), *a, **k)

            def call(self, handler, *a, **k):
                self._vsim.scheduled += 1
                return super().call(_wrap(self._vsim, handler), *a, **k)
        Simulator.__name__ = base.__name__
        Simulator.__qualname__ = base.__qualname__
        simulator.Simulator = Simulator
        return self

    def __exit__(self, *a):
        self._mod.Simulator = self._orig
        return False


# What a configuration of the RFID model may be varied by: attribute of Settings, values.
RFID_VARS = [
    ("tari", [6.25e-6, 12.5e-6, 18.75e-6, 25e-6]), ("rtcal_tari_mul", [3.0, 2.5, 2.75]),
    ("trcal_rtcal_mul", [2.5, 1.1, 2.0, 3.0]), ("temp", ["NOMINAL", "EXTENDED"]), ("travel_distance", [20.0, 15.0]),
    ("initial_distance_to_reader", [10.0, 4.0, 7.5]), ("reader_antenna_x", [5.0, 4.0]), ("reader_antenna_z", [5.0, 3.0]),
    ("tag_antenna_x", [5.0, 3.0]), ("tag_antenna_z", [0.0, 0.5]), ("update_interval", [0.005, 0.01, 0.02]),
    ("reader_power", [31.5, 28.0, 25.0]), ("reader_antenna_gain", [6.0, 8.0]), ("reader_cable_loss", [-2.0, -1.0]),
    ("tag_antenna_gain", [3.0, 1.5]), ("tag_modulation_loss", [-12.0, -6.0]), ("tag_sensitivity", [-18.0, -22.0]),
    ("reader_noise", [-80.0, -70.0, -62.0]), ("ber_distribution", ["rayleigh", "awgn"]),
    ("frequency", [860e6, 915e6, 960e6]), ("permittivity", [15.0, 5.0]), ("conductivity", [0.03, 0.5]),
    ("polarization_loss", [-3.0, 0.0]), ("ground_reflection_type", ["reflection", "const"]),
    ("use_doppler", [True, False]), ("reader_switch_power", [True, False]),
    ("reader_power_on_duration", [0.03, 0.06, 0.1]), ("reader_power_off_duration", [0.002, 0.01]),
    ("read_tid_bank", [True, False]), ("tid_word_size", [1, 2, 8, 20]), ("encoding", ["FM0", "M2", "M4", "M8"]),
    ("dr", ["DR_8", "DR_643"]), ("sel", ["ALL", "NOT_SEL"]), ("session", ["S0", "S1", "S2", "S3"]), ("trext", [True, False]),
    ("q", [1, 2, 3]), ("use_query_adjust", [True, False]), ("adjust_delta", [0.1, 0.3, 0.5]), ("q_fp", [1.0, 2.0, 3.0]),
    ("target", ["A", "B"]), ("target_strategy", ["switch", "const"]), ("rounds_per_target", [1, 2]),
    ("epc_bitlen", [96, 64, 128]), ("s1_persistence", [2.0, 0.01]), ("s2_persistence", [2.0, 0.01]),
    ("s3_persistence", [2.0, 0.01]), ("collect_power_statistics", [False, False, False, True])]


def vary(cfg, rng, n=1, which=None):
    """A neighbour of a configuration: the same with a few parameters changed."""
    import copy
    c = copy.deepcopy(cfg)
    if c["kind"] == "pingpong":
        for k in rng.sample(["interval", "channel_delay", "service_delay", "loss_prob", "max_pings"], n):
            c[k] = {"interval": rng.choice([10.0, 3.0]), "channel_delay": rng.choice([0.5, 2.0]),
                    "service_delay": rng.choice([0.25, 1.0]), "loss_prob": rng.choice([0.2, 0.7]),
                    "max_pings": rng.choice([3, 20])}[k]
    elif c["kind"] == "tagtime":
        for k in rng.sample(["scenario", "p", "t", "n", "chunks"], n):
            c[k] = {"scenario": rng.choice([1, 2, 3]), "p": c["p"][1:] + c["p"][:1], "t": c["t"][1:] + c["t"][:1],
                    "n": rng.choice([2, 7]), "chunks": rng.choice([2, 5])}[k]
    elif c["kind"] == "rfid":
        for k, vals in which or rng.sample(RFID_VARS, n):
            now = c["settings"].get(k, vals[0])
            c["settings"][k] = rng.choice([v for v in vals if v != now] or vals)
    return c


def fading(model, fade):
    """Radio fading as a fault: a tag is cut off from the reader's field in stretches of
    `period` seconds, each with probability `p`, apart from the physics of the channel."""
    from .world import Rng
    base, seen = type(model.medium), {}

    class Fading(base):
        def estimate_tag_rx_power(self, reader, tag, time):
            v = super().estimate_tag_rx_power(reader, tag, time)
            k = (tag.tag_id, int(time / fade["period"]))
            if k not in seen:
                seen[k] = Rng("fade", fade["seed"], *k).random() < fade["p"]
            return None if v is None else (-150.0 if seen[k] else v)
    model.medium.__class__ = Fading


ENUMS = {"temp": "TempRange", "encoding": "TagEncoding", "dr": "DivideRatio", "sel": "SelFlag",
         "session": "Session", "target": "InventoryFlag"}


def run_kind(cfg, logger_config=None, **limits):
    """Run one whole model through its public entry point."""
    from pysim.sim.logger import ModelLoggerConfig
    lc = logger_config if logger_config is not None else ModelLoggerConfig()
    kind = cfg["kind"]
    if kind == "pingpong":
        from pysim.models.pingpong.cli import run_model
        from pysim.models.pingpong.objects import Config
        return run_model(Config(**{k: cfg[k] for k in (
            "interval", "channel_delay", "service_delay", "loss_prob", "max_pings")}), lc, **limits)
    if kind == "tagtime":
        from pysim.models.tag_time.cli import run_model
        from pysim.models.tag_time.objects import Config
        return run_model(Config(probability=tuple(cfg["p"]), processing_time=tuple(cfg["t"]),
                                max_transmisions=cfg["n"], chunks_number=cfg["chunks"],
                                scenario=cfg["scenario"]), lc, **limits)
    if kind == "rfid":
        from pysim.models.rfid import configurator as C
        from pysim.models.rfid import epcstd as std
        st = C.Settings()
        for k, v in (cfg.get("settings") or {}).items():
            if k == "generation_interval":
                gaps = list(v)
                v = (lambda: gaps.pop(0) if gaps else 0.01,)
            elif isinstance(v, str) and k in ENUMS:
                v = getattr(std, ENUMS[k])[v]
            setattr(st, k, v)
        extra = {k: v for k, v in cfg.items() if k not in ("kind", "num_tags", "speed", "settings", "fade")}
        model = C.create_model(st, num_tags=cfg["num_tags"], speed=cfg["speed"], **extra)
        if cfg.get("fade"):
            fading(model, cfg["fade"])
        res = C.run_model(model, lc, **limits)
        sta = model.statistics
        out = {"result": res, "created": sta.num_tags_created, "tags": []}
        if sta.tags_history:
            out["inventory"] = sta.inventory_probability()
            out["tid"] = sta.read_tid_probability()
            out["rounds"] = float(sta.average_rounds_per_tag())
        for r in sta.tags_history:
            out["tags"].append({"id": r.tag.tag_id, "epc": r.tag.epc, "tid": r.tag.tid, "rounds": r.num_rounds_attained,
                                "adjusts": r.num_qadjust_attained,
                                "reads": [[x.round_index, x.antenna_index, [float(v) for v in x.tag_pos], x.ber, x.snr,
                                           bool(x.read_tid)] for x in r.inventory_history]})
        return out
    raise ValueError(kind)


def plain(x):
    """Comparable form of a result."""
    import dataclasses, enum
    if isinstance(x, enum.Enum):
        return x.name
    if hasattr(x, "model_dump"):
        return plain(x.model_dump())
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return {f.name: plain(getattr(x, f.name)) for f in dataclasses.fields(x)
                if "handler" not in f.name and f.name != "time_elapsed"}
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if hasattr(x, "tolist"):
        return plain(x.tolist())
    if isinstance(x, (int, float, str, bool, bytes, type(None))):
        return x
    return type(x).__name__


def run_model_plain(cfg, logger_config=None, **limits):
    """-> (history of events and draws, result, exception, events, model time)"""
    from .engine import Hang, Cap
    tr = []
    res = exc = None
    with tracing() as T:
        DRAWS.on = True
        DRAWS.time_getter = lambda: T.last.time() if T.last else None
        try:
            res = plain(run_kind(cfg, logger_config, **limits))
        except (Hang, Cap):
            raise
        except Exception as e:
            exc = e
        finally:
            DRAWS.on = False
    for s in T.sims:
        tr.append(("sim", list(s.events)))
    tr.append(("draws", list(DRAWS.log)))
    n = sum(s.n for s in T.sims)
    t = max((s.events[-1][0] for s in T.sims if s.events), default=0.0)
    flat = []
    for s in T.sims:
        flat += [("E", name, tm) for tm, name in s.events]
    flat += [("D",) + d for d in DRAWS.log]
    return flat, res, exc, n, t
