"""RFID model (R01..R10): whole runs of the real reader, tags, generator,
statistics and kernel over a simulated radio channel that loses, fades and
mutes on a seeded schedule, with lockstep references for the reader, the
tags, the air timing, the power cycle and the statistics."""
import math
from . import world, air, models
from .world import CLOCK, DRAWS, Rng
from .kern import outcome, log_config, merge

EPS = 1e-9


class Ex:
    """One exchange: a command and the replies to it."""
    __slots__ = ("k", "t", "kind", "f", "replies", "dur", "reply_dt", "q", "qfp", "round", "on", "end",
                 "got", "single", "evals", "antenna", "obj", "aborted", "deliver", "gone")


class TagObs:
    def __init__(self, idx, obj, t):
        self.idx, self.obj, self.born = idx, obj, t
        self.left = None
        self.last_eval = None
        self.evals = 0
        self.power = None
        self.ref = None
        self.dead = False        # reference given up after a first difference
        self.rounds = self.qadjusts = 0
        self.reads = []
        self.open = None
        self.rns = []
        self.repeat = 0
        self.pos = None


def cname(x):
    return type(x).__name__


def nm(x):
    return getattr(x, "name", x)


def fields(cmd):
    k = cname(cmd)
    if k == "Query":
        return {"dr": nm(cmd.dr), "m": nm(cmd.m), "trext": bool(cmd.trext), "sel": nm(cmd.sel),
                "session": nm(cmd.session), "target": nm(cmd.target), "q": cmd.q, "crc": cmd.crc}
    if k == "QueryRep":
        return {"session": nm(cmd.session)}
    if k == "QueryAdjust":
        return {"session": nm(cmd.session), "updn": cmd.updn}
    if k == "Ack":
        return {"rn": cmd.rn}
    if k == "ReqRN":
        return {"rn": cmd.rn, "crc": cmd.crc}
    if k == "Read":
        return {"bank": nm(cmd.bank), "ptr": cmd.word_ptr, "words": cmd.word_count, "rn": cmd.rn,
                "crc": cmd.crc}
    raise ValueError("unknown command %s" % k)


def reply_info(rep):
    k = cname(rep)
    if k == "AckReply":
        return k, {"epc": bytes(rep.epc)}
    if k == "ReadReply":
        return k, {"memory": bytes(rep.memory), "rn": rep.rn}
    if k not in ("QueryReply", "ReqRNReply"):
        return "%s (not a reply)" % k, {}
    return k, {"rn": rep.rn}


KEYWORDS = {"speed": "speed", "encoding": "encoding", "tari": "tari", "tid_word_size": "tid_word_size",
            "reader_offset": "reader_antenna_x", "tag_offset": "tag_antenna_x", "altitude": "reader_antenna_z",
            "power": "reader_power", "num_tags": "num_tags", "useadjust": "use_query_adjust", "delta": "adjust_delta"}


def decoy(std, attr, v):
    if attr == "encoding":
        return std.TagEncoding.M4 if v is not std.TagEncoding.M4 else std.TagEncoding.FM0
    if isinstance(v, bool):
        return not v
    if attr == "tari":
        return 25e-6 if v != 25e-6 else 6.25e-6
    return v + 3


# ==================================================================== scene ====
class Scene:
    MAX_BAD = 3
    make_ref = air.RefTag

    def configure(self, s):
        pass

    def __init__(self, plan, focus=None):
        self.plan = plan
        self.focus = focus
        self.viol = []
        self.nbad = {}
        self.ex = []
        self.cur = None
        self.tags = []
        self.by_obj = {}
        self.present = []
        self.departed = []
        self.power_log = []
        self.is_on = False
        self.rounds = 0          # rounds opened so far
        self.single = 0
        self.gaps_called = 0
        self.gen_times = []
        self.faults = {}
        self.probes = {}
        self.evcount = 0
        self.delivered_now = []
        self.stop_check = None
        self.hist = []

    def bad(self, rule, msg):
        p = rule.split(".")[0]
        n = self.nbad.get(p, 0)
        if n < self.MAX_BAD:
            self.nbad[p] = n + 1
            self.viol.append({"rule": rule, "msg": msg})

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + n

    # ------------------------------------------------------------ scripted air ----
    def tag_power(self, to, t, antenna):
        p = self.plan
        v = p["power"]
        for who, a, z in p["fades"]:
            if (who == -1 or who == to.idx) and a <= t < z:
                v = p["weak"]
                break
        if p.get("dead_antenna") is not None and antenna == p["dead_antenna"]:
            v = p["weak"]
        return v

    def fate(self, k):
        """is the k-th lone reply of the run received?"""
        f = self.plan["fates"]
        heal = self.plan.get("heal")
        if heal is not None and self.now() >= heal:
            return True
        return bool(f[k]) if k < len(f) else True

    # -------------------------------------------------------------------- run ----
    def build(self):
        import numpy as np
        from pysim.models.rfid import configurator as C, epcstd as std, objects as O
        self.np, self.std, self.O, self.C = np, std, O, C
        p = self.plan
        c = p["cfg"]
        s = C.Settings()
        s.tari = c["tari"]
        s.rtcal_tari_mul = c["rtmul"]
        s.trcal_rtcal_mul = c["trmul"]
        s.temp = std.TempRange[c["temp"]]
        s.travel_distance = c["travel"]
        s.speed = c["travel"] / c["life"]
        s.update_interval = c["update"]
        s.reader_switch_power = c["periodic"]
        s.reader_power_on_duration = c["on"]
        s.reader_power_off_duration = c["off"]
        s.reader_antenna_switching_interval = c["ant_interval"]
        s.reader_always_start_with_first_antenna = c["first_ant"]
        s.read_tid_bank = c["tid"]
        s.tid_word_size = c["words"]
        s.encoding = std.TagEncoding[c["enc"]]
        s.dr = std.DivideRatio[c["dr"]]
        s.sel = std.SelFlag[c["sel"]]
        s.session = std.Session[c["session"]]
        s.trext = c["trext"]
        s.q = c["q"]
        s.q_fp = c["qfp"]
        s.use_query_adjust = c["adjust"]
        s.adjust_delta = c["delta"]
        s.target = std.InventoryFlag[c["target"]]
        s.target_strategy = c["strategy"]
        s.rounds_per_target = c["rpt"]
        s.epc_bitlen = c["epc"]
        s.num_tags = len(p["gaps"])
        s.collect_power_statistics = c["powstat"]
        s.tag_sensitivity = c.get("sens", s.tag_sensitivity)
        s.delim = c.get("delim", s.delim)
        s.s1_persistence, s.s2_persistence, s.s3_persistence = c.get("persist", (2.0, 2.0, 2.0))
        self.configure(s)
        self.sens = float(s.tag_sensitivity)
        gaps = list(p["gaps"])

        def gap():
            k = self.gaps_called
            self.gaps_called += 1
            self.gen_times.append(self.now())
            return gaps[k] if k < len(gaps) else 0.0101
        s.generation_interval = (gap,)
        self.settings = s
        self.pos0 = [float(s.tag_antenna_x), -float(s.initial_distance_to_reader), float(s.tag_antenna_z)]
        first = (float(s.reader_antenna_x), 0.0, float(s.reader_antenna_z))
        kw = {}
        for name, attr in KEYWORDS.items():
            if name in p.get("kw", ()):
                # given as a keyword: what the settings say does not count
                kw[name] = getattr(s, attr)
                setattr(s, attr, decoy(std, attr, kw[name]))
        m = C.create_model(s, **kw)
        self.model = m
        self.reader = m.reader
        for k in range(1, c["antennas"]):
            a = O.Antenna()
            a.pos = np.asarray([5.0 - k, 0.5 * k, 5.0])
            a.direction_theta = np.asarray([0, 0, -1])
            a.gain, a.cable_loss = 6.0, -2.0
            m.reader.attach_antenna(a)
        self.ant_pos = [first] + [(5.0 - k, 0.5 * k, 5.0) for k in range(1, c["antennas"])]
        self.link = air.Link(c["tari"], c["tari"] * c["rtmul"], c["tari"] * c["rtmul"] * c["trmul"], s.delim,
                             c["dr"], c["enc"], c["trext"], c["temp"] == "EXTENDED")
        self.life = c["travel"] / (c["travel"] / c["life"])
        self.dir = [0.0, 1.0, 0.0]
        self.vel = c["travel"] / c["life"]
        self.hook_medium()
        return m

    def now(self):
        tr = getattr(self, "tracer", None)
        return tr.sim.time if tr is not None and tr.sim is not None else 0.0

    def hook_medium(self):
        sc = self
        if self.plan["real_air"]:
            base = self.model.medium

            class RealMedium(type(base)):
                def estimate_tag_rx_power(self, reader, tag, time):
                    v = super().estimate_tag_rx_power(reader, tag, time)
                    sc.estimates[tag] = (time, v)
                    return v

                def estimate_reader_rx_snr(self, reader, tag, tags, time):
                    v = super().estimate_reader_rx_snr(reader, tag, tags, time)
                    sc.last_snr[tag] = v
                    return v

                def estimate_reader_rx_ber(self, reader, tag, tags, snr):
                    v = super().estimate_reader_rx_ber(reader, tag, tags, snr)
                    sc.last_ber[tag] = v
                    return v
            self.model.medium.__class__ = RealMedium
        else:
            class SimMedium(type(self.model.medium)):
                def estimate_tag_rx_power(self, reader, tag, time):
                    if reader.power is None:
                        v = None
                    else:
                        v = sc.tag_power(sc.see(tag), time, reader.antenna_index)
                    sc.estimates[tag] = (time, v)
                    return v

                def estimate_reader_rx_power(self, reader, tag, time):
                    return None if tag.tx_power is None else tag.tx_power - 50.0

                def get_forward_path_loss(self, reader, tag, time):
                    return -60.0

                get_backward_path_loss = get_forward_path_loss

                def estimate_reader_rx_snr(self, reader, tag, tags, time):
                    v = 10.0 + 0.001 * sc.cur.k if sc.cur is not None else 5.0
                    sc.last_snr[tag] = v
                    return v

                def estimate_reader_rx_ber(self, reader, tag, tags, snr):
                    v = 1.0
                    if sc.cur is not None and sc.cur.deliver:
                        v = (sc.cur.k + 1) * 1e-16
                    sc.last_ber[tag] = v
                    return v
            self.model.medium.__class__ = SimMedium
        self.estimates, self.last_snr, self.last_ber = {}, {}, {}

    def see(self, tag):
        to = self.by_obj.get(tag)
        if to is None:
            to = TagObs(len(self.tags), tag, self.now())
            to.ref = self.make_ref(self.sens,
                                dict(zip(("S1", "S2", "S3"), self.plan["cfg"].get("persist", (2.0, 2.0, 2.0)))))
            self.tags.append(to)
            self.by_obj[tag] = to
        return to

    def run(self):
        p = self.plan
        world.reset(p["seed"])
        m = self.build()
        O = self.O
        sc = self

        class TracedModel(type(m)):
            @property
            def transaction(self):
                return self.__dict__.get("_vsim_tr")

            @transaction.setter
            def transaction(self, value):
                self.__dict__["_vsim_tr"] = value
                sc.on_transaction(value)
        m.__dict__.pop("transaction", None)
        m.__class__ = TracedModel
        m.__dict__["_vsim_tr"] = None
        tag_receive, tag_set_power = O.Tag.receive, O.Tag.set_power
        reader_receive = O.Reader.receive

        def receive(tag, frame, *a, **k):
            return sc.on_tag_receive(tag, frame, lambda: tag_receive(tag, frame, *a, **k))

        def set_power(tag, *a, **k):
            return sc.on_set_power(tag, a, k, lambda: tag_set_power(tag, *a, **k))

        def rreceive(reader, frame, *a, **k):
            sc.delivered_now.append(reply_info(frame.reply))
            return reader_receive(reader, frame, *a, **k)
        O.Tag.receive, O.Tag.set_power, O.Reader.receive = receive, set_power, rreceive
        c = p["cfg"]
        total = sum(p["gaps"]) + c["life"]
        # commands last at least the sync and 4 symbols
        shortest = self.link.command("QueryRep", {"session": "S0"})
        self.horizon = total
        cap = int(300 + 6 * total / max(shortest, 4e-5) + 3 * total / c["update"]
                  + 4 * total / max(1e-4, min(c["on"], c["off"])) + 3 * total / max(1e-4, c["ant_interval"])
                  + 10 * len(p["gaps"]))
        limits = p.get("limits") or {}
        kw = {}
        if limits.get("sim") is not None:
            kw["max_sim_time"] = limits["sim"]
        try:
            with models.tracing(lambda: models.Tracer(cap, None, self.after_event, self.on_init)) as T:
                DRAWS.hook = self.on_draw
                if p.get("dice"):
                    DRAWS.dice = world.Dice(*p["dice"])
                from pysim.sim.logger import ModelLoggerConfig
                lc = log_config(p.get("log"), "A") or ModelLoggerConfig()
                self.C.run_model(m, lc, **kw)
        finally:
            O.Tag.receive, O.Tag.set_power, O.Reader.receive = tag_receive, tag_set_power, reader_receive
            DRAWS.hook = None
            if DRAWS.dice is not None:
                self.probe("loaded_draws", DRAWS.dice.n)
            DRAWS.dice = None
        self.end_t = self.tracer.events[-1][0] if self.tracer.events else 0.0
        self.finish()
        return self

    def on_init(self, tr, sim):
        self.tracer = tr

    def on_draw(self, src, value):
        self.draws_now = getattr(self, "draws_now", [])
        self.draws_now.append((src, value))

    # ------------------------------------------------------------ observations ----
    def on_tag_receive(self, tag, frame, orig):
        to = self.see(tag)
        t = self.now()
        if to.left is not None:
            self.bad("R10.heard", "tag %d received a command at %r after leaving at %r" % (to.idx, t, to.left))
        cmd = frame.command
        kind, f = cname(cmd), fields(cmd)
        before = tag.state.name
        sess_before = to.ref.session
        st_before = to.ref.state
        reply = orig()
        if to.dead:
            return reply
        want, err = to.ref.command(kind, f, lambda: (tag.slot_counter, tag.rn))
        got = reply_info(reply.reply) if reply is not None else (None, None)
        self.check_tag(to, kind, f, want, err, got, before)
        ref = to.ref
        if kind == "Query" and ref.state in ("ARBITRATE", "REPLY"):
            to.rounds += 1
            self.probe("tag_round")
        if kind == "QueryAdjust" and st_before in ("ARBITRATE", "REPLY") and f["session"] == sess_before:
            to.qadjusts += 1
            self.probe("tag_qadjust")
        return reply

    def check_tag(self, to, kind, f, want, err, got, before):
        tag, ref = to.obj, to.ref
        who = "tag %d at %r on %s%s (was %s)" % (to.idx, self.now(), kind, short(f), before)

        def bad(rule, msg):
            to.dead = True
            self.bad("R02." + rule, who + ": " + msg)
        if err:
            return bad("draw", err)
        if got[0] != want:
            return bad("reply", "replied %s, expected %s" % (got[0], want))
        if tag.state.name != ref.state:
            return bad("state", "went to %s, expected %s" % (tag.state.name, ref.state))
        if ref.state != "OFF":
            flags = real_flags(tag)
            diff = {s: (flags[s], ref.flags[s]) for s in ref.flags
                    if flags[s] != ref.flags[s] and s not in ref.vague}
            if diff:
                return bad("flag", "session flags (is, expected): %r" % diff)
            if ref.vague:
                for s in ref.vague:
                    ref.flags[s] = flags[s]
                ref.vague.clear()
        if ref.state in ("ARBITRATE", "REPLY") and ref.slot is not None and tag.slot_counter != ref.slot:
            return bad("slot", "slot counter %r, expected %r" % (tag.slot_counter, ref.slot))
        if want == "QueryReply" or want == "ReqRNReply":
            if got[1]["rn"] != tag.rn:
                return bad("rn", "replied RN %r but holds %r" % (got[1]["rn"], tag.rn))
            if to.rns and to.rns[-1] == got[1]["rn"]:
                to.repeat += 1
                if to.repeat >= 2:
                    return bad("fresh", "the same random number %r was sent %d times in a row" % (
                        got[1]["rn"], to.repeat + 1))
            else:
                to.repeat = 0
            to.rns.append(got[1]["rn"])
        if want == "AckReply":
            if got[1]["epc"] != bytes.fromhex(tag.epc):
                return bad("epc", "sent EPC %s, its EPC is %s" % (got[1]["epc"].hex(), tag.epc))
        if want == "ReadReply":
            data = {"TID": tag.tid, "EPC": tag.epc, "USER": tag.user_mem}.get(f["bank"]) or ""
            data = bytes.fromhex(data)[:f["words"] * 2]
            if got[1]["memory"] != data:
                return bad("memory", "sent %d bytes of %s, expected %d" % (len(got[1]["memory"]), f["bank"], len(data)))
            if got[1]["rn"] != ref.rn:
                return bad("handle", "memory reply carries %r instead of its handle %r" % (got[1]["rn"], ref.rn))

    def on_set_power(self, tag, a, k, orig):
        to = self.see(tag)
        t = self.now()
        time = k.get("time", a[0] if a else None)
        power = k.get("power", a[1] if len(a) > 1 else None)
        if to.left is not None:
            self.bad("R10.power", "tag %d was powered at %r after leaving at %r" % (to.idx, t, to.left))
        if time != t:
            self.bad("R03.evaltime", "power of tag %d set for time %r at %r" % (to.idx, time, t))
        est = self.estimates.get(tag)
        if est is None or est[0] != t or est[1] != power:
            self.bad("R03.evalpower", "tag %d was given power %r at %r, the channel says %r" % (
                to.idx, power, t, est))
        # where is the tag at this moment?
        pos = [float(x) for x in tag.pos]
        want = [p0 + self.vel * d * (t - to.born) for p0, d in zip(self.pos0, self.dir)]
        tol = 1e-7 * (1 + abs(self.vel) * (t - to.born))
        if any(abs(x - y) > tol for x, y in zip(pos, want)):
            self.bad("R06.position", "tag %d (created at %r) evaluated at %r when it is at %r, expected %r" % (
                to.idx, to.born, t, pos, want))
        r = orig()
        to.evals += 1
        was = to.ref.powered
        to.last_eval, to.power = t, power
        to.ref.power(t, power)
        if was != to.ref.powered:
            self.probe("tag_power_up" if to.ref.powered else "tag_power_down")
            if not to.ref.powered and self.is_on:
                self.fault("tag_lost_power")
        on = tag.state.name != "OFF"
        if on != to.ref.powered:
            self.bad("R03.energised", "tag %d receives %r at %r (sensitivity %r) and is %s" % (
                to.idx, power, t, to.ref.sens, "powered" if on else "not powered"))
        if on != to.ref.powered or (on and not to.dead and not to.ref.vague and any(
                real_flags(tag)[s] != to.ref.flags[s] for s in to.ref.flags)):
            if not to.dead and on == to.ref.powered:
                self.bad("R02.flag", "tag %d powered at %r: session flags %r, expected %r" % (
                    to.idx, t, real_flags(tag), to.ref.flags))
            to.dead = True
        if on and to.ref.vague:
            fl = real_flags(tag)
            for s in to.ref.vague:
                to.ref.flags[s] = fl[s]
            to.ref.vague.clear()
        return r

    def on_transaction(self, tr):
        t = self.now()
        if self.cur is not None:
            self.settle(t, tr is None)
        if tr is None:
            self.cur = None
            return
        e = Ex()
        e.k = len(self.ex)
        e.t = t
        e.obj = tr
        cmd = tr.command.command
        e.kind, e.f = cname(cmd), fields(cmd)
        e.replies = []
        for tag, frame in tr.replies:
            kind, info = reply_info(frame.reply)
            e.replies.append((self.see(tag), kind, info))
        bits = [air.reply_bits(k, i) for _, k, i in e.replies]
        e.dur, e.reply_dt = self.link.exchange(e.kind, e.f, bits)
        e.q, e.qfp = self.reader.q, self.reader.q_fp
        e.antenna = self.reader.antenna_index
        e.end = None
        e.got = None
        e.aborted = False
        e.gone = None
        e.single = None
        e.deliver = True
        e.evals = False
        if len(e.replies) == 1:
            e.single = self.single
            self.single += 1
            e.deliver = self.fate(e.single)
            if not e.deliver and not self.plan["real_air"]:
                self.fault("reply_lost")
        elif len(e.replies) > 1:
            self.fault("collision")
        if e.kind == "Query":
            self.rounds += 1
        e.round = self.rounds - 1
        rp = getattr(tr, "reply_start_time", None)
        if e.reply_dt is not None and (rp is None or abs(rp - (t + e.reply_dt)) > EPS):
            self.bad("R04.reply", "%s at %r: the reply starts at %r, expected %r" % (e.kind, t, rp, t + e.reply_dt))
        self.ex.append(e)
        self.cur = e
        self.hist.append((round(t, 12), e.kind, sorted(e.f.items(), key=str), [(o.idx, k) for o, k, _ in e.replies]))
        self.reader_step(e)

    # ----------------------------------------------------- lockstep reader (R01) ----
    def settle(self, t, cut):
        """the exchange under way ends now"""
        e = self.cur
        e.end = t
        e.aborted = cut
        if cut:
            self.fault("exchange_cut_by_power_off")
            return
        if abs(t - (e.t + e.dur)) > EPS:
            self.bad("R04.duration", "%s%s at %r with replies %s lasted %r, expected %r" % (
                e.kind, short(e.f), e.t, [k for _, k, _ in e.replies], t - e.t, e.dur))
        if e.reply_dt is not None and e.evals is not True and any(o.left is None and o.born < e.t for o in self.present):
            self.bad("R04.replystart", "no signal level was taken when the reply to %s began at %r" % (
                e.kind, e.t + e.reply_dt))
        if len(e.replies) == 1:
            to, kind, info = e.replies[0]
            ok = e.deliver
            if self.plan["real_air"]:
                u = [v for s, v in self.event_draws() if s == "np.uniform"]
                ber = self.last_ber.get(to.obj)
                if u and ber is not None:
                    ok = u[-1] <= pow(1.0 - ber, air.reply_bits(kind, info))
                else:
                    ok = bool(self.delivered_now)
                if not ok:
                    self.fault("reply_lost")
            if not any(o is to for o in self.present_now()):
                self.fault("tag_left_mid_exchange")
                ok = False
                e.gone = to
            if ok:
                e.got = (to, kind, info)
        if e.got is not None:
            self.record(e)
            if self.on_got is not None:
                self.on_got(e)

    def event_draws(self):
        return getattr(self, "draws_now", [])

    def present_now(self):
        return [self.see(t) for t in self.model.tags]

    def reader_step(self, e):
        """is this the command the protocol calls for after what happened?"""
        c = self.plan["cfg"]
        prev = self.ex[-2] if len(self.ex) > 1 else None
        t = e.t

        def bad(msg):
            self.bad("R01.command", "at %r: %s" % (t, msg))
            self.lost = True
        if getattr(self, "lost", False):
            # give the reference a fresh start with the next round
            if e.kind != "Query":
                return
            self.lost = False
            self.open_round(e)
            return
        if prev is not None and prev.gone is not None and e.kind in ("Ack", "ReqRN", "Read"):
            self.bad("R10.heard", "tag %d left during the exchange begun at %r and was answered with %s at %r" % (
                prev.gone.idx, prev.t, e.kind, t))
        if prev is None or prev.aborted:
            if e.kind != "Query":
                return bad("the reader was turned on and sent %s, expected Query" % e.kind)
            return self.open_round(e)
        # adaptation (R08) decides whether QueryAdjust comes now
        adj = self.adapt(prev)
        if prev.got is not None:
            to, kind, info = prev.got
            if kind == "QueryReply":
                if e.kind != "Ack" or e.f["rn"] != info["rn"]:
                    return bad("RN16 %d was received, expected Ack of it, sent %s%s" % (info["rn"], e.kind, short(e.f)))
                self.acked = info["rn"]
                return
            if kind == "AckReply" and c["tid"] and c["words"] > 0:
                if e.kind != "ReqRN" or e.f["rn"] != self.acked:
                    return bad("EPC was received, expected ReqRN with %d, sent %s%s" % (self.acked, e.kind, short(e.f)))
                return
            if kind == "ReqRNReply":
                if e.kind != "Read" or e.f["rn"] != info["rn"] or e.f["words"] != c["words"] \
                        or e.f["bank"] != "TID" or e.f["ptr"] != 0:
                    return bad("handle %d was received, expected Read of %d TID words with it, sent %s%s" % (
                        info["rn"], c["words"], e.kind, short(e.f)))
                return
        if e.kind == "QueryAdjust":
            if not (c["adjust"] and prev.kind in ("Query", "QueryRep") and prev.got is None):
                return bad("QueryAdjust after %s, which calls for the next slot" % prev.kind)
            if e.f["session"] != c["session"]:
                return bad("QueryAdjust for session %s" % e.f["session"])
            return
        # the next slot
        if self.nslots is None:
            self.nslots = 2 ** self.reader.q
        if self.slot + 1 < self.nslots:
            if e.kind != "QueryRep":
                return bad("slot %d of %d of the round was due, sent %s%s" % (self.slot + 1, self.nslots, e.kind, short(e.f)))
            if e.f["session"] != c["session"]:
                return bad("QueryRep for session %s, the round is in %s" % (e.f["session"], c["session"]))
            self.slot += 1
        else:
            if e.kind != "Query":
                return bad("all %d slots of the round are over, expected a new Query, sent %s" % (self.nslots, e.kind))
            self.open_round(e)

    def open_round(self, e):
        c = self.plan["cfg"]
        self.slot, self.nslots = 0, None
        want = {"dr": c["dr"], "m": c["enc"], "trext": c["trext"], "sel": c["sel"], "session": c["session"],
                "q": self.reader.q}
        diff = {k: (e.f[k], want[k]) for k in want if e.f[k] != want[k]}
        if diff:
            self.bad("R01.query", "Query at %r (sent, configured): %r" % (e.t, diff))
        if e.f["target"] != self.reader.target.name:
            self.bad("R01.query", "Query at %r for target %s, the reader's target is %s" % (
                e.t, e.f["target"], self.reader.target.name))

    # ------------------------------------------------------------ adaptation (R08) ----
    def adapt(self, prev):
        """q after `prev`; -> expected QueryAdjust direction or 0"""
        c = self.plan["cfg"]
        self.q_before = self.q
        self.want_adj = 0
        if not c["adjust"] or prev.kind not in ("Query", "QueryRep") or prev.got is not None:
            return 0
        if len(prev.replies) > 1:
            if self.q < 15:
                self.qfp = min(15, self.qfp + c["delta"])
                new = round(self.qfp)
                if abs(self.q - new) == 1:
                    self.want_adj = new - self.q
                    self.q = new
                    self.probe("q_up" if self.want_adj > 0 else "q_down_on_collision")
        elif self.q > 0:
            self.qfp = max(0, self.qfp - c["delta"])
            new = round(self.qfp)
            if abs(self.q - new) == 1:
                self.want_adj = new - self.q
                self.q = new
                self.probe("q_down")
        return self.want_adj

    def check_adapt(self, e):
        """after the event that sent command e"""
        adj = getattr(self, "want_adj", 0)
        self.want_adj = 0
        prev = self.ex[e.k - 1] if e.k else None
        if prev is None or prev.aborted:
            adj = 0
        if getattr(self, "qlost", False):
            return
        what = "after %s with %d replies (%s) at %r" % (
            prev.kind, len(prev.replies), "received" if prev.got else "not received", e.t) if prev else "at start"
        if e.kind == "QueryAdjust":
            if not adj:
                self.bad("R08.spurious", "%s: QueryAdjust was sent, Q=%r, fractional Q %r" % (what, self.q, self.qfp))
                self.qlost = True
            elif e.f["updn"] != adj:
                self.bad("R08.direction", "%s: QueryAdjust says %+d, Q moved by %+d" % (what, e.f["updn"], adj))
                self.qlost = True
        elif adj:
            self.bad("R08.missing", "%s: no QueryAdjust although Q moved by %+d (fractional Q %r)" % (what, adj, self.qfp))
            self.qlost = True
        if not getattr(self, "qlost", False):
            if self.reader.q != self.q:
                self.bad("R08.q", "%s: reader Q is %r, expected %r" % (what, self.reader.q, self.q))
                self.qlost = True
            elif not 0 <= self.q <= 15:
                self.bad("R08.range", "%s: Q is %r" % (what, self.q))
                self.qlost = True
            elif self.reader.q_fp is not None and abs(self.reader.q_fp - self.qfp) > 1e-9:
                self.bad("R08.step", "%s: fractional Q is %r, expected %r" % (what, self.reader.q_fp, self.qfp))
                self.qlost = True

    # ------------------------------------------------------------ statistics (R05) ----
    def record(self, e):
        to, kind, info = e.got
        if kind == "AckReply":
            self.close_reads()
            rec = {"round": e.round, "antenna": self.reader.antenna_index,
                   "tag_pos": [float(x) for x in to.obj.pos],
                   "ant_pos": self.ant_pos[self.reader.antenna_index],
                   "ber": self.last_ber.get(to.obj), "snr": self.last_snr.get(to.obj), "tid": False, "t": e.end}
            to.reads.append(rec)
            self.open_read = (to, rec)
            self.probe("epc_delivered")
        elif kind == "ReadReply":
            if getattr(self, "open_read", None) and self.open_read[0] is to:
                self.open_read[1]["tid"] = True
            self.probe("tid_delivered")

    def close_reads(self):
        self.open_read = None

    # -------------------------------------------------------------- after an event ----
    def after_event(self, tr, sim, fn, args):
        t = sim.time
        c = self.plan["cfg"]
        m, r = self.model, self.reader
        self.draws_now = []
        self.delivered_now = []
        # arrivals and departures
        cur = m.tags
        if len(cur) != len(self.present) or any(a.obj is not b for a, b in zip(self.present, cur)):
            now = [self.see(x) for x in cur]
            for o in self.present:
                if all(o is not x for x in now):
                    o.left = t
                    self.departed.append(o)
                    self.hist.append((round(t, 12), "left", o.idx))
                    if self.cur is not None and any(x is o for x, _, _ in self.cur.replies):
                        self.probe("left_while_replying")
            for o in now:
                if all(o is not x for x in self.present):
                    if o.left is not None:
                        self.bad("R10.back", "tag %d is back at %r after leaving" % (o.idx, t))
                    o.born = t
                    self.hist.append((round(t, 12), "came", o.idx))
                    if o.last_eval != t:
                        self.bad("R03.arrival", "the power of tag %d was not evaluated on its arrival at %r" % (o.idx, t))
            self.present = now
        # reader power
        on = r.power is not None
        toggled = on != self.is_on
        if toggled:
            self.is_on = on
            self.power_log.append((t, on))
            self.hist.append((round(t, 12), "on" if on else "off"))
            if on:
                self.on_count = 0
                self.since_on = t
                self.switches = 0
                if c["first_ant"]:
                    self.ant = 0
            else:
                self.fault("reader_power_off")
            for o in self.present:
                if o.last_eval != t:
                    self.bad("R03.toggle", "reader turned %s at %r, tag %d was last evaluated at %r" % (
                        "on" if on else "off", t, o.idx, o.last_eval))
            if on and (self.cur is None or self.cur.t != t or self.cur.kind != "Query"):
                self.bad("R03.round", "reader turned on at %r and no round was opened" % t)
        x = self.cur
        if x is not None and x.t == t and not getattr(x.obj, "_vsim_seen", False):
            x.obj._vsim_seen = True
            self.new_command(x)
        # while the reader is off
        if not on:
            if m.transaction is not None:
                self.bad("R03.off", "an exchange is pending at %r while the reader is off" % t)
            for o in self.present:
                if o.obj.state.name != "OFF" or o.obj.power is not None:
                    self.bad("R03.dark", "tag %d is powered at %r while the reader is off" % (o.idx, t))
        elif x is None:
            self.bad("R09.silent", "the reader is on at %r and no command is pending" % t)
        elif t > x.t + x.dur + EPS:
            self.bad("R09.silent", "nothing followed the exchange that ended at %r (now %r)" % (x.t + x.dur, t))
        # how old are the positions?
        lim = c["update"] + 1e-9
        for o in self.present:
            if o.last_eval is None or t - o.last_eval > lim:
                self.bad("R06.stale", "position of tag %d at %r is of %r (update interval %r)" % (
                    o.idx, t, o.last_eval, c["update"]))
        # level taken at the start of the replies
        if x is not None and x.reply_dt is not None and x.evals is not True and x.t < t \
                and abs(t - (x.t + x.reply_dt)) < EPS:
            if all(o.last_eval == t for o in self.present) and t - x.t > 0:
                x.evals = True
        # antennas
        if c["antennas"] > 1:
            self.check_antenna(t, on)
        elif r.antenna_index != 0:
            self.bad("R03.antenna", "antenna %d of 1 at %r" % (r.antenna_index, t))
        # a departed tag has no open record
        for o in self.departed[-2:]:
            if m.statistics.get_tag_record(o.obj) is not None:
                self.bad("R10.record", "tag %d left at %r and still has an open record at %r" % (o.idx, o.left, t))
        if self.stop_check is not None and self.stop_check(t):
            self.stopped_early = True
            sim.stop()

    def new_command(self, e):
        """called once per command, after the event that sent it"""
        c = self.plan["cfg"]
        if e.k == 0:
            self.q, self.qfp = c["q"], c["qfp"]
        self.check_adapt(e)
        if e.kind == "Query":
            self.check_target(e)
        if e.kind in ("Query", "QueryRep", "QueryAdjust"):
            self.close_reads()
        for o in self.present:
            # a tag whose reference was given up is still bound by this
            if (not o.dead and o.ref.state in ("ARBITRATE", "REPLY")) or \
                    o.obj.state.name in ("ARBITRATE", "REPLY"):
                if o.obj.q != self.reader.q:
                    self.bad("R08.step", "at %r tag %d takes part in the round with Q=%r, the reader's Q is %r" % (
                        e.t, o.idx, o.obj.q, self.reader.q))
                elif o.obj.slot_counter >= 2 ** self.reader.q:
                    self.bad("R08.slot", "at %r tag %d waits for slot %r with Q=%r" % (
                        e.t, o.idx, o.obj.slot_counter, self.reader.q))

    # ------------------------------------------------------------------ target (R07) ----
    def check_target(self, e):
        c = self.plan["cfg"]
        n = self.on_count
        self.on_count += 1
        if c["strategy"] == "switch":
            want = "A" if (n // c["rpt"]) % 2 == 0 else "B"
        else:
            want = c["target"]
        if e.f["target"] != want:
            self.bad("R07.target", "round %d since power-on (at %r) has target %s, expected %s (strategy %s, %d rounds each)" % (
                n, e.t, e.f["target"], want, c["strategy"], c["rpt"]))
        self.probe("rounds")

    def check_antenna(self, t, on):
        c = self.plan["cfg"]
        r = self.reader
        n = c["antennas"]
        if on:
            if self.ant_base != self.since_on:
                self.ant_base, self.ant_k, self.ant_at = self.since_on, 0, self.since_on + c["ant_interval"]
            while self.ant_at < t - EPS:
                self.ant_k += 1
                self.ant_at += c["ant_interval"]
            k, at = self.ant_k, self.ant_at
            ok = {(self.ant + k) % n}
            if abs(at - t) <= EPS:
                ok.add((self.ant + k + 1) % n)
            if k:
                self.probes["antenna_switches"] = self.probes.get("antenna_switches", 0) + (k > self.switches)
                self.switches = k
            if r.antenna_index not in ok:
                self.bad("R03.antenna", "antenna %d is in use at %r (on since %r, every %r), expected %s" % (
                    r.antenna_index, t, self.since_on, c["ant_interval"], sorted(ok)))
                self.ant = (r.antenna_index - k) % n
            self.last_ant = r.antenna_index
        else:
            last = getattr(self, "last_ant", 0)
            if r.antenna_index != last:
                self.bad("R03.antenna", "the antenna changed to %d at %r while the reader was off" % (r.antenna_index, t))
                self.last_ant = r.antenna_index
            self.ant = self.last_ant

    on_got = None
    ant = 0
    ant_base = None
    on_count = 0
    since_on = 0.0
    switches = 0
    stopped_early = False
    slot, nslots = 0, None
    acked = None
    q, qfp = 0, 0.0

    # ---------------------------------------------------------------- end of run ----
    def finish(self):
        p, c = self.plan, self.plan["cfg"]
        cut = self.stopped_early or bool((p.get("limits") or {}).get("sim") is not None)
        end = self.end_t
        # R03: the power schedule
        want = [(0.0, True)]
        if c["periodic"]:
            t, on = 0.0, True
            while True:
                t += c["on"] if on else c["off"]
                on = not on
                if t > end + EPS:
                    break
                want.append((t, on))
        got = self.power_log
        for i, (a, w) in enumerate(zip(got, want)):
            if a[1] != w[1] or abs(a[0] - w[0]) > 1e-7:
                self.bad("R03.schedule", "reader power change %d is %s at %r, expected %s at %r" % (
                    i, "on" if a[1] else "off", a[0], "on" if w[1] else "off", w[0]))
                break
        else:
            tail = [w for w in want[len(got):] if w[0] < end - 1e-7]
            if tail:
                self.bad("R03.schedule", "reader was not turned %s at %r" % ("on" if tail[0][1] else "off", tail[0][0]))
            if len(got) > len(want):
                self.bad("R03.schedule", "reader was turned %s at %r" % (
                    "on" if got[len(want)][1] else "off", got[len(want)][0]))
        # R04: back to back
        for a, bx in zip(self.ex, self.ex[1:]):
            if a.aborted:
                if not any(abs(w[0] - bx.t) < 1e-7 and w[1] for w in got):
                    self.bad("R04.gap", "a command at %r follows a cut exchange, but the reader was not turned on then" % bx.t)
                    break
        # R06
        gaps = p["gaps"]
        n = len(gaps)
        if len(self.tags) > n:
            self.bad("R06.count", "%d tags were created, %d configured" % (len(self.tags), n))
        t = 0.0
        births = []
        for g in gaps:
            t += g
            births.append(t)
        for o, bt in zip(self.tags, births):
            if abs(o.born - bt) > 1e-7:
                self.bad("R06.birth", "tag %d was created at %r, expected %r" % (o.idx, o.born, bt))
                break
        for o in self.tags:
            if o.left is not None and abs(o.left - (o.born + self.life)) > 1e-7:
                self.bad("R06.life", "tag %d left at %r, expected %r" % (o.idx, o.left, o.born + self.life))
                break
            if o.left is None and not cut and o.born + self.life < end - 1e-7:
                self.bad("R06.life", "tag %d never left" % o.idx)
                break
        epcs = [str(o.obj.epc).lower() for o in self.tags]
        tids = [str(o.obj.tid).lower() for o in self.tags]
        if len(set(epcs)) != len(epcs):
            self.bad("R06.epc", "two tags have the same EPC")
        if len(set(tids)) != len(tids) and c["words"] >= 2:
            self.bad("R06.tid", "two tags have the same TID")
        if any(len(x) * 4 != c["epc"] for x in epcs):
            self.bad("R06.length", "EPC lengths %s bits, configured %d" % (sorted({len(x) * 4 for x in epcs}), c["epc"]))
        if c["words"] >= 1 and any(len(x) * 4 != c["words"] * 16 for x in tids):
            self.bad("R06.length", "TID lengths %s bits, configured %d" % (
                sorted({len(x) * 4 for x in tids}), c["words"] * 16))
        last = max(births) + self.life
        if not cut:
            if len(self.tags) != n:
                self.bad("R06.count", "%d tags were created, %d configured" % (len(self.tags), n))
            if abs(end - last) > 1e-7:
                self.bad("R06.end", "the run ended at %r, the last tag leaves at %r" % (end, last))
                self.bad("R10.end", "the run ended at %r, the last tag leaves at %r" % (end, last))
            if len(self.departed) != n:
                self.bad("R10.left", "%d of %d tags passed when the run ended" % (len(self.departed), n))
        self.statistics(cut)

    def statistics(self, cut):
        import math
        st = self.model.statistics
        c = self.plan["cfg"]
        h = list(st.tags_history)
        if [self.see(r.tag).idx for r in h] != [o.idx for o in self.departed]:
            self.bad("R05.tags", "the history covers tags %s, tags %s have left" % (
                [self.see(r.tag).idx for r in h], [o.idx for o in self.departed]))
            return
        if st.num_tags_created != len(self.tags):
            self.bad("R05.created", "%d tags counted, %d created" % (st.num_tags_created, len(self.tags)))
        for rec, o in zip(h, self.departed):
            if rec.num_rounds_attained != o.rounds:
                self.bad("R05.rounds", "tag %d: %d rounds recorded, it took part in %d" % (
                    o.idx, rec.num_rounds_attained, o.rounds))
            if rec.num_qadjust_attained != o.qadjusts:
                self.bad("R05.qadjusts", "tag %d: %d Q adjusts recorded, it followed %d" % (
                    o.idx, rec.num_qadjust_attained, o.qadjusts))
            inv = rec.inventory_history
            if len(inv) != len(o.reads):
                self.bad("R05.reads", "tag %d: %d reads recorded, %d EPC replies were delivered (at %s)" % (
                    o.idx, len(inv), len(o.reads), [round(x["t"], 6) for x in o.reads[:5]]))
                continue
            for k, (a, w) in enumerate(zip(inv, o.reads)):
                diff = []
                if a.round_index != w["round"]:
                    diff.append(("round", a.round_index, w["round"]))
                if a.antenna_index != w["antenna"]:
                    diff.append(("antenna", a.antenna_index, w["antenna"]))
                if any(abs(float(x) - y) > 1e-9 for x, y in zip(a.tag_pos, w["tag_pos"])):
                    diff.append(("tag position", [float(x) for x in a.tag_pos], w["tag_pos"]))
                if any(abs(float(x) - y) > 1e-9 for x, y in zip(a.reader_antenna_pos, w["ant_pos"])):
                    diff.append(("antenna position", [float(x) for x in a.reader_antenna_pos], w["ant_pos"]))
                if a.ber != w["ber"]:
                    diff.append(("BER", a.ber, w["ber"]))
                if a.snr != w["snr"]:
                    diff.append(("SNR", a.snr, w["snr"]))
                if bool(a.read_tid) != w["tid"]:
                    diff.append(("TID read", bool(a.read_tid), w["tid"]))
                if diff:
                    self.bad("R05.record", "tag %d, read %d delivered at %r: (what, recorded, true) %r" % (
                        o.idx, k, w["t"], diff))
                    break
        d = self.departed
        if d:
            def close(a, b):
                return abs(float(a) - b) <= 1e-9 * max(1, abs(b))
            inv = sum(1 for o in d if o.reads) / len(d)
            tid = sum(1 for o in d if any(r["tid"] for r in o.reads)) / len(d)
            avg = sum(o.rounds for o in d) / len(d)
            if not close(st.inventory_probability(), inv):
                self.bad("R05.inventory", "inventory probability %r, true %r" % (st.inventory_probability(), inv))
            if not close(st.read_tid_probability(), tid):
                self.bad("R05.tid", "TID probability %r, true %r" % (st.read_tid_probability(), tid))
            if not close(st.average_rounds_per_tag(), avg):
                self.bad("R05.average", "average rounds per tag %r, true %r" % (float(st.average_rounds_per_tag()), avg))
            qa = [int(x) for x in st.average_changing_q()]
            if qa != [o.qadjusts for o in d]:
                self.bad("R05.qtotals", "Q adjusts per tag %r, true %r" % (qa, [o.qadjusts for o in d]))

    def outcome(self, pid):
        v = [x for x in self.viol if x["rule"].startswith(pid + ".")]
        pr = dict(self.probes)
        pr["exchanges"] = len(self.ex)
        for k in ("Ack", "ReqRN", "Read", "QueryAdjust"):
            pr["cmd_" + k] = sum(1 for e in self.ex if e.kind == k)
        if self.plan["real_air"]:
            pr["real_channel_runs"] = 1
        return outcome(v, self.hist, self.end_t, self.faults, pr, self.tracer.n)


def short(f):
    return "(" + ", ".join("%s=%s" % (k, v) for k, v in f.items() if k not in ("crc",)) + ")"


def real_flags(tag):
    out = {}
    for s in ("S0", "S1", "S2", "S3"):
        v = getattr(tag, s.lower())
        out[s] = v.name if v is not None else "A"
    return out


# ==================================================================== plans ====
def ms(rng, a, b):
    return round(rng.uniform(a, b) / 1000, 7)


def gen_scene(rng, i, tier, focus):
    tari = rng.choice([6.25e-6, 6.25e-6, 12.5e-6, 18.75e-6, 25e-6])
    while True:
        rtmul = rng.choice([3.0, 2.5, 2.75])
        trmul = rng.choice([2.5, 1.1, 1.5, 2.0, 3.0])
        dr = rng.choice(["DR_8", "DR_8", "DR_643"])
        ext = rng.random() < 0.3
        trcal = tari * rtmul * trmul
        if not air.Link.vague(trcal, dr, ext):
            break
    life = ms(rng, 15, 180)
    nt = rng.choice([1, 1, 2, 3, 4, 6, 8])
    style = rng.random()
    if style < 0.4:
        gaps = [ms(rng, 2, 40) for _ in range(nt)]
    elif style < 0.7:
        gaps = [ms(rng, 0.3, 6) for _ in range(nt)]        # crowd: collisions
    elif style < 0.85:
        g = ms(rng, 1, 20)
        gaps = [g] * nt
    else:
        gaps = [ms(rng, 5, 80)] + [rng.choice([0.0, 1e-5, 1e-4])] * (nt - 1)   # all at once
    adjust = rng.random() < 0.5
    q = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7])
    c = {"tari": tari, "rtmul": rtmul, "trmul": trmul, "temp": "EXTENDED" if ext else "NOMINAL",
         "travel": rng.choice([20.0, 5.0, 33.3]), "life": life, "update": ms(rng, 0.5, 12),
         "periodic": rng.random() < 0.8, "on": ms(rng, 4, 90), "off": ms(rng, 0.3, 25),
         "ant_interval": ms(rng, 2, 40), "first_ant": rng.random() < 0.5,
         "antennas": rng.choice([1, 1, 1, 2, 3]), "tid": rng.random() < 0.7, "words": rng.choice([1, 2, 4, 8, 8, 16, 64]),
         "enc": rng.choice(["FM0", "M2", "M2", "M4", "M8"]), "dr": dr,
         "sel": rng.choice(["ALL", "ALL", "ALL", "NOT_SEL", "NOT_SEL", "SEL"]) if rng.random() < 0.5 else "ALL",
         "session": rng.choice(["S0", "S1", "S2", "S3"]), "trext": rng.random() < 0.5, "q": q,
         "qfp": float(q) if rng.random() < 0.7 else rng.choice([5, 0.4, 3.6, 14.9]),
         "adjust": adjust, "delta": rng.choice([0.1, 0.2, 0.35, 0.5, 0.5, 1.0]),
         "target": rng.choice(["A", "B"]), "strategy": rng.choice(["switch", "switch", "const"]),
         "rpt": rng.choice([1, 1, 2, 3, 5]), "epc": rng.choice([96, 96, 64, 128, 32]),
         "powstat": rng.random() < 0.08,
         "persist": [2.0, 2.0, 2.0] if rng.random() < 0.5 else
                    [rng.choice([2.0, 0.002, 0.01, 0.03, 0.1, 0.5, 5.0]) for _ in range(3)]}
    if c["antennas"] > 1 and rng.random() < 0.2:
        c["ant_interval"] = ms(rng, 0.05, 2)
    if rng.random() < 0.15:
        # short power periods cut exchanges
        c["on"] = ms(rng, 0.4, 6)
        c["off"] = ms(rng, 0.05, 4)
    if rng.random() < 0.05:
        # off for longer than the sessions persist
        c["life"], c["off"], c["on"], c["update"] = 4.0, 2.1, 0.06, 0.05
        gaps = gaps[:3]
        c["periodic"] = True
    elif rng.random() < 0.05:
        c["life"], c["off"], c["on"], c["update"] = 3.4, rng.choice([1.9, 1.99]), 0.05, 0.05
        gaps = gaps[:3]
        c["periodic"] = True
    # Q grows under collisions: crowd a small Q
    total = sum(gaps) + c["life"]
    fades = []
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 2, 4, 8])):
            a = rng.uniform(0, total)
            fades.append([rng.choice([-1] + list(range(len(gaps)))), round(a, 6),
                          round(a + rng.choice([0.001, 0.005, 0.02, 0.06]) * rng.random() * 2, 6)])
    fates = gen_fates(rng)
    p = {"cfg": c, "gaps": gaps, "fades": fades, "fates": fates, "power": -10.0, "weak": rng.choice([-40.0, -18.5]),
         "seed": rng.randrange(1 << 30), "real_air": False, "limits": {}, "log": None}
    if rng.random() < 0.15 and c["antennas"] > 1:
        p["dead_antenna"] = rng.randrange(c["antennas"])
    if rng.random() < 0.06:
        p["limits"] = {"sim": round(rng.uniform(0, total * 1.1), 5)}
    if rng.random() < 0.06:
        p["log"] = {"level": 10}
    if rng.random() < 0.08:
        p["real_air"] = True
        p["fades"], p["dead_antenna"] = [], None
        c["travel"] = 20.0
    if rng.random() < 0.25:
        p["kw"] = [k for k in KEYWORDS if rng.random() < 0.4]
    if rng.random() < 0.3:
        # rare draws: random numbers at the ends of their range, crowded and last slots
        p["dice"] = [rng.randrange(1 << 30), rng.choice([0.05, 0.3]), rng.choice([0, 0.2, 0.6])]
    if rng.random() < 0.3:
        # -10: just what the tags receive; -18.5: just what is left in a fade
        c["sens"] = rng.choice([-12.0, -10.5, -10.0, -17.0, -18.5, -24.0])
    if rng.random() < 0.3:
        c["delim"] = rng.choice([12.5e-6 * 0.95, 12e-6, 13e-6])
    return p


def gen_fates(rng):
    kind = rng.choice(["none", "iid", "iid", "burst", "every", "start", "all"])
    if kind == "none":
        return []
    m = rng.choice([10, 60, 200])
    if kind == "iid":
        q = rng.choice([0.5, 0.8, 0.95, rng.random()])
        return [int(rng.random() < q) for _ in range(m)]
    if kind == "burst":
        f, b = [], rng.randrange(2)
        while len(f) < m:
            f += [b] * rng.randint(1, 8)
            b ^= 1
        return f[:m]
    if kind == "every":
        k = rng.randint(2, 5)
        o = rng.randrange(k)
        return [int(j % k != o) for j in range(m)]
    if kind == "start":
        return [0] * rng.randint(1, 12)
    return [0] * m


class _Rfid:
    shrink_keys = ["gaps", "fades", "fates", "limits"]
    components = {"real": ["pysim.models.rfid.objects (reader, tags, generator, statistics, transactions)",
                           "pysim.models.rfid.handlers", "pysim.models.rfid.configurator", "pysim.models.rfid.epcstd",
                           "pysim.sim.simulator", "pysim.sim.logger", "numpy random draws",
                           "pysim.models.rfid.channel in the real-channel runs"],
                  "simulated": ["clocks", "console", "entropy", "received power at the tags and reception of replies "
                                "(scripted channel, except in real-channel runs)", "tag arrival intervals"],
                  "stubbed": ["path loss, SNR and BER formulas in scripted-channel runs"]}
    technique = ("deterministic simulation with fault injection: seeded runs of the real model over a scripted radio "
                 "channel (losses, collisions, fades, power cuts, departures) against lockstep references")
    quick, thorough = 2500, 150000

    def gen(self, rng, i, tier):
        p = gen_scene(rng, i, tier, self.id)
        self.tune(rng, p)
        return p

    def tune(self, rng, p):
        pass

    def execute(self, plan):
        return Scene(plan, self.id).run().outcome(self.id)


RULE = ("RFID runs with random protocol, timing, power-cycle, antenna and arrival parameters over a scripted channel "
        "with reply losses, collisions, fades, power cuts and departures; %s; non-trivial when at least 2 events ran; "
        "distinct by digest of the complete air history")


class R01(_Rfid):
    id = "R01"
    rule = RULE % "every command compared with a lockstep reference of the reader"

    def tune(self, rng, p):
        if rng.random() < 0.012:
            # rounds of thousands of slots, played to their end
            c = p["cfg"]
            c["q"] = rng.choice([8, 9, 10, 11, 12])
            c["qfp"], c["adjust"], c["delta"] = float(c["q"]), rng.random() < 0.5, rng.choice([1e-4, 1e-3])
            c["tari"], c["enc"], c["trext"], c["rtmul"], c["trmul"] = 6.25e-6, "FM0", False, 2.5, 1.1
            c["dr"], c["temp"] = "DR_643", "NOMINAL"
            c["on"], c["off"], c["periodic"] = 30.0, 0.01, rng.random() < 0.5
            c["life"], c["update"], c["powstat"] = round(rng.uniform(0.3, 0.5) * 2 ** (c["q"] - 10), 4), 0.05, False
            c["ant_interval"] = 0.2
            p["gaps"], p["fades"], p["limits"], p["log"] = p["gaps"][:3], [], {}, None


class R03(_Rfid):
    id = "R03"
    rule = RULE % "power schedule, energising and antenna schedule checked after every event"

    def tune(self, rng, p):
        c = p["cfg"]
        if rng.random() < 0.4:
            c["antennas"] = rng.choice([2, 3, 4])


class R04(_Rfid):
    id = "R04"
    rule = RULE % "start, duration and reply start of every exchange compared with independent air times"


class R05(_Rfid):
    id = "R05"
    rule = RULE % "the final statistics compared with the deliveries observed on the air"


class R06(_Rfid):
    id = "R06"
    rule = RULE % "arrival, lifetime, identity and position of every tag checked at every power evaluation"

    def tune(self, rng, p):
        if rng.random() < 0.1:
            p["gaps"] = [round(rng.uniform(1e-5, 2e-3), 7) for _ in range(rng.choice([17, 20, 40]))]
            p["cfg"]["life"] = ms(rng, 5, 20)
        if rng.random() < 0.03:
            p["gaps"] = [1e-5] * rng.choice([257, 300])
            p["cfg"]["life"] = ms(rng, 3, 5)
            p["cfg"]["words"] = rng.choice([2, 4])


class R07(_Rfid):
    id = "R07"
    rule = RULE % "the target of every round compared with the schedule since power-on"

    def tune(self, rng, p):
        c = p["cfg"]
        c["q"] = rng.choice([0, 0, 1, 1, 2])
        c["qfp"] = float(c["q"])
        c["rpt"] = rng.choice([1, 2, 3, 4, 5, 7])
        c["strategy"] = rng.choice(["switch"] * 4 + ["const"])
        if rng.random() < 0.6:
            p["gaps"] = p["gaps"][:2]


class R08(_Rfid):
    id = "R08"
    rule = RULE % "Q, fractional Q, QueryAdjust and every participant's Q and slot checked after every command"

    def tune(self, rng, p):
        c = p["cfg"]
        c["adjust"] = rng.random() < 0.85
        c["delta"] = rng.choice([0.1, 0.25, 0.3, 0.5, 0.5, 0.7, 1.0])
        r = rng.random()
        if r < 0.45:
            c["q"] = rng.choice([0, 0, 1, 2])
            c["qfp"] = float(c["q"])
            p["gaps"] = [p["gaps"][0]] + [1e-4] * rng.choice([3, 6, 10])
        elif r < 0.55:
            c["q"], c["qfp"] = rng.choice([(15, 15.0), (14, 14.0), (13, 13.4), (15, 14.6)])
            if rng.random() < 0.6:             # with collisions even so
                p["dice"] = [rng.randrange(1 << 30), 0.05, rng.choice([0.5, 0.9])]
                p["gaps"] = [p["gaps"][0]] + [1e-5] * rng.choice([3, 9])
        elif r < 0.62:
            # everybody answers at once: Q climbs to its ceiling
            c["q"], c["qfp"] = rng.choice([(14, 14.4), (13, 13.0), (0, 0.0)])
            p["gaps"] = [p["gaps"][0]] + [1e-5] * 10


class R10(_Rfid):
    id = "R10"
    rule = RULE % "no abort, end of the run, nothing refers to a departed tag"
    quick, thorough = 2000, 200000

    def tune(self, rng, p):
        c = p["cfg"]
        if rng.random() < 0.7:
            c["life"] = ms(rng, 1.5, 25)
            p["gaps"] = [ms(rng, 0.2, 8) for _ in range(rng.choice([3, 6, 12]))]
        if rng.random() < 0.3 and c["life"] < 1.0:      # (seconds of this would be far too many events)
            c["on"], c["off"] = ms(rng, 0.1, 4), ms(rng, 0.05, 2)
            c["periodic"] = True
        p["limits"] = {}
        if rng.random() < 0.15:
            c["powstat"] = True


CHECKS = [R01(), R03(), R04(), R05(), R06(), R07(), R08(), R10()]
