"""R11..R13: what a user of an RFID run observes besides the summary -
collected power records (R11), the reader's listeners (R12) and the link
budget behind every signal level (R13)."""
import cmath, math
import numpy as np
from .world import Rng
from .kern import outcome
from .rfid import Scene, gen_scene, _Rfid, RULE, ms
from . import air

NO_POWER = -120.0


# ---------------------------------------------------------------- link budget ----
def unit(v):
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def dipole(cos):
    if cos <= 1e-9:
        return 0.0
    return abs(math.cos(math.pi / 2 * math.sqrt(max(0.0, 1 - cos * cos))) / cos)


def mirror(cos, pol, eps, sigma, lam, kind):
    if kind == "const":
        return -1.0 + 0j
    eta = eps - 60j * lam * sigma
    sin = cmath.sqrt(1 - cos * cos)
    root = cmath.sqrt(eta - cos * cos)
    r = 0j
    if pol != 0:
        r += pol * (sin - root) / (sin + root)
    if pol != 1:
        r += (1 - pol) * (sin - root / eta) / (sin + root / eta)
    return r


def path_gain(tx, tx_dir, tx_vel, rx, rx_dir, rx_vel, t, radio, pol):
    """two-ray gain (linear) from tx to rx beside a wall in the YOZ plane"""
    lam = 2.99792458e8 / radio["frequency"]
    k = 2 * math.pi / lam
    image = [-rx[0], rx[1], rx[2]]
    a = [y - x for x, y in zip(tx, rx)]
    c = [y - x for x, y in zip(tx, image)]
    d0, d1 = math.sqrt(dot(a, a)), math.sqrt(dot(c, c))
    a, c = [x / d0 for x in a], [x / d1 for x in c]
    back = [-c[0], -c[1], c[2]]
    txd, rxd = unit(tx_dir), unit(rx_dir)
    g0 = dipole(dot(a, txd)) * dipole(-dot(a, rxd))
    g1 = dipole(dot(c, txd)) * dipole(-dot(back, rxd))
    v = [y - x for x, y in zip(tx_vel, rx_vel)]
    if not radio["use_doppler"]:
        t = 0.0
    r = mirror(-back[0], pol, radio["permittivity"], radio["conductivity"], lam, radio["ground_reflection_type"])
    h = 0.5 / k * (g0 / d0 * cmath.exp(-1j * k * (d0 - t * dot(a, v)))
                   + r * g1 / d1 * cmath.exp(-1j * k * (d1 - t * dot(c, v))))
    return abs(h) ** 2


def ber_of(snr, distr):
    if snr < 1e-8:
        return 0.5
    if distr == "rayleigh":
        t = math.sqrt(1 + 2 / snr)
        return 0.5 - 1 / t + 2 / math.pi * math.atan(t) / t
    q = 0.5 - 0.5 * math.erf(math.sqrt(snr) / math.sqrt(2))
    return 2 * q * (1 - q)


RADIO = {"frequency": 860e6, "permittivity": 15.0, "conductivity": 0.03, "polarization_loss": -3.0,
         "use_doppler": True, "ground_reflection_type": "reflection", "ber_distribution": "rayleigh",
         "reader_power": 31.5, "reader_antenna_gain": 6.0, "reader_cable_loss": -2.0, "tag_antenna_gain": 3.0,
         "tag_modulation_loss": -12.0, "tag_sensitivity": -18.0, "reader_noise": -80.0,
         "reader_antenna_x": 5.0, "reader_antenna_z": 5.0, "tag_antenna_x": 5.0, "tag_antenna_z": 0.5,
         "initial_distance_to_reader": 10.0}


class PowerRef(air.RefTag):
    """the level a tag holds: the last one it was given while powered"""
    level = None

    def power(self, t, p):
        r = super().power(t, p)
        self.level = p if self.powered else None
        return r


class BudgetScene(Scene):
    """R13: the real channel, checked against an independent link budget at
    every evaluation the run makes."""
    make_ref = PowerRef

    def configure(self, s):
        self.radio = dict(RADIO, **self.plan.get("radio", {}))
        for k, v in self.radio.items():
            if not hasattr(s, k):
                raise RuntimeError("no setting %s" % k)
            setattr(s, k, v)
        for k in ("reader_antenna_direction", "tag_antenna_direction"):
            if k in self.plan:
                setattr(s, k, np.asarray(self.plan[k], dtype=float))
        self.calls = {}

    def placed(self, tag, t):
        to = self.see(tag)
        return [p + self.vel * d * (t - to.born) for p, d in zip(self.pos0, self.dir)]

    def on_for(self, t):
        return t - (self.since_on if self.is_on else self.now())

    def level(self, tag, t, forward):
        """-> (expected dB gain or None when below the floor, exact linear)"""
        a = self.reader.antenna
        ai = self.reader.antenna_index
        rpos, rdir = self.ant_pos[ai], [float(x) for x in (self.s_dir if ai == 0 else (0, 0, -1))]
        # between evaluations a tag is where its last evaluation saw it (R06)
        tpos, tdir = self.placed(tag, t if forward else self.see(tag).last_eval), [float(x) for x in self.t_dir]
        vel = [self.vel * d for d in self.dir]
        still = [0.0] * 3
        if forward:
            return path_gain(rpos, rdir, still, tpos, tdir, vel, self.on_for(t), self.radio, 0.5)
        return path_gain(tpos, tdir, vel, rpos, rdir, still, self.on_for(t), self.radio, 1.0)

    def build(self):
        m = super().build()
        s = self.settings
        self.s_dir, self.t_dir = list(s.reader_antenna_direction), list(s.tag_antenna_direction)
        self.gain = [(float(self.reader.get_antenna(i).gain), float(self.reader.get_antenna(i).cable_loss))
                     for i in range(self.plan["cfg"]["antennas"])]
        g, l = self.gain[0]
        if g != self.radio["reader_antenna_gain"] or l != self.radio["reader_cable_loss"]:
            self.bad("R13.config", "reader antenna has gain %r, loss %r, configured %r, %r" % (
                g, l, self.radio["reader_antenna_gain"], self.radio["reader_cable_loss"]))
        base = type(m.medium)
        sc = self

        class Watched(base):
            def estimate_tag_rx_power(self, reader, tag, time):
                v = super().estimate_tag_rx_power(reader, tag, time)
                sc.judge("received by", tag, time, v, True)
                return v

            def estimate_reader_rx_power(self, reader, tag, time):
                v = super().estimate_reader_rx_power(reader, tag, time)
                sc.judge("received from", tag, time, v, False)
                return v

            def estimate_reader_rx_snr(self, reader, tag, tags, time):
                v = super().estimate_reader_rx_snr(reader, tag, tags, time)
                sc.judge_snr(tag, time, v)
                return v

            def estimate_reader_rx_ber(self, reader, tag, tags, snr):
                v = super().estimate_reader_rx_ber(reader, tag, tags, snr)
                w = ber_of(float(snr), sc.radio["ber_distribution"])
                if not abs(float(v) - w) <= 1e-9 + 1e-6 * w:
                    sc.bad("R13.ber", "at %r a bit error rate %r is taken for SNR %r (%s), expected %r" % (
                        sc.now(), v, snr, sc.radio["ber_distribution"], w))
                sc.probe("ber")
                return v
        m.medium.__class__ = Watched
        return m

    def total(self, tag, t, forward):
        """-> (dBm, linear path gain)"""
        h = self.level(tag, t, forward)
        r = self.radio
        g, l = self.gain[self.reader.antenna_index]
        db = (10 * math.log10(h) if h > 0 else -math.inf) + r["polarization_loss"] + g + l + r["tag_antenna_gain"]
        if forward:
            return db + r["reader_power"], h
        return db + self.see(tag).ref.level + r["tag_modulation_loss"], h

    def agrees(self, got, want, h):
        if h < 1e-13:
            # near the floor of the channel model only the order is settled
            return got < want + 3 or h < 1.1e-15 and got == -math.inf
        return abs(got - want) <= 1e-5

    def judge(self, what, tag, time, v, forward):
        t = self.now()
        to = self.see(tag)
        dark = self.reader.power is None if forward else (to.ref.level is None)
        if not forward and to.last_eval is None:
            return
        if time != t:
            self.bad("R13.when", "at %r the power %s tag %d is taken for %r" % (t, what, to.idx, time))
            return
        if dark or v is None:
            if (v is None) != bool(dark):
                self.bad("R13.dark", "at %r the power %s tag %d is %r, the sender is %s" % (
                    t, what, to.idx, v, "off" if dark else "on"))
            return
        want, h = self.total(tag, t, forward)
        self.probe("levels")
        if not self.agrees(float(v), want, h):
            self.bad("R13.level" if forward else "R13.reply",
                     "at %r the power %s tag %d (now at %r, antenna %d, reader on for %r s) is %r dBm, expected %r" % (
                         t, what, to.idx, [round(float(x), 6) for x in self.placed(tag, t)], self.reader.antenna_index,
                         float(self.on_for(t)), float(v), float(want)))

    def judge_snr(self, tag, time, v):
        if self.cur is None or all(o.obj is not tag for o, _, _ in self.cur.replies):
            return
        to = self.see(tag)
        if to.ref.level is None or time != self.now():
            return
        want, h = self.total(tag, self.now(), False)
        if h < 1e-13:
            return
        c = self.plan["cfg"]
        raw = 10 ** ((want - self.radio["reader_noise"]) / 10)
        # the synchronisation term takes the standard preamble of the encoding
        pre = {"FM0": 6 * 1, "M2": 10 * 2, "M4": 10 * 4, "M8": 10 * 8}[c["enc"]] / self.link.blf
        if raw < 1e-8:
            w = 0.5
        else:
            w = {"FM0": 1, "M2": 2, "M4": 4, "M8": 8}[c["enc"]] * raw / self.link.blf * 1.2e6 * \
                math.cos((raw * pre * 1.2e6) ** -0.5) ** 2
        self.probe("snr")
        if not abs(float(v) - w) <= 1e-4 * abs(w) + 1e-12:
            # where the synchronisation term turns over, tiny angles decide
            ang = (raw * pre * 1.2e6) ** -0.5
            if ang > 1e3 or abs(math.cos(ang)) < 1e-3:
                return
            self.bad("R13.snr", "at %r the reply of tag %d (%r dBm, noise %r dBm) has SNR %r, expected %r" % (
                self.now(), to.idx, want, self.radio["reader_noise"], float(v), w))


# -------------------------------------------------------------- power records ----
class PowerScene(Scene):
    """R11: with collection on, one exact record per evaluation."""
    make_ref = PowerRef

    def on_set_power(self, tag, a, k, orig):
        r = super().on_set_power(tag, a, k, orig)
        to = self.see(tag)
        t = self.now()
        rd, md = self.reader, self.model.medium
        on = rd.power is not None
        ai = rd.antenna_index
        snr = self.quiet(md.estimate_reader_rx_snr, rd, tag, [tag], t)
        to.__dict__.setdefault("log", []).append({
            "time": t, "field_lifetime": (t - (self.since_on if self.is_on else t)) if on else math.inf,
            "tag_pos": [float(x) for x in tag.pos], "reader_antenna_index": ai,
            "reader_antenna_pos": list(self.ant_pos[ai]),
            "tag_rx_power": NO_POWER if to.ref.level is None else float(to.ref.level),
            "tag_tx_power": NO_POWER if to.ref.level is None else float(to.ref.level) + float(tag.modulation_loss),
            "reader_rx_power": low(self.quiet(md.estimate_reader_rx_power, rd, tag, t)),
            "reader_tx_power": float(rd.max_power) if on else NO_POWER,
            "snr": float(snr), "ber": float(self.quiet(md.estimate_reader_rx_ber, rd, tag, [tag], snr)),
            "reader_tag_pl": float(self.quiet(md.get_forward_path_loss, rd, tag, t)),
            "tag_reader_pl": float(self.quiet(md.get_backward_path_loss, rd, tag, t))})
        return r

    def quiet(self, fn, *a):
        keep = [dict(d) for d in (self.estimates, self.last_snr, self.last_ber)]
        try:
            return fn(*a)
        finally:
            for d, k in zip((self.estimates, self.last_snr, self.last_ber), keep):
                d.clear()
                d.update(k)

    def statistics(self, cut):
        super().statistics(cut)
        c = self.plan["cfg"]
        st = self.model.statistics
        recs = [(self.see(r.tag), r) for r in st.tags_history]
        recs += [(o, st.get_tag_record(o.obj)) for o in self.present]
        for o, r in recs:
            if r is None:
                continue
            got = r.power_mapping
            want = getattr(o, "log", []) if c["powstat"] else []
            if len(got) != len(want):
                n = next((i for i, (g, w) in enumerate(zip(got, want)) if abs(g.time - w["time"]) > 1e-12), min(len(got), len(want)))
                self.bad("R11.count", "tag %d has %d power records, its power was evaluated %d times%s (first difference "
                         "at record %d)" % (o.idx, len(got), len(want), "" if c["powstat"] else " with collection off", n))
                continue
            for i, (g, w) in enumerate(zip(got, want)):
                diff = []
                for k, v in w.items():
                    x = getattr(g, k)
                    if isinstance(v, list):
                        ok = x is not None and len(x) == 3 and all(abs(float(p) - q) <= 1e-9 for p, q in zip(x, v))
                        x = [float(p) for p in x] if x is not None else x
                    else:
                        ok = x is not None and (float(x) == v or math.isfinite(v) and
                                                abs(float(x) - v) <= 1e-9 * max(1.0, abs(v)))
                    if not ok:
                        diff.append((k, x, v))
                if diff:
                    self.bad("R11.record", "tag %d, power record %d of the evaluation at %r: (what, recorded, true) %r" % (
                        o.idx, i, w["time"], diff))
                    break
            self.probe("power_records", len(got))
        try:
            txt = st.to_long_string()
        except Exception as e:
            self.bad("R11.text", "the collected statistics cannot be printed: %s: %s" % (type(e).__name__, e))
        else:
            n = sum(len(r.power_mapping) for r in st.tags_history)
            if txt.count("t_on=") != n:
                self.bad("R11.text", "the printed statistics show %d of %d power records" % (txt.count("t_on="), n))


def low(x):
    return NO_POWER if x is None else float(x)


# ------------------------------------------------------------------- listeners ----
STATE_OF = {"Query": "QUERY", "QueryRep": "QREP", "QueryAdjust": "QADJUST", "Ack": "ACK", "ReqRN": "REQRN", "Read": "READ"}


class ListenScene(Scene):
    """R12: listeners on the reader."""

    def build(self):
        m = super().build()
        r = m.reader
        self.notes = []
        self.o_on, self.o_state = False, "OFF"
        self.o_round = self.o_slot = None
        self.o_next, self.o_slots = 0, 0
        self.late = None
        self.late_calls = self.late_due = 0
        self.once_calls = []
        self.once_added = 0
        self.rngl = Rng(self.plan["lseed"])
        note = self.note
        r.power_on_listeners.add(lambda **k: note("power_on", (), k), mark=1)
        r.power_off_listeners.add(lambda **k: note("power_off", (), k), mark=2)
        r.round_start_listeners.add(lambda *a, **k: note("round_start", a, k), mark=3)
        r.round_finish_listeners.add(lambda *a, **k: note("round_finish", a, k), mark=4)
        r.slot_start_listeners.add(lambda *a, **k: note("slot_start", a, k), mark=5)
        r.slot_finish_listeners.add(lambda *a, **k: note("slot_finish", a, k), mark=6)
        r.state_change_listeners.add(lambda *a, **k: note("state", a, k), mark=7)
        self.due = {k: 0 for k in self.MARK}
        self.crowd = []
        if self.rngl.random() < 0.4:
            # a crowd of listeners on one list, which come, go and take each other off
            self.crowd_on = self.rngl.choice(["slot_finish", "slot_start", "round_start", "round_finish", "state",
                                              "power_on", "power_off"])
            for _ in range(self.rngl.choice([2, 5, 9, 14])):
                self.join()
        self.add_late()
        return m

    def listeners(self, kind):
        return getattr(self.model.reader, {"state": "state_change"}.get(kind, kind) + "_listeners")

    def join(self, inside=False):
        b = {"n": 0, "base": None if inside else self.due[self.crowd_on], "on": True, "tag": len(self.crowd), "fresh": inside,
             "odd": None}
        one = self.rngl.random() < 0.1

        def hear(*a, **k):
            b["n"] += 1
            if k != {"who": b["tag"]}:
                b["odd"] = k
            r = self.rngl.random()
            if r < 0.02 or one and r < 0.1:
                self.leave(self.rngl.choice(self.crowd))
            elif r < 0.04 and len(self.crowd) < 40:
                self.join(True)
        b["id"] = self.listeners(self.crowd_on).add(hear, who=b["tag"])
        self.crowd.append(b)

    def leave(self, b):
        if not b["on"] and self.rngl.random() < 0.3:
            self.listeners(self.crowd_on).remove(b["id"])          # a second removal does nothing
        if b["on"]:
            self.listeners(self.crowd_on).remove(b["id"])
            b["on"], b["fresh"] = False, True

    def judge_crowd(self, t):
        due = self.due[self.crowd_on]
        for b in self.crowd:
            if b["odd"] is not None:
                self.bad("R12.args", "a %s listener registered with who=%d was called with %r" % (self.crowd_on, b["tag"], b["odd"]))
                b["odd"] = None
            if b["fresh"]:                   # came or went during a call: that call may count or not
                b["fresh"], b["base"], b["n"] = False, due, 0
                continue
            want = due - b["base"] if b["on"] else 0
            if b["n"] != want:
                self.bad("R12.crowd" if b["on"] else "R12.removed", "by %r listener %d of the %d on %s was called %d times, "
                         "there were %d calls since it was %s" % (t, b["tag"], sum(x["on"] for x in self.crowd), self.crowd_on,
                                                                  b["n"], due - b["base"], "added" if b["on"] else "removed"))
                b["n"] = want
        r = self.rngl.random()
        if r < 0.03:
            self.leave(self.rngl.choice(self.crowd))
            for b in self.crowd:
                if not b["on"] and b["fresh"]:
                    b["fresh"], b["base"], b["n"] = False, due, 0
        elif r < 0.06 and len(self.crowd) < 40:
            self.join()

    MARK = {"power_on": 1, "power_off": 2, "round_start": 3, "round_finish": 4, "slot_start": 5, "slot_finish": 6, "state": 7}

    def add_late(self):
        """a listener of finished slots that is behind all others"""
        r = self.model.reader
        if self.late is not None:
            r.slot_finish_listeners.remove(self.late)

        def hear(*a, **k):
            self.late_calls += 1
        self.late = r.slot_finish_listeners.add(hear)

    def add_once(self):
        """a listener that takes itself off when it is called"""
        which = self.rngl.choice(["slot_finish", "slot_start", "round_start", "round_finish", "state_change"])
        ls = getattr(self.model.reader, which + "_listeners")
        box = {"n": 0, "on": which, "t": self.now()}

        def hear(*a, **k):
            box["n"] += 1
            ls.remove(box["id"])
        box["id"] = ls.add(hear, mark=8)
        self.once_calls.append(box)

    def note(self, kind, a, k):
        t = self.now()
        if k.get("mark") != self.MARK[kind]:
            self.bad("R12.args", "the %s listener was called with %r, registered with mark=%d" % (kind, k, self.MARK[kind]))
        if kind == "state":
            a = tuple(getattr(x, "name", str(x)).upper() for x in a)
            if a and a[1] == "REQRN":
                self.add_late()
        self.notes.append((kind, a))
        self.due[kind] += 1
        if kind == "slot_finish":
            self.late_due += 1
        self.probe("notes")

    def after_event(self, tr, sim, fn, args):
        was_on, rounds = self.is_on, self.rounds
        k0 = getattr(self, "k_seen", 0)
        super().after_event(tr, sim, fn, args)
        t = sim.time
        notes, self.notes = self.notes, []
        sent = self.ex[k0:]
        self.k_seen = len(self.ex)
        self.hist.append(("notes", round(t, 12), notes)) if notes else None
        for kind, a in notes:
            self.step(t, kind, a)
        names = [k for k, _ in notes]
        # what this event did, and who was told
        toggles = [k for k in names if k.startswith("power")]
        want = [] if was_on == self.is_on else ["power_on" if self.is_on else "power_off"]
        if toggles != want:
            self.bad("R12.power", "at %r the reader %s, its listeners heard %r" % (
                t, "turned " + want[0][6:] if want else "kept its power", toggles))
        rs = names.count("round_start")
        ss = names.count("slot_start")
        q = sum(1 for e in sent if e.kind == "Query")
        s = sum(1 for e in sent if e.kind in ("Query", "QueryRep"))
        if rs != q:
            self.bad("R12.round", "at %r %d rounds were announced, %d Query commands were sent" % (t, rs, q))
        if ss != s:
            self.bad("R12.slot", "at %r %d slots were announced for the commands %s" % (t, ss, [e.kind for e in sent]))
        if not self.is_on and (self.o_round is not None or self.o_slot is not None):
            self.bad("R12.open", "the reader is off at %r, slot %r of round %r was not announced as finished" % (
                t, self.o_slot, self.o_round))
            self.o_round = self.o_slot = None
        for e in sent:
            if self.o_round is not None and e.round != self.o_round:
                self.bad("R12.round", "%s at %r belongs to round %d, the announced one is %r" % (
                    e.kind, t, e.round, self.o_round))
        moves = [a for k, a in notes if k == "state"]
        wantm = ([] if was_on == self.is_on or self.is_on else ["OFF"]) + [STATE_OF[e.kind] for e in sent]
        if [a[1] for a in moves if len(a) == 2] != wantm:
            self.bad("R12.state", "at %r state changes to %r were announced, commands %s were sent%s" % (
                t, [a[1:] for a in moves], [e.kind for e in sent], "" if wantm[:1] != ["OFF"] else " and the reader went off"))
        if self.late_calls != self.late_due:
            self.bad("R12.lost", "by %r %d slots were announced as finished to the first listener, %d to the last" % (
                t, self.late_due, self.late_calls))
            self.late_calls = self.late_due
        if self.crowd:
            self.judge_crowd(t)
        for b in self.once_calls[-4:]:
            if b["n"] > 1:
                self.bad("R12.removed", "a %s listener removed in its first call was called %d times" % (b["on"], b["n"]))
                b["n"] = 1
        if self.rngl.random() < 0.1 and len(self.once_calls) < 40:
            self.add_once()

    def step(self, t, kind, a):
        def bad(msg):
            self.bad("R12.order", "at %r %s%r was announced %s" % (t, kind, a, msg))
        if kind == "power_on":
            if self.o_on:
                bad("while the reader was on")
            self.o_on = True
        elif kind == "power_off":
            if not self.o_on:
                bad("while the reader was off")
            self.o_on = False
        elif kind == "round_start":
            if self.o_round is not None:
                bad("while round %r was open" % (self.o_round,))
            elif a != (self.o_next,):
                bad("but the next round is %d" % self.o_next)
            self.o_round = a[0] if a else None
            self.o_next = (a[0] if a else self.o_next) + 1
            self.o_slots, self.o_slot = 0, None
        elif kind == "slot_start":
            if self.o_slot is not None:
                bad("while slot %r was open" % (self.o_slot,))
            elif a != (self.o_round, self.o_slots):
                bad("but slot %d of round %r is next" % (self.o_slots, self.o_round))
            self.o_slot = a[1] if len(a) > 1 else None
            self.o_slots = (self.o_slot if self.o_slot is not None else self.o_slots) + 1
        elif kind == "slot_finish":
            if self.o_slot is None or a != (self.o_round, self.o_slot):
                bad("but slot %r of round %r is open" % (self.o_slot, self.o_round))
            self.o_slot = None
        elif kind == "round_finish":
            if a != (self.o_round,):
                bad("but round %r is open" % (self.o_round,))
            elif self.o_slot is not None:
                bad("while its slot %r was open" % (self.o_slot,))
            self.o_round = None
        elif kind == "state":
            if len(a) != 2 or a[0] != self.o_state:
                bad("but the reader was in %s" % self.o_state)
            self.o_state = a[1] if len(a) == 2 else self.o_state

    def finish(self):
        super().finish()
        for b in self.once_calls:
            if b["n"] == 0 and b["t"] < self.end_t - 2 * (self.plan["cfg"]["off"] + self.plan["cfg"]["on"]) \
                    and b["on"] != "round_finish" and b["on"] != "round_start" and self.plan["cfg"]["periodic"]:
                self.bad("R12.missed", "a %s listener added at %r was never called until %r" % (b["on"], b["t"], self.end_t))
                break
        self.probe("once_listeners", len(self.once_calls))


# ---------------------------------------------------------------------- checks ----
class R11(_Rfid):
    id = "R11"
    quick, thorough = 900, 60000
    rule = RULE % ("every power record compared with the evaluation it stands for, and the air history compared with that "
                   "of the same run without collection")

    def tune(self, rng, p):
        p["cfg"]["powstat"] = rng.random() < 0.9
        p["cfg"]["life"] = min(p["cfg"]["life"], 0.12) if rng.random() < 0.8 else p["cfg"]["life"]
        p["twice"] = rng.random() < 0.5
        if rng.random() < 0.2:
            p["real_air"] = True
            p["fades"], p["dead_antenna"] = [], None
            p["cfg"]["travel"] = 20.0

    def execute(self, plan):
        a = PowerScene(plan, self.id)
        a.run()
        if plan.get("twice"):
            other = dict(plan, cfg=dict(plan["cfg"], powstat=not plan["cfg"]["powstat"]))
            b = Scene(other, self.id).run()
            if a.hist != b.hist:
                d = next((i for i, (x, y) in enumerate(zip(a.hist, b.hist)) if x != y), min(len(a.hist), len(b.hist)))
                a.bad("R11.perturb", "collecting power records changes the run: entry %d of the air history is %r with "
                      "collection %s and %r with it %s" % (
                          d, a.hist[d:d + 1], plan["cfg"]["powstat"], b.hist[d:d + 1], other["cfg"]["powstat"]))
            a.probe("compared_without")
        return a.outcome("R11")


class R12(_Rfid):
    id = "R12"
    quick, thorough = 1500, 90000
    rule = RULE % "every call of the reader's listeners compared with the commands and power changes it announces"

    def tune(self, rng, p):
        p["lseed"] = rng.randrange(1 << 30)

    def execute(self, plan):
        return ListenScene(plan, self.id).run().outcome("R12")


def gen_radio(rng):
    r = {}
    def maybe(k, f, q=0.4):
        if rng.random() < q:
            r[k] = f()
    maybe("frequency", lambda: rng.choice([865e6, 868e6, 915e6, 900e6]))
    maybe("permittivity", lambda: rng.choice([3.0, 5.5, 30.0, round(rng.uniform(2, 40), 2)]))
    maybe("conductivity", lambda: rng.choice([0.0, 0.001, 0.2]))
    maybe("polarization_loss", lambda: rng.choice([0.0, -1.5, -6.0]))
    maybe("use_doppler", lambda: rng.random() < 0.5)
    maybe("ground_reflection_type", lambda: "const", 0.25)
    maybe("ber_distribution", lambda: "awgn", 0.3)
    maybe("reader_power", lambda: rng.choice([25.0, 28.0, 33.0, 36.0]))
    maybe("reader_antenna_gain", lambda: rng.choice([4.0, 8.0, 9.5]))
    maybe("reader_cable_loss", lambda: rng.choice([0.0, -1.0, -4.0]))
    maybe("tag_antenna_gain", lambda: rng.choice([0.0, 2.0, 4.5]))
    maybe("tag_modulation_loss", lambda: rng.choice([-6.0, -15.0, -20.0]))
    maybe("tag_sensitivity", lambda: rng.choice([-14.0, -20.0, -23.5]))
    maybe("reader_noise", lambda: rng.choice([-60.0, -70.0, -95.0]))
    maybe("reader_antenna_x", lambda: round(rng.uniform(1.5, 8), 2))
    maybe("reader_antenna_z", lambda: round(rng.uniform(2.5, 7), 2))
    maybe("tag_antenna_x", lambda: round(rng.uniform(1.5, 8), 2))
    maybe("tag_antenna_z", lambda: round(rng.uniform(0, 1.5), 2))
    maybe("initial_distance_to_reader", lambda: rng.choice([10.0, 5.0, 2.0]))
    return r


class R13(_Rfid):
    id = "R13"
    quick, thorough = 2000, 80000
    rule = RULE % ("the real radio channel; every signal level, SNR and bit error rate the run uses compared with an "
                   "independent link budget at the tag's true position, antenna and time since power-on")

    def tune(self, rng, p):
        p["real_air"] = True
        p["fades"], p["dead_antenna"], p["fates"] = [], None, []
        c = p["cfg"]
        c["travel"] = rng.choice([20.0, 20.0, 10.0, 6.0])
        c["powstat"] = rng.random() < 0.1
        c["life"] = min(c["life"], ms(rng, 15, 120))
        if rng.random() < 0.4:
            c["antennas"] = rng.choice([2, 3])
        if rng.random() < 0.04:
            # on for seconds at a time: phases and times that only matter after a while
            p["gaps"] = p["gaps"][:2]
            c["life"] = round(rng.choice([1.5, 3.0, 6.0]) * rng.uniform(0.8, 1.2), 3)
            c["on"], c["periodic"] = round(rng.uniform(1.1, 5), 3), rng.random() < 0.6
            c["tari"], c["enc"], c["tid"], c["update"] = 25e-6, "M8", False, ms(rng, 12, 60)
            c["rtmul"], c["trmul"], c["dr"], c["powstat"] = 3.0, 2.5, "DR_8", False
        p["radio"] = gen_radio(rng)
        for k, z in (("reader_antenna_direction", -1), ("tag_antenna_direction", 1)):
            if rng.random() < 0.3:
                p[k] = [round(rng.uniform(-1, 1), 2), round(rng.uniform(-1, 1), 2), z * round(rng.uniform(0.2, 1), 2)]

    def execute(self, plan):
        return BudgetScene(plan, self.id).run().outcome("R13")


CHECKS = [R11(), R12(), R13()]
