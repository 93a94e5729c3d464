"""R02 under a hostile reader: real tags, created by the real generator in a
real run whose own reader is switched off, receive arbitrary sequences of
commands, power changes and pauses; each tag runs in lockstep with the
independent Gen2 tag of air.py."""
from . import world
from .rfid import Scene, gen_scene, _Rfid, real_flags, cname
from .kern import outcome

SES = ["S0", "S1", "S2", "S3"]


class DriveScene(Scene):
    CAP = 20000

    def on_init(self, tr, sim):
        self.tracer = tr
        tr.cap = self.CAP
        self.ops = list(self.plan["ops"])
        self.drawn = {}
        self.started = False
        self.noreader = True

    def reader_step(self, e):
        pass

    def settle(self, t, cut):
        pass

    def after_event(self, tr, sim, fn, args):
        for x in self.model.tags:
            to = self.see(x)
            if all(o is not to for o in self.present):
                to.born = sim.time
                self.present.append(to)
        if not self.started and len(self.present) == len(self.plan["gaps"]):
            self.started = True
            self.pending = 0
            sim.schedule(self.ops[0]["dt"] if self.ops else 0.0, self.step)

    def step(self, sim):
        if self.pending >= len(self.ops):
            self.stopped_early = True
            sim.stop()
            return
        op = self.ops[self.pending]
        self.pending += 1
        to = self.present[op["tag"] % len(self.present)]
        self.apply(to, op, sim.time)
        nxt = self.ops[self.pending]["dt"] if self.pending < len(self.ops) else 0.0
        sim.schedule(nxt, self.step)

    def apply(self, to, op, t):
        tag, ref = to.obj, to.ref
        k = op["op"]
        if k == "power":
            v = op["v"]
            self.estimates[tag] = (t, v)
            if v is None or v < ref.sens:
                if ref.powered:
                    self.fault("tag_power_cut")
                    if ref.state in ("ACKNOWLEDGED", "SECURED"):
                        self.fault("power_cut_after_ack")
            tag.set_power(t, v)
            return
        cmd = self.command(to, op)
        if cmd is None:
            return
        std = self.std
        st = ref.state
        if cname(cmd) == "Query":
            pre = std.ReaderPreamble(self.reader.tari, self.reader.rtcal, self.reader.trcal, self.reader.delim)
        else:
            pre = std.ReaderSync(self.reader.tari, self.reader.rtcal, self.reader.delim)
        reply = tag.receive(std.ReaderFrame(pre, cmd))
        self.hist.append((to.idx, k, st, ref.state, reply is not None))
        self.probe("%s_in_%s" % (k, st))
        self.moves = getattr(self, "moves", set())
        self.moves.add((k, st, ref.state))
        if to.dead:
            return
        if k in ("query", "adjust") and st != "OFF" and ref.state in ("ARBITRATE", "REPLY"):
            if k == "query" or st in ("ARBITRATE", "REPLY"):
                key = (k, ref.q)
                self.drawn.setdefault(key, {})
                s = int(tag.slot_counter)
                self.drawn[key][s] = self.drawn[key].get(s, 0) + 1
        if reply is not None and k == "query":
            p = reply.preamble
            if p.encoding is not cmd.m or bool(p.extended) != bool(cmd.trext):
                self.bad("R02.encoding", "tag %d answers %s with encoding %s, extended %r" % (
                    to.idx, op, p.encoding, p.extended))

    def command(self, to, op):
        std, tag, ref = self.std, to.obj, to.ref
        k, st = op["op"], ref.state
        S = std.Session
        ses = op.get("ses")
        if ses == "same":
            ses = ref.session or "S0"
        elif ses == "other":
            ses = SES[(SES.index(ref.session or "S0") + 1 + op.get("d", 0)) % 4]
        if k == "query":
            if st in ("ACKNOWLEDGED", "SECURED"):
                ses = ref.session      # a reader does not change session in the middle of a round
            want = op["target"]
            fl = ref.flags[ses]
            if want in ("match", "miss"):
                after = fl
                if st in ("ACKNOWLEDGED", "SECURED"):
                    after = "B" if fl == "A" else "A"
                want = after if want == "match" else ("B" if after == "A" else "A")
            return std.Query(dr=std.DivideRatio[op["dr"]], m=std.TagEncoding[op["m"]], trext=op["trext"],
                             sel=std.SelFlag[op["sel"]], session=S[ses], target=std.InventoryFlag[want],
                             q=op["q"], crc=op.get("crc", 0))
        if k == "rep":
            return std.QueryRep(session=S[ses])
        if k == "adjust":
            return std.QueryAdjust(session=S[ses], updn=op["updn"])
        good = int(tag.rn)
        rn = good if op["rn"] == "good" else (good ^ op["rn"]) & 0xFFFF
        if op["rn"] == "peer":
            pass
        if k == "ack":
            if st in ("ACKNOWLEDGED", "SECURED"):
                return None
            return std.Ack(rn)
        if k == "reqrn":
            return std.ReqRN(rn, 0)
        if k == "read":
            return std.Read(std.MemoryBank[op["bank"]], 0, op["words"], rn, 0)
        raise ValueError(k)

    def finish(self):
        for (k, q), seen in self.drawn.items():
            n = sum(seen.values())
            if q <= 3 and n >= 100 * 2 ** q and not self.plan.get("dice"):
                self.probe("slot_coverage_q%d" % q)
                miss = sorted(set(range(2 ** q)) - set(seen))
                if miss:
                    self.bad("R02.uniform", "after %d draws on %s with Q=%d slots %s never came" % (n, k, q, miss))
                low = min(seen.values())
                if low < n / 2 ** q / 4:
                    self.bad("R02.uniform", "after %d draws on %s with Q=%d the slots are %r" % (n, k, q, seen))
        if not self.present or getattr(self, "pending", 0) < len(self.ops):
            raise RuntimeError("the drive did not finish")

    def outcome(self, pid):
        v = [x for x in self.viol if x["rule"].startswith(pid + ".")]
        return outcome(v, self.hist, self.end_t, self.faults, self.probes, len(self.hist))


def gen_ops(rng, nt):
    ops = []
    t = {}

    def put(op, tag, dt=None, **k):
        ops.append(dict({"op": op, "tag": tag, "dt": round(dt if dt is not None else rng.choice([1e-4, 1e-3, 0.01]), 6)}, **k))

    def query(tag, ses=None, target=None, q=None):
        put("query", tag, ses=ses or rng.choice(SES), target=target or rng.choice(["match"] * 4 + ["miss", "A", "B"]),
            q=q if q is not None else rng.choice([0, 0, 0, 1, 1, 2, 3, 4, 8, 15]),
            dr=rng.choice(["DR_8", "DR_643"]), m=rng.choice(["FM0", "M2", "M4", "M8"]), trext=rng.random() < 0.5,
            sel=rng.choice(["ALL"] * 4 + ["NOT_SEL", "SEL"]))

    def badrn():
        return rng.choice([1, 0x8000, 0x00FF, rng.randrange(1, 65536)])

    def one(tag):
        r = rng.random()
        if r < 0.13:
            query(tag)
        elif r < 0.33:
            put("rep", tag, ses=rng.choice(["same"] * 5 + ["other"]), d=rng.randrange(3))
        elif r < 0.46:
            put("adjust", tag, ses=rng.choice(["same"] * 5 + ["other"]), d=rng.randrange(3), updn=rng.choice([-1, 0, 1, 1, -1]))
        elif r < 0.62:
            put("ack", tag, rn=rng.choice(["good"] * 4 + [badrn()]))
        elif r < 0.75:
            put("reqrn", tag, rn=rng.choice(["good"] * 3 + [badrn()]))
        elif r < 0.86:
            put("read", tag, rn=rng.choice(["good"] * 3 + [badrn()]), bank=rng.choice(["TID", "TID", "EPC"]),
                words=rng.choice([1, 2, 4, 6, 8, 16, 64, 255]))
        elif r < 0.93:
            cut(tag)
        else:
            power(tag, rng.choice([-10.0, -17.99, -18.01, -40.0, 3.0]))

    def power(tag, v, dt=None):
        put("power", tag, dt, v=v)

    def cut(tag):
        power(tag, rng.choice([None, -18.5, -60.0]))
        power(tag, -5.0, rng.choice([1e-5, 0.5, 1.5, 1.9, 1.999, 2.001, 2.1, 3.0, 20.0]))

    def inventory(tag):
        ses = rng.choice(SES)
        query(tag, ses, "match", 0)
        if rng.random() < 0.15:
            one(tag)
        put("ack", tag, rn="good")
        r = rng.random()
        if r < 0.6:
            put("reqrn", tag, rn=rng.choice(["good"] * 5 + [badrn()]))
            if rng.random() < 0.7:
                put("read", tag, rn=rng.choice(["good"] * 5 + [badrn()]), bank=rng.choice(["TID", "TID", "EPC"]),
                    words=rng.choice([1, 2, 3, 4, 6, 8, 16, 64]))
        r = rng.random()
        if r < 0.35:
            put("rep", tag, ses="same")
        elif r < 0.55:
            put("adjust", tag, ses="same", updn=rng.choice([-1, 0, 1]))
        elif r < 0.8:
            query(tag, ses)
        elif r < 0.9:
            cut(tag)
        else:
            one(tag)

    style = rng.random()
    for k in range(nt):
        power(k, -5.0)
    if style < 0.1:
        # the draw of one tag over many rounds
        q = rng.choice([0, 1, 2])
        for _ in range(130 * 2 ** q):
            query(0, "S0", "match", q)
        return ops
    if style < 0.18:
        q = rng.choice([1, 2])
        query(0, "S0", "match", q)
        for _ in range(130 * 2 ** q):
            put("adjust", 0, ses="same", updn=0)
        return ops
    if style < 0.26:
        # walks of Q to its ends
        query(0, "S1", "match", rng.choice([0, 1, 14, 15]))
        d = rng.choice([-1, 1])
        for j in range(40):
            put("adjust", 0, ses="same", updn=d if rng.random() < 0.8 else -d)
            if rng.random() < 0.1:
                d = -d
        return ops
    n = rng.choice([20, 60, 150])
    while len(ops) < n:
        tag = rng.randrange(nt)
        r = rng.random()
        if r < 0.35:
            inventory(tag)
        elif r < 0.5 :
            q = rng.choice([1, 2, 3])
            query(tag, rng.choice(SES), "match", q)
            for _ in range(rng.randint(1, 2 ** q + 2)):
                put("rep", tag, ses="same")
        else:
            one(tag)
    return ops


class R02(_Rfid):
    id = "R02"
    shrink_keys = ["ops", "gaps", "fades", "fates"]
    quick, thorough = 3000, 200000
    rule = ("half of the runs: real tags driven by arbitrary command sequences (valid, stale and forged numbers, wrong "
            "sessions, Q walks), power cuts at any point and pauses around the persistence time; the other half: whole "
            "RFID runs with losses, collisions, fades and power cuts; every step of every tag compared with an "
            "independent Gen2 tag; non-trivial when at least 2 steps ran; distinct by digest of the step history")

    def gen(self, rng, i, tier):
        p = gen_scene(rng, i, tier, self.id)
        if i % 2:
            return p
        nt = rng.choice([1, 1, 1, 2, 3])
        p["gaps"] = [0.001] * nt
        c = p["cfg"]
        c.update(life=1e5, travel=20.0, update=9e4, on=1e-4, off=9e4, periodic=True, antennas=1, powstat=False)
        p.update(fades=[], fates=[], limits={}, log=None, real_air=False, dead_antenna=None)
        p["ops"] = gen_ops(rng, nt)
        return p

    def execute(self, plan):
        sc = DriveScene(plan, self.id) if "ops" in plan else Scene(plan, self.id)
        return sc.run().outcome(self.id)


CHECKS = [R02()]
