"""R09: progress. Faults (lost replies, fades, short power cuts) run up to a
random moment; from then on the field is healthy and every tag must be read,
TID included, within a bounded number of rounds."""
from . import air
from .rfid import Scene, gen_scene, _Rfid, ms, gen_fates


class LiveScene(Scene):
    def start(self):
        p = self.plan
        self.heal = p["heal"]
        self.unread = None
        self.half = {}
        self.spans = 0
        self.on_got = self.got
        self.stop_check = self.check

    def got(self, e):
        if self.unread is None or e.t < self.heal:
            return
        to, kind, info = e.got
        if kind == "AckReply":
            self.half[to.idx] = True
            if not self.plan["cfg"]["tid"]:
                self.unread.discard(to.idx)
        elif kind == "ReadReply" and self.half.get(to.idx):
            self.unread.discard(to.idx)

    def check_target(self, e):
        super().check_target(e)
        self.round_t = e.t
        if self.unread is None:
            return
        if self.on_count == 1:
            self.full = 0
        # a pair of target spans that lay in one power-on period and after the faults
        n = 2 * self.plan["cfg"]["rpt"]
        self.full += 1
        if self.full > n:
            self.full = 1
            self.spans += 1

    def stuck(self, t):
        """no round has begun for many times the longest a round can last"""
        if not self.is_on or "round_max" not in self.plan:
            return False
        since = max(self.round_t, self.since_on, self.heal)
        if t - since > 5 * self.plan["round_max"]:
            self.bad("R09.stuck", "the reader is on and has begun no round between %r and %r (a round lasts at most %r s)" % (
                since, t, self.plan["round_max"]))
            return True
        return False

    round_t = 0.0

    def check(self, t):
        if self.stuck(t):
            return True
        if self.unread is None:
            if t < self.heal or len(self.present) < len(self.plan["gaps"]) \
                    or not all(o.ref.powered for o in self.present):
                return False
            self.unread = {o.idx for o in self.present}
            self.from_t = t
            self.full = -10 ** 6 if self.on_count % (2 * self.plan["cfg"]["rpt"]) else 0
            self.rounds0 = self.rounds
            self.pending_at_heal = len(self.unread)
        if self.full < -10 ** 5 and self.on_count and self.on_count % (2 * self.plan["cfg"]["rpt"]) == 1 \
                and self.cur is not None and self.cur.kind == "Query":
            self.full = 1
        if not self.unread:
            self.done = t
            return True
        if self.spans > self.plan["pairs"]:
            self.bad("R09.progress", "%d of %d tags (%s) were not read in %d rounds (%d pairs of target spans) after the "
                     "last fault at %r" % (len(self.unread), len(self.present), sorted(self.unread)[:5],
                                           self.rounds - self.rounds0, self.spans, self.heal))
            return True
        return False

    done = None
    full = 0

    def finish(self):
        if self.done is None and not any(x["rule"].startswith("R09.") for x in self.viol):
            self.bad("R09.progress", "%d tags were not read in %r s after the last fault (%d rounds)" % (
                len(self.unread or []), self.end_t - self.heal, self.rounds - getattr(self, "rounds0", 0)))
        if self.done is not None:
            self.probe("tags_read_after_heal", self.pending_at_heal)
            k = "pairs_needed_" + ("0-2" if self.spans <= 2 else "3-5" if self.spans <= 5 else "6-10" if self.spans <= 10
                                   else "11-20" if self.spans <= 20 else "21+")
            self.probe(k)


class R09(_Rfid):
    id = "R09"
    quick, thorough = 2000, 200000
    rule = ("whole RFID runs in which replies are lost, fields fade and power is cut up to a random moment and not after "
            "it; from then on every tag must be read within a bounded number of target spans, and the reader always has "
            "a next command; every third run is an arbitrary faulty run in which only silence is judged; non-trivial "
            "when at least 2 events ran; distinct by digest of the air history")
    shrink_keys = ["gaps", "fades", "fates"]

    def gen(self, rng, i, tier):
        p = gen_scene(rng, i, tier, self.id)
        p.pop("dice", None)                  # fair draws: tags that always collide cannot be read
        if i % 3 == 2:
            return p
        c = p["cfg"]
        n = rng.choice([1, 2, 3, 4, 6, 8])
        if c.get("sens") == p["power"]:
            c.pop("sens")                    # tags that never receive more than they need cannot be read
        qmin = 0
        while 2 ** qmin < 2 * n:
            qmin += 1
        if n == 1 and rng.random() < 0.5:
            qmin = 0
        c.update(q=min(7, qmin + rng.choice([0, 0, 1])), strategy="switch", sel=rng.choice(["ALL", "NOT_SEL"]),
                 rpt=rng.choice([1, 1, 2, 3]), words=rng.choice([1, 2, 4, 6, 8]), powstat=False,
                 adjust=False, delta=rng.choice([0.1, 0.2, 0.3, 0.5]))
        c["qfp"] = float(c["q"])
        p["real_air"], p["limits"], p["dead_antenna"] = False, {}, None
        p["gaps"] = [ms(rng, 0.1, 15) for _ in range(n)]
        link = air.Link(c["tari"], c["tari"] * c["rtmul"], c["tari"] * c["rtmul"] * c["trmul"], c.get("delim", 12.5e-6), c["dr"], c["enc"],
                        c["trext"], c["temp"] == "EXTENDED")
        f = {"dr": c["dr"], "m": c["enc"], "trext": c["trext"], "sel": c["sel"], "session": "S3", "target": "B", "q": 15,
             "updn": 1, "rn": 65535, "crc": 65535, "bank": "TID", "ptr": 0, "words": c["words"]}
        slot = max(link.exchange("Query", dict(f, crc=31), [16])[0], link.exchange("QueryAdjust", f, [])[0])
        read = slot + link.exchange("Ack", f, [32 + c["epc"]])[0]
        if c["tid"]:
            read += link.exchange("ReqRN", f, [32])[0] + link.exchange("Read", f, [33 + 16 * c["words"]])[0]
        rnd = (2 ** (c["q"])) * slot + n * read
        p["round_max"] = rnd
        pair = 2 * c["rpt"] * rnd
        c["on"] = round(pair * rng.uniform(2.5, 8), 6)
        c["off"] = round(rng.choice([ms(rng, 0.3, 25), pair * rng.uniform(0.1, 2)]), 6)
        c["update"] = round(pair * rng.uniform(0.3, 3), 6)
        heal = sum(p["gaps"]) + pair * rng.choice([0, 0.3, 1, 3]) * rng.random()
        p["heal"] = round(heal, 6)
        p["pairs"] = 40
        p["fates"] = gen_fates(rng)
        if p["fates"] and rng.random() < 0.5:
            p["fates"] = p["fates"] * 10
        p["fades"] = []
        if rng.random() < 0.6:
            for _ in range(rng.choice([1, 3, 6])):
                a = rng.uniform(0, heal)
                # the field is back to strength at the last evaluation before the heal moment counts
                p["fades"].append([rng.choice([-1] + list(range(n))), round(a, 6),
                                   round(min(heal, a + rng.choice([0.1, 0.5, 2]) * pair * rng.random()), 6)])
        duty = (c["on"] + c["off"]) / max(c["on"] - 2 * pair, 0.2 * c["on"])
        c["life"] = round(heal + (p["pairs"] + 10) * pair * duty * 1.5 + 4 * (c["on"] + c["off"]) + 2 * c["update"], 3)
        c["travel"] = 20.0
        c["ant_interval"] = round(pair * rng.uniform(0.02, 3), 6)
        return p

    def execute(self, plan):
        if "heal" not in plan:
            return Scene(plan, self.id).run().outcome(self.id)
        sc = LiveScene(plan, self.id)
        sc.start()
        return sc.run().outcome(self.id)


CHECKS = [R09()]
