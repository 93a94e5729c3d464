"""Independent oracle for the air interface: command bits, air times and the
Gen2 tag, written from the EPC Gen2 rules, not from the code under test."""

# ---------------------------------------------------------------- encoding ----
DR = {"DR_8": ("0", 8.0), "DR_643": ("1", 64.0 / 3.0)}
ENC = {"FM0": ("00", 1), "M2": ("01", 2), "M4": ("10", 4), "M8": ("11", 8)}
SEL = {"ALL": "00", "NOT_SEL": "10", "SEL": "11"}
SES = {"S0": "00", "S1": "01", "S2": "10", "S3": "11"}
TGT = {"A": "0", "B": "1"}
BANK = {"RESERVED": "00", "EPC": "01", "TID": "10", "USER": "11"}


def b(v, n):
    return format(v % (1 << n), "0%db" % n)


def ebv(v):
    blocks = [v & 127]
    v >>= 7
    while v:
        blocks.insert(0, v & 127)
        v >>= 7
    return "".join(("1" if i < len(blocks) - 1 else "0") + b(x, 7) for i, x in enumerate(blocks))


def command_bits(kind, f):
    if kind == "Query":
        return ("1000" + DR[f["dr"]][0] + ENC[f["m"]][0] + ("1" if f["trext"] else "0") + SEL[f["sel"]]
                + SES[f["session"]] + TGT[f["target"]] + b(f["q"], 4) + b(f.get("crc", 0), 5))
    if kind == "QueryRep":
        return "00" + SES[f["session"]]
    if kind == "QueryAdjust":
        return "1001" + SES[f["session"]] + {1: "110", 0: "000", -1: "011"}[f["updn"]]
    if kind == "Ack":
        return "01" + b(f["rn"], 16)
    if kind == "ReqRN":
        return "11000001" + b(f["rn"], 16) + b(f.get("crc", 0), 16)
    if kind == "Read":
        return ("11000010" + BANK[f["bank"]] + ebv(f["ptr"]) + b(f["words"], 8) + b(f["rn"], 16)
                + b(f.get("crc", 0), 16))
    raise ValueError(kind)


FRT = {("DR_643", True): [(33.633, 0.15), (66.033, 0.22), (82.467, 0.15), (84.133, 0.10), (131.967, 0.12),
                          (198.00, 0.07), (227.25, 0.05)],
       ("DR_643", False): [(33.633, 0.15), (66.033, 0.22), (67.367, 0.10), (82.467, 0.12), (131.967, 0.10),
                           (198.00, 0.07), (227.25, 0.05)],
       ("DR_8", True): [(24.75, 0.19), (30.9375, 0.15), (49.50, 0.10), (75.0, 0.07), (202.0, 0.04)],
       ("DR_8", False): [(24.75, 0.19), (25.25, 0.10), (30.9375, 0.12), (49.50, 0.10), (75.0, 0.07),
                         (202.0, 0.04)]}


class Link:
    """Air timing of one configuration."""

    def __init__(self, tari, rtcal, trcal, delim, dr, enc, trext, extended):
        self.tari, self.rtcal, self.trcal, self.delim = tari, rtcal, trcal, delim
        self.dr, self.enc, self.trext = dr, enc, trext
        self.blf = DR[dr][1] / trcal
        tpri = trcal / DR[dr][1]
        table = FRT[(dr, bool(extended))]
        frt = table[-1][1]
        for top, v in table:
            if trcal < top * 1e-6:
                frt = v
                break
        base = max(rtcal, 10 * tpri)
        self.t1_min = base * (1 - frt) - 2e-6
        self.t1_max = base * (1 + frt) + 2e-6
        self.t2_max = 20 * tpri
        self.t3 = 0.0
        self.t4 = 2 * rtcal

    @staticmethod
    def vague(trcal, dr, extended):
        """trcal sits on a boundary of the tolerance table"""
        return any(abs(trcal - t * 1e-6) < 1e-10 for t, _ in FRT[(dr, bool(extended))])

    def command(self, kind, f):
        bits = command_bits(kind, f)
        pre = self.delim + self.tari + self.rtcal
        if kind == "Query":
            pre += self.trcal
        return pre + bits.count("0") * self.tari + bits.count("1") * (self.rtcal - self.tari)

    def reply(self, bitlen, enc=None, trext=None):
        enc = self.enc if enc is None else enc
        trext = self.trext if trext is None else trext
        m = ENC[enc][1]
        pre = (18 if trext else 6) if enc == "FM0" else (22 if trext else 10)
        return (pre + bitlen + 1) * m / self.blf

    def exchange(self, kind, f, reply_bits):
        """-> (duration, start of the replies relative to the command start)"""
        c = self.command(kind, f)
        if not reply_bits:
            return c + self.t1_max + self.t3, None
        r = max(self.reply(n) for n in reply_bits)
        return max(c + self.t1_min + r + self.t2_max, c + self.t4), c + self.t1_min


def reply_bits(kind, info):
    if kind == "QueryReply":
        return 16
    if kind == "AckReply":
        return 32 + 8 * len(info["epc"])
    if kind == "ReqRNReply":
        return 32
    if kind == "ReadReply":
        return 33 + 8 * len(info["memory"])
    raise ValueError(kind)


# ---------------------------------------------------------------- Gen2 tag ----
FLIP = {"A": "B", "B": "A"}


class RefTag:
    """Inventory state machine of one tag. Random choices (slot, RN16) are
    taken from the observed tag after their range has been checked."""

    def __init__(self, sens, persistence):
        self.sens, self.persistence = sens, persistence
        self.state = "OFF"
        self.flags = {s: "A" for s in SES}
        self.off_since = 0.0
        self.session = None
        self.slot = None
        self.rn = None
        self.q = None
        self.vague = set()       # sessions whose flag sits on the persistence boundary

    @property
    def powered(self):
        return self.state != "OFF"

    def power(self, t, p):
        if self.state == "OFF":
            if p is not None and p > self.sens:
                gap = t - self.off_since
                for s in self.flags:
                    if s == "S0":
                        self.flags[s] = "A"
                    else:
                        if abs(gap - self.persistence[s]) < 1e-9:
                            self.vague.add(s)
                        if gap > self.persistence[s]:
                            self.flags[s] = "A"
                self.state = "READY"
        elif p is None or p < self.sens:
            self.state = "OFF"
            self.off_since = t
            self.session = None

    def command(self, kind, f, seen):
        """seen(): observed (slot, rn) after the command. -> expected reply
        kind or None; problems are returned as text."""
        err = None
        if self.state == "OFF":
            return None, None
        slot, rn = seen()

        def draw():
            nonlocal err
            if not (isinstance(slot, (int,)) or hasattr(slot, "__index__")) or not 0 <= slot < 2 ** self.q:
                err = "drew slot %r with Q=%d" % (slot, self.q)
            self.slot = int(slot)
            if self.slot == 0:
                self.state = "REPLY"
                self.rn = int(rn)
                if not 0 <= self.rn < 65536:
                    err = "RN16 %r out of range" % (rn,)
                return "QueryReply"
            self.state = "ARBITRATE"
            return None
        if kind == "Query":
            if self.state in ("ACKNOWLEDGED", "SECURED"):
                self.flags[self.session] = FLIP[self.flags[self.session]]
            match = {"ALL": True, "SEL": False, "NOT_SEL": True}[f["sel"]]
            if not (match and self.flags[f["session"]] == f["target"]):
                self.state = "READY"
                return None, None
            self.session = f["session"]
            self.q = f["q"]
            return draw(), err
        if kind in ("QueryRep", "QueryAdjust"):
            if f["session"] != self.session:
                return None, None
            if self.state in ("ACKNOWLEDGED", "SECURED"):
                self.flags[self.session] = FLIP[self.flags[self.session]]
                self.state = "READY"
                return None, None
            if self.state not in ("ARBITRATE", "REPLY"):
                return None, None
            if kind == "QueryAdjust":
                self.q = min(15, max(0, self.q + f["updn"]))
                return draw(), err
            if self.state == "REPLY":
                self.state, self.slot = "ARBITRATE", None
                return None, None
            if self.slot is None:
                return None, None
            self.slot -= 1
            if self.slot == 0:
                self.state = "REPLY"
                self.rn = int(rn)
                if not 0 <= self.rn < 65536:
                    err = "RN16 %r out of range" % (rn,)
                return "QueryReply", err
            return None, None
        if kind == "Ack":
            if self.state != "REPLY":
                return None, None
            if f["rn"] == self.rn:
                self.state = "ACKNOWLEDGED"
                return "AckReply", None
            self.state, self.slot = "ARBITRATE", None
            return None, None
        if kind == "ReqRN":
            if self.state in ("ACKNOWLEDGED", "SECURED") and f["rn"] == self.rn:
                self.state = "SECURED"
                self.rn = int(rn)
                if not 0 <= self.rn < 65536:
                    err = "handle %r out of range" % (rn,)
                return "ReqRNReply", err
            return None, None
        if kind == "Read":
            if self.state == "SECURED" and f["rn"] == self.rn:
                return "ReadReply", None
            return None, None
        raise ValueError(kind)
