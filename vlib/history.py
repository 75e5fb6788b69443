"""Histories of a v3 session with a stateful agent, shared by C09-C14.

A case describes a session (keys, API, with or without discovery) and a list
of operations, each with the way the agent answers it.  `Run` plays it and
hands every datagram the library sends to `on_msg`."""

import errno
import random

from . import ber, gen, snmp
from .drive import Driver
from .runner import Violation
from .snmp import dotted

I31 = (1 << 31) - 1
EDGE_INTS = (0, 1, 2, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536, 8388607, 8388608, (1 << 24), I31 - 1, I31)


def num(s):
    k = s.below(3)
    if k == 0:
        return s.int(0, 300)
    if k == 1:
        return s.choice(EDGE_INTS)
    return s.below(1 << 31)


DECOYS = ("msgid", "rid", "user", "engine", "mac", "noauth", "report-msgid", "report-engine")


def gen_op(s, raw, opt):
    op = s.choice(opt.get("ops", ("get", "get", "many", "next", "bulk", "refresh", "huge", "long")))
    r = {"op": op}
    if op == "many":
        r["oids"] = s.list(lambda s: gen.oid(s, 2, 12), 0, s.choice((2, 5, 20)))
    elif op == "long":
        # a request of 500 to 3900 octets
        r["op"] = "many"
        n = s.int(400, 3600) if s.bool() else s.int(3600, 4080)
        r["long"] = n
        x = s.choice((gen.U32, 127, 1 << 21))
        w = len(ber.oid_body([1, 3] + [x] * 20)) + 7
        r["oids"] = [[1, 3, i % 128] + [x] * 20 for i in range(n // w)] + [[1, 3] + [1] * (n % w)]
    elif op not in ("refresh", "huge"):
        r["oids"] = [gen.oid(s, 3, s.choice((4, 8, 40, 100)))]
    if op == "bulk":
        r["max"] = s.choice((1, 10, 127, 128, 40000))
    if op == "huge":
        # too large for the buffer, or refused by the network
        r.update(refused=s.chance(2), mode="ok", boots=None, time=None, n=0, pad=0, salt=None)
        return r
    modes = ["ok", "ok", "ok", "ok", "big", "decoy", "decoy", "report", "ureport", "garbage"] + (["none"] if raw else [])
    r["mode"] = s.choice(opt.get("modes") or modes)
    if r["mode"] == "decoy":
        r["decoys"] = s.list(lambda s: s.choice(DECOYS), 1, 3)
    r["boots"] = num(s) if s.chance(3) else None
    r["time"] = num(s) if s.chance(3) else None
    r["n"] = s.choice((0, 0, 0, 1, 8, 100, 120, 130, 250))
    if r["mode"] == "big":
        r["n"] = s.choice((1800, 3000)) if s.bool() else s.int(1000, 3000)
    r["pad"] = s.below(16)
    r["salt"] = s.bytes(8) if s.chance(3) else None
    return r


def gen_case(s, levels=("no", "auth", "priv", "priv"), types=(0, 1, 2), discover=True, engine=None, n=(1, 8), apis=("raw", "raw", "raw", "sync", "async"), **opt):
    conf = gen.conf_v3(s, levels=levels, types=types, engine=engine or gen.engine)
    api = s.choice(apis)
    disc = discover and s.chance(3)
    if disc:
        # localized keys are for one engine, whose id need not be known
        pass
    return {
        "conf": conf,
        "api": api,
        "discover": disc,
        "disc_decoy": disc and s.chance(3),
        # how often discovery fails first: before and after the engine id is known
        "disc_fail": [s.choice((0, 0, 0, 1, 2)), s.choice((0, 0, 1))] if disc else [0, 0],
        "enter": disc and s.bool(),
        "boots": num(s),
        "time": num(s),
        "ops": s.list(lambda s: gen_op(s, api == "raw", opt), *n),
        "rng": s.below(1 << 32),
    }


def repeated(s, n, lo=260, hi=700):
    """How often to play a history of n operations to make it a long one."""
    return s.int(lo, hi) // n + 1


def long_case(s, **kw):
    """A session used for hundreds of operations."""
    case = gen_case(s, n=(1, 6), **kw)
    case["repeat"] = repeated(s, len(case["ops"]))
    return case


class State:
    """What the library must have learned so far."""

    def __init__(self, engine_id):
        self.engine_id = engine_id
        self.bt = None  # set of allowed (boots, time), None: not constrained
        self.keys = None


class Run:
    def __init__(self, lib, case, on_msg, on_result=None):
        self.lib = lib
        self.case = case
        self.on_msg = on_msg
        self.on_result = on_result
        self.labels = []
        self.msgs = 0
        self.failed = 0
        self.op = None
        self.rng = random.Random(case["rng"])
        c = case["conf"]
        self.st = State(b"" if case["discover"] else c["engine_id"])
        self.fails = case.get("disc_fail", [0])[0]
        self.phase = "discovery" if case["discover"] else "normal"
        self.serial = 0
        self.expect = None

    # ------------------------------------------------------------- the agent
    def handler(self, agent, raw):
        p = snmp.parse(raw, strict=False)
        self.msgs += 1
        if self.phase == "discovery" and p["engine_id"] == b"":
            self.on_msg(self, agent, raw, p, None)
            if not p["flags"] & 4:
                # RFC 3412 7.1 3: nothing is reported to a non-reportable PDU
                raise Violation(f"discovery message is not reportable, no agent would answer it: {raw.hex()}")
            if self.fails:
                self.fails -= 1
                return [self.garbage()]
            out = []
            if self.case["disc_decoy"]:
                out = [self.disc_decoy(agent, p) for _ in range(1 + self.rng.randrange(3))]
            out.append(agent.report(p, user=p["user"], boots=agent.boots, time=agent.time))
            self.st.engine_id = agent.engine_id
            self.st.bt = {(agent.boots, agent.time)}
            self.phase = "normal"
            return out
        self.on_msg(self, agent, raw, p, self.op)
        agent.open(p)
        return self.answer(agent, p)

    def garbage(self):
        return self.rng.randbytes(40).replace(b"\x30", b"\x31", 1)

    def disc_decoy(self, agent, p):
        """A message that is no answer to discovery request p."""
        r = self.rng
        kind = r.choice(("msgid", "msgid", "user", "user", "rid"))
        over = {"engine_id": b"\x80other", "user": p["user"], "boots": r.randrange(1 << 31), "time": r.randrange(1 << 31)}
        if kind == "msgid":
            over["msg_id"] = p["msg_id"] ^ (1 << r.randrange(31))
        elif kind == "user":
            over["user"] = p["user"] + r.choice((b"x", b"\0", b"root"))
        else:
            vb = [snmp.varbind([1, 3], ber.enc_int(666))]
            return agent.reply_v3(p, snmp.pdu(snmp.RESPONSE, p["id"] ^ (1 << r.randrange(31)), vb), plain=True, **over)
        return agent.report(p, **over)

    def answer(self, agent, p):
        op = self.op
        c = self.case["conf"]
        if p["pdu"] == snmp.GET and not p["vars"] and op.get("op") != "many":
            # refresh: also the one that ends discovery
            return self.reply_refresh(agent, p, op)
        mode = op["mode"]
        out = []
        if mode == "none":
            self.expect = ("wait", None)
            return []
        if mode == "garbage":
            self.expect = ("garbage", None)
            return [self.garbage()]
        walk = p["pdu"] in (snmp.GETNEXT, snmp.GETBULK)
        o = list(p["vars"][0][0]) if p["vars"] else [1, 3]
        if walk:
            o = o + [1]
        self.serial += 1
        val = self.serial.to_bytes(4, "big") + self.rng.randbytes(op["n"])
        vbs = [snmp.varbind(o, ber.octets(val))]
        if mode == "decoy":
            out += [self.decoy(agent, p, k, o) for k in op["decoys"]]
        b, t = self.advance(agent, op)
        if mode in ("report", "ureport"):
            plain = mode == "ureport"
            out.append(agent.report(p, plain=plain, boots=b, time=t, n=self.serial))
            self.adopt(b, t, maybe=plain and bool(c["aalg"]))
            self.expect = ("report", None)
            return out
        body = snmp.pdu(snmp.RESPONSE, p["id"], vbs)
        out.append(agent.reply(p, body, boots=b, time=t, salt=op.get("salt"), pad=self.pad(agent, body, op)))
        self.adopt(b, t)
        self.expect = ("value", (dotted(o), val))
        return out

    def pad(self, agent, body, op):
        c = self.case["conf"]
        if c["palg"] == 1:
            n = -len(snmp.scoped_pdu(agent.engine_id, b"", body)) % 8
        elif c["palg"] == 2:
            n = op.get("pad", 0)
        else:
            return b""
        return self.rng.randbytes(n)

    def reply_refresh(self, agent, p, op):
        mode = op.get("mode", "ok") if op.get("op") == "refresh" else "ok"
        if mode == "none":
            self.expect = ("wait", None)
            return []
        if mode == "garbage":
            self.expect = ("garbage", None)
            return [self.garbage()]
        out = []
        if mode == "decoy":
            out += [self.decoy(agent, p, k, [1, 3]) for k in op["decoys"]]
        b, t = self.advance(agent, op)
        if mode in ("report", "ok", "decoy"):
            out.append(agent.report(p, plain=False, counter=(1, 3, 6, 1, 6, 3, 15, 1, 1, 2, 0), boots=b, time=t))
            self.adopt(b, t)
        elif mode == "ureport":
            out.append(agent.report(p, plain=True, boots=b, time=t))
            self.adopt(b, t, maybe=bool(self.case["conf"]["aalg"]))
        else:
            out.append(agent.response(p, [], boots=b, time=t))
            self.adopt(b, t)
        self.expect = ("refresh", None)
        return out

    def advance(self, agent, op):
        if op.get("boots") is not None:
            agent.boots = op["boots"]
        if op.get("time") is not None:
            agent.time = op["time"]
        else:
            agent.time = (agent.time + 1) & I31
        return agent.boots, agent.time

    def adopt(self, b, t, maybe=False):
        if maybe and self.st.bt is not None:
            self.st.bt = self.st.bt | {(b, t)}
        elif maybe:
            self.st.bt = None
        else:
            self.st.bt = {(b, t)}

    def decoy(self, agent, p, kind, o):
        """A message that must not be accepted, with its own boots and time."""
        c = self.case["conf"]
        r = self.rng
        over = {"boots": r.randrange(1 << 31), "time": r.randrange(1 << 31)}
        rid = p["id"]
        vb = [snmp.varbind(o, ber.enc_int(666))]
        if kind in ("mac", "noauth") and not c["aalg"]:
            kind = "msgid"
        if kind == "msgid":
            over["msg_id"] = p["msg_id"] ^ (1 << r.randrange(31))
        elif kind == "rid":
            rid ^= 1 << r.randrange(31)
        elif kind == "user":
            over["user"] = c["user"].encode() + b"x"
        elif kind == "engine":
            over["engine_id"] = agent.engine_id + b"\x01"
        elif kind == "mac":
            over["auth_params"] = r.randbytes(12)
        elif kind == "noauth":
            over["plain"] = True
        elif kind == "report-msgid":
            return agent.report(p, msg_id=p["msg_id"] ^ (1 << r.randrange(31)), plain=bool(r.randrange(2)), **over)
        else:
            return agent.report(p, engine_id=agent.engine_id + b"\x01", plain=bool(r.randrange(2)), **over)
        return agent.reply(p, snmp.pdu(snmp.RESPONSE, rid, vb), **over)

    # ------------------------------------------------------------ the client
    def play(self):
        case, c, lib = self.case, self.case["conf"], self.lib
        self.labels += [case["api"], f"a{c['aalg']}t{c['akt']}p{c['palg']}t{c['pkt']}", "discover" if case["discover"] else "engine-given"]
        kw = {"timeout": 4.0}
        if case["discover"]:
            kw["discover"] = True
        with Driver(lib, c, case["api"], self.handler, boots=case["boots"], time=case["time"], **kw) as d:
            self.d = d
            self.op = {"op": "refresh", "mode": "ok"}
            if case["discover"]:
                self.discover(d)
            for op in case["ops"] * case.get("repeat", 1):
                self.op = op
                self.one(d, op)
        return self.labels

    def discover(self, d):
        case, c = self.case, self.case["conf"]
        start = d.enter if case.get("enter") else d.discover
        early, late = case.get("disc_fail", [0, 0])
        for _ in range(early):
            self.expect_failure("discovery", start())
            if d.api == "raw" or not c["palg"]:
                continue
            # there are no keys yet: nothing may be sent
            n = self.msgs
            k, v = d.get("1.3.6.1.2.1")
            if k != "exc" or self.msgs != n:
                raise Violation(f"get of a session which has not discovered its engine: {k} {v!r}")
        if not late:
            return self.call("discover", start)
        self.op = {"op": "refresh", "mode": "garbage"}
        self.expect_failure("the refresh after discovery", start())
        self.labels.append("late-failure")
        self.op = {"op": "refresh", "mode": "ok"}
        if d.api == "raw" or c["aalg"]:
            self.call("refresh", d.enter if case.get("enter") and d.api != "raw" else d.refresh)

    def expect_failure(self, what, r):
        k, v = r
        if k != "exc" or not isinstance(v, self.lib.SnmpDecodeError):
            raise Violation(f"{what} was answered by garbage, yet {k} {v!r}", soft=k == "wait")
        self.labels.append("early-failure")

    def call(self, name, fn):
        self.expect = None
        k, v = fn()
        if k != "ok":
            raise Violation(f"{name}: {k} {type(v).__name__}: {v}", soft=k == "wait")

    def one(self, d, op):
        kind = op["op"]
        self.expect = None
        c = self.case["conf"]
        if kind == "refresh" and self.case["api"] != "raw" and not c["aalg"]:
            return
        if kind == "huge":
            n = self.msgs
            if op["refused"] and self.lib.shim.so:
                self.lib.shim.arm(1, errno.EPERM)
                try:
                    k, v = d.get_many(["1.3.6.1.2.1.1.1.0", "1.3.6.1.2.1.1.2.0"])
                finally:
                    fired = self.lib.shim.disarm()
                if not fired:
                    return
                if k != "exc" or not isinstance(v, OSError) or self.msgs != n:
                    raise Violation(f"a request the network refused: {k} {v!r}")
                self.failed += 1
                self.labels.append("refused")
                return
            try:
                k, v = d.get_many(["1.3.6.1.4.1." + ".".join(["4294967295"] * 20)] * 60)
            except snmp.Harness:
                k, v = "nothing sent, no exception", None
            if k != "exc" or self.msgs != n:
                raise Violation(f"oversized request: {k} {v!r}")
            self.failed += 1
            self.labels.append("huge")
            return
        self.labels.append(f"{kind}:{op['mode']}")
        texts = [dotted(o) for o in op.get("oids", [])]
        n, m = d.served, self.msgs
        if kind == "get":
            k, v = d.get(texts[0])
        elif kind == "many":
            k, v = d.get_many(texts)
            if k == "ok":
                v = next(iter(v.values())) if len(v) == 1 else v
        elif kind == "refresh":
            k, v = d.refresh()
        else:
            items, end = d.walk(kind, texts[0], 1, op.get("max"))
            if items:
                k, v = "ok", items[0][1]
            else:
                k, v = ("wait", None) if end == "wait" else ("exc", end)
        if op.get("long", 0) > 3600 and k == "exc" and isinstance(v, self.lib.SnmpEncodeError) and self.msgs == m:
            # may be too large for the buffer
            self.failed += 1
            self.labels.append("too-long")
            return
        d.await_requests(n + 1)
        if self.on_result:
            self.on_result(self, op, k, v)


def asked(op, p):
    """(tag, oids, a, b) of the PDU that operation `op` must have sent."""
    if op is None or op["op"] == "refresh":
        return snmp.GET, [], 0, 0
    kind = op["op"]
    if kind in ("get", "many"):
        return snmp.GET, op["oids"], 0, 0
    if kind == "next":
        return snmp.GETNEXT, op["oids"], 0, 0
    return snmp.GETBULK, op["oids"], 0, op["max"]


def judge_delivery(run, op, k, v):
    """The value the agent sent is what the call returns."""
    e = run.expect
    lib = run.lib
    where = f"{op['op']} ({op['mode']})"
    shown = f"{type(v).__name__}: {v}" if k == "exc" else f"{k} {v!r}"
    if e is None:
        raise Violation(f"{where}: no request reached the agent: {shown}", soft=True)
    if e[0] == "value":
        if k != "ok":
            raise Violation(f"{where}: the agent's answer was not delivered: {shown}", soft=k == "wait")
        if v != e[1][1]:
            raise Violation(f"{where}: {e[1][1]!r} expected, got {v!r}")
    elif e[0] == "refresh":
        if k != "ok":
            raise Violation(f"{where}: refresh was answered, yet {shown}", soft=k == "wait")
    elif e[0] == "report":
        if op["op"] != "refresh" and (k != "exc" or not isinstance(v, lib.SnmpAuthError)):
            raise Violation(f"{where}: SnmpAuthError expected, got {shown}", soft=k == "wait")
