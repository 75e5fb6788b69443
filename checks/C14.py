"""C14: privacy salts never repeat and nothing confidential goes in clear."""

import time

from vlib import ber, crypt, drive, gen, history, snmp
from vlib.drive import Driver
from vlib.runner import Part, Violation
from vlib.snmp import Agent, code

crypt.selftest()

ID = "C14"
RULE = (
    "history: a privacy session (DES or AES x digest x key types x API, engine given or discovered, salts starting anywhere "
    "including just before every wrap) and 1-8 operations with replies, decoys, Reports, garbage, silence and refused oversized "
    "requests. long: hundreds to 10^5 mixed requests of one key installation, with receives, timeouts, changes of boots/time and repeated set_keys. "
    "deferred: a session used before its engine id is known. Each datagram: priv flag, salt of 8 octets equal to boots+counter or "
    "counter, one more than the last, never seen before; no OID, context or 8-octet run of the scoped PDU in clear. "
    "Non-trivial: at least two encrypted messages under one key installation (deferred: an operation before discovery)."
)
ASSUMPTIONS = ["a request refused after its salt was drawn may consume one counter value"]


class Salts:
    """The salts of one key installation."""

    def __init__(self, palg):
        self.palg = palg
        self.seen = set()
        self.last = None
        self.failed = 0
        self.n = 0

    def check(self, p, failed, raw):
        salt = p["priv"]
        if p["cipher"] is None or not p["flags"] & 2:
            raise Violation(f"a privacy session sent message with flags {p['flags']:#x}: {raw.hex()}")
        if len(salt) != 8:
            raise Violation(f"msgPrivacyParameters have {len(salt)} octets: {raw.hex()}")
        if salt in self.seen:
            raise Violation(f"salt {salt.hex()} repeats after {len(self.seen)} messages")
        self.seen.add(salt)
        if self.palg == 1:
            if salt[:4] != p["boots"].to_bytes(4, "big"):
                raise Violation(f"DES salt {salt.hex()} does not start with the engine boots {p['boots']}")
            cnt, mod = int.from_bytes(salt[4:], "big"), 1 << 32
        else:
            cnt, mod = int.from_bytes(salt, "big"), 1 << 64
        if self.last is not None:
            d = (cnt - self.last) % mod
            if not 1 <= d <= 1 + failed - self.failed:
                raise Violation(f"message {self.n}: salt counter goes from {self.last:#x} to {cnt:#x} ({failed - self.failed} refused sends between)")
        self.last, self.failed = cnt, failed
        self.n += 1


# ----------------------------------------------------------------- leaks
def windows(b, n=8, kinds=4):
    return [b[i : i + n] for i in range(len(b) - n + 1) if len(set(b[i : i + n])) >= kinds]


def check_leak(raw, p, plain, oids, user):
    """`plain` is the scoped PDU, `oids` are the requested arcs."""
    eng = p["engine_id"]
    if p["user"] != user:
        raise Violation(f"the message goes for user {p['user']!r}, not {user!r}: {raw.hex()}")
    # the request-id, the library's own number, may coincide with others
    rid = ber.enc_int(snmp.parse_scoped(ber.Reader(plain))["id"])
    i = plain.index(rid, 4 + len(eng))
    runs = windows(plain[:i]) + windows(plain[i + len(rid) :])
    # engine id, user name and salt belong in the header, whatever they are
    (a, b), (c, d), (e, f) = p["engine_at"], p["user_at"], p["priv_at"]
    for where, parts in (("clear part", [raw[:a], raw[b:c], raw[d:e], raw[f : p["data_at"]]]), ("ciphertext", [p["cipher"]])):
        for clear in parts:
            for o in oids:
                body = ber.oid_body(o)
                if len(body) >= 6 and body in clear:
                    raise Violation(f"OID {snmp.dotted(o)} is readable in the {where} of {raw.hex()}")
            if len(eng) >= 8 and eng in clear:
                raise Violation(f"the context engine id {eng.hex()} is readable in the {where} of {raw.hex()}")
            for w in runs:
                if w in clear:
                    raise Violation(f"octets {w.hex()} of the scoped PDU are readable in the {where} of {raw.hex()}")


# --------------------------------------------------------------- history
EDGE32 = [(1 << 32) - k for k in (1, 2, 3, 4)] + [(1 << 31) - 1, (1 << 31) - 2, (1 << 16) - 2, (1 << 24) - 2, 254, 0, 0xFFFF0000 - 1, 0x7F]
EDGE64 = [(1 << 64) - k for k in (1, 2, 3, 4)] + [(1 << 63) - 2, (1 << 32) - 2, (1 << 31) - 2, (1 << 33) - 2, (1 << 53) - 2, (1 << 48) - 2, (1 << 16) - 2, 0, 0xFFFFFFFE00000000 + 0xFFFFFFFE]


def engine(s):
    if s.chance(3):
        return s.bytes(5, 64)
    return gen.engine(s)


def strategy(s):
    case = history.gen_case(s, levels=("priv",), engine=engine, n=(2, 8), ops=("get", "get", "many", "next", "bulk", "refresh", "huge"))
    case["edge"] = [s.choice(EDGE32), s.choice(EDGE64)] if s.bool() else None
    return case


def on_msg(run, agent, raw, p, op):
    c = run.case["conf"]
    if op is None:
        if p.get("vars"):
            raise Violation(f"the discovery message asks for {p['vars']} in clear: {raw.hex()}")
        return
    run.salts.check(p, run.failed, raw)
    plain = crypt.priv_decrypt(c["palg"], snmp.conf_keys(c, p["engine_id"])[1], p["boots"], p["time"], p["priv"], p["cipher"])
    check_leak(raw, p, plain, history.asked(op, p)[1], c["user"].encode())


def run(lib, case):
    if case["edge"] and lib.rng.active:
        lib.rng.seed(case["rng"], u32=[case["edge"][0]] * 4, u64=[case["edge"][1]] * 4)
    r = history.Run(lib, case, on_msg)
    r.salts = Salts(case["conf"]["palg"])
    labels = r.play()
    return labels + [f"messages:{min(r.salts.n, 9)}", "edge" if case["edge"] else "free"], r.salts.n >= 2


# ------------------------------------------------------------------ long
def long_strategy(s):
    conf = gen.conf_v3(s, levels=("priv",), types=(1, 2))
    api = s.choice(("raw", "raw", "raw", "raw", "raw", "raw", "sync", "async"))
    return {"conf": conf, "api": api, "n": s.choice((50, 300, 1000)) if api == "raw" else s.int(5, 40), "rng": s.below(1 << 32), "rekey": s.choice((0, 0, 7, 100)),
            "edge": [s.choice(EDGE32), s.choice(EDGE64)] if s.bool() else None}


def run_long(lib, case):
    import random

    rnd = random.Random(case["rng"])
    c = case["conf"]
    if case["edge"] and lib.rng.active:
        lib.rng.seed(case["rng"], u32=[case["edge"][0]] * 4, u64=[case["edge"][1]] * 4)
    if case["api"] == "raw":
        return long_raw(lib, case, c, rnd)
    return long_session(lib, case, c, rnd)


def light(raw):
    """(flags, boots, salt, ciphertext) without building the whole parse."""
    return snmp.parse(raw, strict=False)


def long_raw(lib, case, c, rnd):
    agent = Agent(c, boots=1, time=1)
    labels = ["raw", f"p{c['palg']}"]
    try:
        sock = snmp.make_sock(lib, c, agent.port)
        salts = Salts(c["palg"])
        failed = 0
        its = [lib.fast.GetIter("1.3.6.1.2", None), lib.fast.GetIter("1.3.6.1.2", 10)]
        big = ["1.3.6.1.4.1." + ".".join(["4294967295"] * 20)] * 60
        sends = [
            lambda: sock.send_get("1.3.6.1.2.1.1.1.0"),
            lambda: sock.send_get_many(["1.3.6.1.2.1.1.%d.0" % rnd.randrange(99) for _ in range(rnd.randrange(8))]),
            lambda: sock.send_get_next(its[0]),
            lambda: sock.send_get_bulk(its[1]),
            sock.send_refresh,
        ]
        pend = 0
        todo = case["n"]
        while todo:
            if case["rekey"] and todo % case["rekey"] == 0:
                pend = drain(agent, salts, pend, failed, None)
                sock.set_keys(c["user"], code(c["aalg"], c["akt"]), c["akey"], code(c["palg"], c["pkt"]), c["pkey"])
                salts = Salts(c["palg"])
                failed = 0
                labels.append("rekeyed")
            if rnd.randrange(40) == 0:
                # the counter may move on: taken up before the next message
                pend = drain(agent, salts, pend, failed, None)
                try:
                    sock.send_get_many(big)
                except Exception:  # noqa: BLE001
                    failed += 1
                else:
                    raise Violation("an oversized request was sent")
            sends[rnd.randrange(5)]()
            pend += 1
            todo -= 1
            if pend >= 100 or rnd.randrange(30) == 0:
                last = drain(agent, salts, pend, failed, sock)
                pend = 0
                if last is not None and rnd.randrange(2):
                    # an answer to the last one, with other boots and time
                    p = agent.open(last)
                    agent.boots, agent.time = rnd.randrange(1 << 31), rnd.randrange(1 << 31)
                    agent.send(agent.report(p, plain=False))
                    if snmp.ready(sock):
                        try:
                            sock.recv_refresh()
                        except (BlockingIOError, lib.SnmpError):
                            pass
        drain(agent, salts, pend, failed, sock)
        return labels, case["n"] >= 2
    finally:
        agent.close()


def drain(agent, salts, pend, failed, sock):
    """Read what has been sent; the last message (parsed) or, without sock, 0."""
    last = None
    for _ in range(pend):
        raw = agent.recv()
        last = snmp.parse(raw, strict=False)
        salts.check(last, failed, raw)
    return last if sock is not None else 0


def long_session(lib, case, c, rnd):
    """Through the clients: answered, unanswered and refused requests."""
    salts = Salts(c["palg"])
    st = {"failed": 0, "mode": "ok"}

    def handler(agent, raw):
        p = snmp.parse(raw, strict=False)
        salts.check(p, st["failed"], raw)
        if st["mode"] == "silent":
            return []
        agent.open(p)
        if st["mode"] == "report":
            return [agent.report(p)]
        if not p["vars"]:
            return [agent.report(p, plain=False)]
        return [agent.response(p, [snmp.varbind(list(p["vars"][0][0]) + [1], ber.enc_int(1))])]

    with Driver(lib, c, case["api"], handler, boots=rnd.randrange(1 << 31), time=5, timeout=0.03) as d:
        for _ in range(case["n"]):
            st["mode"] = rnd.choice(("ok", "ok", "ok", "silent", "report"))
            n = d.served
            k = rnd.randrange(6)
            if k == 0:
                d.refresh()
            elif k == 1:
                d.get_many(["1.3.6.1.2.1.1.%d.0" % i for i in range(1, 4)])
            elif k == 2:
                d.walk(rnd.choice(("next", "bulk")), "1.3.6.1", 2)
            elif k == 3:
                try:
                    d.get_many(["1.3.6.1.4.1." + ".".join(["4294967295"] * 20)] * 60)
                except snmp.Harness:
                    pass
                st["failed"] += 1
                continue
            else:
                d.get("1.3.6.1.2.1")
            d.await_requests(n + 1)
    return [case["api"], f"p{c['palg']}"], salts.n >= 2


def long_explicit(tier):
    """Beyond 2^16 messages, which a narrow counter would not survive."""
    out = []
    for aalg, n in ((1, 16), (2, 20)):
        for palg in (1, 2):
            conf = {"v": 3, "engine_id": b"\x80\0\x1f\x88\x04long", "user": "user", "aalg": aalg, "akt": 2, "akey": bytes(range(n)), "palg": palg, "pkt": 2, "pkey": bytes(range(50, 50 + n))}
            for edge in [None] if aalg == 1 else []:
                out.append({"conf": conf, "api": "raw", "n": 70000 if tier == "quick" else 200000, "rng": 1, "rekey": 0, "edge": edge})
            for i in range(len(EDGE64)):
                out.append({"conf": conf, "api": "raw", "n": 300, "rng": i, "rekey": 0, "edge": [EDGE32[i % len(EDGE32)], EDGE64[i]]})
    return out


# -------------------------------------------------------------- deferred
def deferred_strategy(s):
    return {
        "conf": gen.conf_v3(s, levels=("priv",), engine=engine),
        "api": s.choice(("sync", "async")),
        "ops": s.list(lambda s: [s.choice(("get", "many", "next", "bulk", "fetch")), gen.oid(s, 6, 20)], 1, 3),
        # does the agent answer discovery before that?
        "answer": s.choice(("never", "late", "other")),
    }


def run_deferred(lib, case):
    c = case["conf"]
    st = {"answer": case["answer"] == "other", "ok": False}
    texts = [ber.oid_body(o) for _, o in case["ops"]]

    def handler(agent, raw):
        p = snmp.parse(raw, strict=False)
        if p["engine_id"] == b"":
            for t in texts:
                if t in raw:
                    raise Violation(f"before discovery, the request goes in clear: {raw.hex()}")
            if p.get("vars"):
                raise Violation(f"before discovery, {p['vars']} is sent in clear: {raw.hex()}")
            return [agent.report(p, user=p["user"])] if st["ok"] else []
        if p["cipher"] is None or not p["flags"] & 2:
            raise Violation(f"a privacy session sent a message in clear: {raw.hex()}")
        agent.open(p)
        if not p["vars"]:
            return [agent.report(p, plain=False)]
        return [agent.response(p, [snmp.varbind(list(p["vars"][0][0]), ber.enc_int(7))])]

    with Driver(lib, c, case["api"], handler, boots=1, time=1, timeout=0.02, discover=True) as d:

        def use():
            for kind, o in case["ops"]:
                t = snmp.dotted(o)
                if kind == "get":
                    d.get(t)
                elif kind == "many":
                    d.get_many([t, "1.3.6"])
                else:
                    d.walk(kind, t, 1)
            # let a stray datagram be seen
            if case["api"] == "sync":
                d.activate()
                time.sleep(0.001)
            else:
                drive.loop().run_until_complete(drive.asyncio.sleep(0))
            d.finish(None)

        use()
        if case["answer"] == "never":
            d.refresh()
            use()
        st["ok"] = True
        if hasattr(d.session, "_timeout"):
            d.session._timeout = 4.0
        k, v = d.refresh()
        if k == "ok":
            d.get(snmp.dotted(case["ops"][0][1]))
        if k == "exc":
            raise Violation(f"refresh after refused requests: {type(v).__name__}: {v}")
        d.finish(None)
    return [case["api"], f"p{c['palg']}", case["answer"], "discovered" if k == "ok" else "late"], True


PARTS = [
    Part("history", strategy, run, quick=35000, thorough=2000000, explicit=None),
    Part("deferred", deferred_strategy, run_deferred, quick=1500, thorough=100000),
    Part("long", long_strategy, run_long, quick=160, thorough=20000, explicit=long_explicit),
]
