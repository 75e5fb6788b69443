"""C17: oversized requests fail cleanly; buffer code stays in bounds."""

from vlib import ber, crypt, gen, snmp, wire
from vlib.drive import Driver
from vlib.runner import HarnessPart, Part, Violation

crypt.selftest()

ID = "C17"
RULE = (
    "size: a session (v1, v2c, v3 at every level; community, user and engine id of every size up to beyond the buffer; raw "
    "socket, sync, async) and 1-6 requests (get, get_many, getnext, getbulk) whose sizes are tuned octet by octet to land around 4080, "
    "around every 127/128 and 255/256 boundary of an enclosing length, or anywhere to 9000. Oracle: the size of the message an "
    "independent encoder builds; a message that fits arrives complete and strictly minimal, another raises SnmpEncodeError "
    "and nothing arrives, and the session goes on. Explicit: every size of 4060-4100 octets for every level and operation, and every size from 20 to 600. ops (Rust): sequences of buffer operations against a vector "
    "model, on memory between inaccessible pages and with canaries in what was never written. Non-trivial: a request of 120 octets or more, or a refused one; "
    "a sequence of three or more operations."
)
ASSUMPTIONS = [
    "a message is at most 4080 octets, as the property states",
    "AES may pad or not: sizes for which this decides are free, as are sizes that depend on the encoded size of an unknown id",
]
MAX = 4080


# ------------------------------------------------------ independent sizes
def hdr(n):
    return n + (2 if n < 128 else 3 if n < 256 else 4 if n < 65536 else 5)


def oid_len(o):
    """o: {"head": arcs, "fill": n, "arc": a}: arcs, then n arcs a."""
    return len(ber.oid_body(o["head"])) + o["fill"] * arc_len(o["arc"])


def arc_len(a):
    n = 1
    while a > 127:
        a >>= 7
        n += 1
    return n


def arcs(o):
    return list(o["head"]) + [o["arc"]] * o["fill"]


def size(c, kind, oids, mx, idl, pad, midl=None):
    """Octets of the whole message, for ids of idl (and midl) octets and
    privacy padding to a multiple of pad."""
    vb = hdr(sum(hdr(hdr(oid_len(o)) + 2) for o in oids))
    third = len(ber.enc_int(mx)) if kind == "bulk" else 3
    pdu = hdr(2 + idl + 3 + third + vb)
    if c["v"] != 3:
        return hdr(3 + hdr(len(c["community"].encode())) + pdu)
    el = len(c["engine_id"])
    scoped = hdr(hdr(el) + 2 + pdu)
    if c["palg"]:
        scoped = hdr((scoped + pad - 1) // pad * pad)
    usm = hdr(hdr(hdr(el) + 3 + 3 + hdr(len(c["user"].encode())) + (14 if c["aalg"] else 2) + (10 if c["palg"] else 2)))
    # msgID, msgMaxSize (2048), msgFlags, msgSecurityModel
    glob = hdr(2 + (idl if midl is None else midl) + 4 + 3 + 3)
    return hdr(3 + glob + usm + scoped)


def bounds(c, kind, oids, mx, p=None):
    """Least and greatest size; p: the message which was sent, if any."""
    pads = {0: (1, 1), 1: (8, 8), 2: (1, 16)}[c.get("palg", 0)]
    if p:
        r, m = len(ber.int_body(p["id"])), len(ber.int_body(p.get("msg_id", 0)))
        return size(c, kind, oids, mx, r, pads[0], m), size(c, kind, oids, mx, r, pads[1], m)
    return size(c, kind, oids, mx, 1, pads[0]), size(c, kind, oids, mx, 4, pads[1])


# -------------------------------------------------------------- strategy
TARGETS = (120, 127, 128, 129, 140, 255, 256, 257, 270, 300, 350, 2048)


def big_text(s):
    k = s.below(5)
    if k <= 1:
        return "c" * s.int(0, 12)
    if k == 2:
        return "c" * s.choice((126, 127, 128, 129, 255, 256, 257))
    if k == 3:
        return "c" * s.int(3900, 4100)
    return "\u00e9" * s.int(0, 2100)


def gen_op(s, c):
    kind = s.choice(("get", "many", "many", "next", "bulk"))
    if c["v"] == 1 and kind == "bulk":
        kind = "next"
    n = 1 if kind != "many" else s.choice((0, 1, 2, 5, 30, 100, 250)) if s.bool() else s.int(0, 620)
    arc = s.choice((1, 1, 127, 128, 16384, (1 << 28), (1 << 32) - 1))
    fill = s.choice((0, 1, 6, 20))
    t = s.below(4)
    if t == 0:
        target = MAX + s.int(0, 40) - 20
    elif t == 1:
        target = s.choice(TARGETS) + s.int(0, 8) - 4
    elif t == 2:
        target = s.int(20, 9000)
    else:
        target = 0
    return {"kind": kind, "n": n, "arc": arc, "fill": fill, "target": target, "max": s.choice((1, 20, 127, 128, 32768, (1 << 31) - 1)), "wide": s.bool(),
            "short": kind == "many" and s.bool()}


def strategy(s):
    c = gen.any_conf(s)
    if s.bool():
        if c["v"] == 3:
            c["user"] = big_text(s)
            if s.chance(4):
                c["engine_id"] = b"\x80" + bytes(s.choice((126, 127, 128, 255, 256, 1000, 4000)))
        else:
            c["community"] = big_text(s)
    return {"conf": c, "api": s.choice(("raw", "raw", "raw", "raw", "sync", "async")), "ops": s.list(lambda s: gen_op(s, c), 1, 6), "rng": s.below(1 << 32)}


def tune(c, op):
    """OIDs for the operation: the last ones grow until the target is met."""
    oids = [{"head": [1, 3] if op.get("short") else [1, 3, 6, 1], "fill": 0 if op.get("short") else op["fill"], "arc": op["arc"]} for _ in range(op["n"])]
    mx = op["max"]

    def sz():
        return size(c, op["kind"], oids, mx, 4, 8 if c.get("palg") == 1 else 1)

    if op["target"] and oids:
        last = oids[-1]
        last["fill"], last["arc"] = 0, 1
        if op["wide"]:
            last["head"] = [1, 3, 4294967295, 128]
        lo, hi = 0, 9000
        while lo < hi:
            m = (lo + hi) // 2
            last["fill"] = m
            if sz() < op["target"]:
                lo = m + 1
            else:
                hi = m
        last["fill"] = lo
    return oids


# ------------------------------------------------------------------- run
def run(lib, case):
    c = case["conf"]
    if lib.rng.active:
        # ids of four octets, so that the targets are met
        lib.rng.seed(case["rng"], u64=[0x40000000 | (case["rng"] + i) & 0xFFFFFF for i in range(200)])
    labels = [case["api"], f"v{c['v']}" + ("p%d" % c["palg"] if c.get("palg") else "a" if c.get("aalg") else "")]
    st = {"engine_id": c.get("engine_id"), "boots": 0, "time": 0, "user": c.get("user")}
    exp = {}
    nt = False

    def handler(agent, raw):
        kind, oids, mx, o = exp["op"]
        exp["n"] += 1
        if len(raw) > MAX:
            raise Violation(f"{kind}: a message of {len(raw)} octets is sent")
        tag = {"get": snmp.GET, "many": snmp.GET, "next": snmp.GETNEXT, "bulk": snmp.GETBULK}[kind]
        try:
            p = wire.check_request(raw, c, st, tag, oids, 0, mx if kind == "bulk" else 0, agent.keys if c["v"] == 3 else None)
        except ber.BerError as e:
            raise Violation(f"{kind}: the {len(raw)}-octet message is not complete minimal BER ({e}): {raw.hex()}") from e
        lo, hi = bounds(c, kind, o, mx, p)
        if not lo <= len(raw) <= hi:
            raise Violation(f"{kind}: {len(raw)} octets are sent, {lo}-{hi} expected: {raw.hex()}")
        if case["api"] == "raw":
            return []
        n = list(oids[0][:100]) if oids else [1, 3]
        return [agent.response(p, [snmp.varbind(n + [1] if tag != snmp.GET else n, ber.enc_int(1))])]

    with Driver(lib, c, case["api"], handler, boots=0, time=0, timeout=4.0) as d:
        for op in case["ops"]:
            kind, mx = op["kind"], op["max"]
            o = tune(c, op)
            lo, hi = bounds(c, kind, o, mx)
            if case["api"] == "raw":
                d.max_rep = mx
            full = [arcs(x) for x in o]
            exp.update(op=(kind, full, mx, o), n=0)
            k, v = call(lib, d, case["api"], kind, [snmp.dotted(x) for x in full], mx)
            what = f"{kind} of {len(full)} OIDs ({lo}-{hi} octets)"
            if k == "sent":
                if lo > MAX:
                    raise Violation(f"{what} does not fit, yet no exception")
                if exp["n"] != 1:
                    raise Violation(f"{what}: {exp['n']} messages sent", soft=True)
                labels.append("sent" + (":big" if lo > 4000 else ""))
                nt = nt or lo >= 120
            else:
                if hi <= MAX:
                    raise Violation(f"{what} fits, yet {type(v).__name__}: {v}")
                if not isinstance(v, lib.SnmpEncodeError):
                    raise Violation(f"{what}: {type(v).__name__} instead of SnmpEncodeError: {v}")
                if exp["n"] or d.agent.pending():
                    raise Violation(f"{what} is refused, yet sent")
                labels.append("refused" + (":near" if lo < 4200 else ""))
                nt = True
    return labels, nt


def call(lib, d, api, kind, texts, mx):
    if api == "raw":
        s = d.sock
        try:
            if kind == "get":
                s.send_get(texts[0])
            elif kind == "many":
                s.send_get_many(texts)
            else:
                it = lib.fast.GetIter(texts[0], mx if kind == "bulk" else None)
                (s.send_get_bulk if kind == "bulk" else s.send_get_next)(it)
        except Exception as e:  # noqa: BLE001
            return "exc", e
        d.serve(d.agent.recv())
        d.finish(None)
        return "sent", None
    n = d.served
    if kind == "get":
        k, v = d.get(texts[0])
    elif kind == "many":
        k, v = d.get_many(texts)
    else:
        items, end = d.walk(kind, texts[0], 1, mx if kind == "bulk" else None)
        if items:
            return "sent", None
        k, v = ("exc", end) if isinstance(end, Exception) else ("wait" if end == "wait" else "sent", None)
    # what becomes of the reply, itself near the limit, is not judged here
    if k == "exc" and isinstance(v, lib.SnmpEncodeError):
        return k, v
    d.await_requests(n + 1)
    return (k, v) if k == "exc" and d.served == n else ("sent", None)


def explicit(tier):
    out = []
    conf0 = {"v": 3, "engine_id": b"\x80\0\x1f\x88\x04abcdef", "user": "user", "aalg": 0, "akt": 0, "akey": b"", "palg": 0, "pkt": 0, "pkey": b""}
    a = {"aalg": 1, "akt": 2, "akey": bytes(range(16))}
    confs = [{"v": 1, "community": "public"}, {"v": 2, "community": "public"}, conf0, {**conf0, **a},
             {**conf0, **a, "palg": 1, "pkt": 2, "pkey": bytes(range(16))}, {**conf0, **a, "palg": 2, "pkt": 2, "pkey": bytes(range(16))}]
    for c in confs:
        for kind in ("get", "many", "next", "bulk"):
            if c["v"] == 1 and kind == "bulk":
                continue
            for n, fill in ((1, 0), (100, 6), (250, 2)) if kind == "many" else ((1, 0),):
                tg = list(range(4056, 4104)) + (list(range(20, 600)) if n == 1 else [])
                ops = [{"kind": kind, "n": n, "arc": 1, "fill": fill, "target": t, "max": 20, "wide": False} for t in tg]
                step = 16
                for i in range(0, len(ops), step):
                    out.append({"conf": c, "api": "raw", "ops": ops[i : i + step], "rng": i})
                if n == 1 and kind in ("get", "bulk"):
                    for api in ("sync", "async"):
                        out.append({"conf": c, "api": api, "ops": ops[8:40:2], "rng": 5})
    # every number of OIDs
    for c in confs:
        ops = [{"kind": "many", "n": n, "arc": 1, "fill": 0, "target": 0, "max": 20, "wide": False, "short": True} for n in range(0, 600, 1 if tier == "thorough" or c is confs[1] else 5)]
        for i in range(0, len(ops), 16):
            out.append({"conf": c, "api": ("raw", "sync", "async")[i // 16 % 3], "ops": ops[i : i + 16], "rng": i})
    # community and user of every size around the limit
    o = [{"kind": k, "n": 1, "arc": 1, "fill": 2, "target": 0, "max": 20, "wide": False} for k in ("get", "many", "next")]
    for v in (1, 2):
        for n in list(range(0, 300)) + list(range(4000, 4090)):
            out.append({"conf": {"v": v, "community": "c" * n}, "api": "raw", "ops": o, "rng": 1})
    for c in confs[2:]:
        for n in list(range(100, 270, 1 if tier == "thorough" else 3)) + list(range(3900, 4090)):
            out.append({"conf": {**c, "user": "u" * n}, "api": "raw", "ops": o, "rng": 1})
    return out


def shards(tier):
    n = 15000 if tier == "quick" else 2000000
    return [["--shard", str(i), "--of", "8", "--random", str(n)] for i in range(8)]


HARNESS = [HarnessPart("ops", "c17", shards)]
PARTS = [Part("size", strategy, run, quick=32000, thorough=1500000, explicit=explicit)]
