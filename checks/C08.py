"""C08: the OID sent is the OID asked for; invalid OID text is refused."""

import re

from vlib import ber, gen, snmp
from vlib.drive import Driver
from vlib.runner import Part, Violation
from vlib.snmp import dotted

ID = "C08"
RULE = (
    "text: a case is a session (every version, security level and API) and 1-8 calls (get, get_many, getnext, getbulk, "
    "fetch) with OID texts: canonical ones (boundary arcs, up to 120 arcs), range violations, and every kind of malformed "
    "text by mutation (signs, spaces, empty arcs, leading zeros, hex, wide numbers that wrap, Unicode digits, NUL). Oracle: an "
    "independent grammar says must-accept / exact-or-refused / must-refuse; the wire is decoded strictly, and a refused "
    "text must put nothing on it. echo: OIDs in replies (keys and values) must come back as their text, and that text must "
    "be sent as the same OID. Explicit: all first pairs, all boundary arcs at all positions. Non-trivial: a text other than "
    "a canonical one with single-octet arcs only."
)
ASSUMPTIONS = [
    "texts which denote an OID outside the must-accept set (leading zeros, 2.40 and up, arcs over 2^32-1) may be refused or sent exactly",
    "signs, spaces, empty arcs and other characters make a text invalid: it must be refused",
]

U32 = gen.U32
CANON = re.compile(r"(0|[1-9][0-9]*)(\.(0|[1-9][0-9]*))+\Z")
ZEROS = re.compile(r"[0-9]+(\.[0-9]+)+\Z", re.A)


def denote(t):
    """(must the text be accepted, the arcs it denotes or None)."""
    if CANON.match(t):
        arcs = [int(x) for x in t.split(".")]
        if arcs[0] <= 2 and arcs[1] <= 39:
            return max(arcs) <= U32, arcs
        if arcs[0] == 2:
            return False, arcs
        return False, None
    # leading zeros: may be sent, but as that OID only
    if ZEROS.match(t):
        arcs = [int(x) for x in t.split(".")]
        if arcs[0] <= 2 and (arcs[1] <= 39 or arcs[0] == 2):
            return False, arcs
    return False, None


BAD = ["", ".", "..", "1", "0", "2", "3.1", "1.", ".1", "1..3", "1.3..6", "a", "1.a", "1.3.6a", "1.3.6.-1", "-1.3.6", "1.-3.6", "1.3.6.1e2", "1.3.0x10", "1,3,6", "1.3 .6",
       "1.3.6.1.\u0661", "\uff11.3.6", "1.3.6\0", "1.3\0.6", "iso.3.6", "1.40", "0.40", "1.4294967295", "0.255", "9.9", "40.1", "256.3.6", "4294967297.3.6",
       "1.4294967299.6", "1.259.6", "18446744073709551617.3", "1.18446744073709551619.6", "1.3.6.4294967296", "1.3.6.18446744073709551616", "1.3.6.18446744073709551617.5",
       "1.3.6.99999999999999999999999999", "1.3.6.4294967296.1", "2.40", "2.47", "2.48", "2.999.3", "2.4294967295", "2.4294967216", "2.4294967215", "01.3.6", "1.03.6", "1.3.006", "+1.3.6", "1.+3.6",
       " 1.3.6", "1.3.6 ", "1.3.6\n", ".1.3.6", "1.3.6.", "1.3.6..", "1. 3.6", "1.3.6.1_000", "1.3.6.0b1", "--", "1.3.6.\ud800", "3.0.0", "255.39", "1.3.6.1.", "1.3.6.1/2", "1.3.6.1:", "1.3;6"]


def gen_text(s):
    k = s.below(8)
    if k <= 2:
        return dotted(gen.oid(s, 2, s.choice((4, 8, 16, 60, 120))))
    if k == 3:
        return s.choice(BAD)
    o = gen.oid(s, 2, 8)
    parts = [str(x) for x in o]
    if k == 4:
        # an arc too large, at any position, that may wrap into range
        i = s.below(len(parts))
        m = s.choice((1 << 32, 1 << 64, 1 << 8, 1 << 31, 1 << 35, 1 << 63, 1 << 128, 40, 80))
        parts[i] = str(o[i] + m * s.int(1, 3))
        return ".".join(parts)
    if k == 5:
        parts[0] = str(s.int(0, 5))
        parts[1] = str(s.int(30, 300) if s.bool() else s.below(1 << 33))
        return ".".join(parts)
    t = ".".join(parts)
    i = s.below(len(t) + 1)
    c = s.choice((".", "0", "-", "+", " ", "a", "\0", "\n", "_", ",", "e", "x", "\u0661", "\u00b2", "/", ":", "1"))
    if k == 6:
        return t[:i] + c + t[i:]
    j = s.below(2)
    return t[:i] + (c if j else "") + t[i + 1 :]


def strategy(s):
    conf = gen.any_conf(s)
    calls = []
    for _ in range(s.int(1, 8)):
        op = s.choice(("get", "many", "next", "bulk", "fetch"))
        if conf["v"] == 1 and op == "bulk":
            op = "next"
        calls.append({"op": op, "texts": [gen_text(s) for _ in range(s.int(1, 4) if op == "many" else 1)]})
    return {"conf": conf, "api": s.choice(("raw", "raw", "raw", "sync", "async")), "calls": calls}


TAGS = {"get": (snmp.GET,), "many": (snmp.GET,), "next": (snmp.GETNEXT,), "bulk": (snmp.GETBULK,), "fetch": (snmp.GETBULK, snmp.GETNEXT)}


def run_text(lib, case):
    c = case["conf"]
    seen = []

    def handler(agent, raw):
        try:
            p = agent.open(snmp.parse(raw, strict=True))
        except ber.BerError as e:
            raise Violation(f"request is not canonical BER ({e}): {raw.hex()}") from e
        seen.append([list(o) for o, _, _ in p["vars"]])
        return [agent.response(p, [])]

    want = []
    labels = [f"v{c['v']}", case["api"]]
    nt = False
    with Driver(lib, c, case["api"], handler) as d:
        for call in [*case["calls"], {"op": "get", "texts": ["1.3.6.1.2.1"]}]:
            op, texts = call["op"], call["texts"]
            n = len(seen)
            if op == "get":
                k, v = d.get(texts[0])
            elif op == "many":
                k, v = d.get_many(texts)
            else:
                items, v = d.walk(op, texts[0], 1)
                k = "exc" if isinstance(v, BaseException) else "wait" if v == "wait" else "ok"
            where = f"v{c['v']} {case['api']} {op} {texts!r}"
            den = [denote(t) for t in texts]
            must = all(m for m, _ in den)
            arcs = [a for _, a in den]
            nt = nt or any(not m or max(a) > 127 for m, a in den)
            if k == "wait":
                raise Violation(f"{where}: the reply was not accepted", soft=True)
            if k == "exc" and len(seen) == n:
                if must:
                    big = sum(len(ber.enc_oid(a)) + 4 for a in arcs) > 3500
                    if not (big and isinstance(v, lib.SnmpEncodeError)):
                        raise Violation(f"{where}: refused ({type(v).__name__}: {v}), although it is a valid OID")
                labels.append("refused")
            elif k == "exc":
                raise Violation(f"{where}: raised {type(v).__name__}: {v} after sending {seen[-1]}")
            else:
                if None in arcs:
                    raise Violation(f"{where}: denotes no OID, yet {[dotted(o) for o in seen[-1]]} was sent")
                want.append(arcs)
                if seen[len(want) - 1 :] != [arcs]:
                    raise Violation(f"{where}: sent as {[[dotted(o) for o in x] for x in seen[len(want) - 1 :]]}")
                labels.append("exact" if must else "lenient-exact")
    if seen != want:
        raise Violation(f"{[x['texts'] for x in case['calls']]}: datagrams {seen}, expected {want}")
    return labels, nt


def explicit_text(tier):
    confs = [{"v": 1, "community": "public"}, {"v": 2, "community": "public"},
             {"v": 3, "engine_id": b"\x80\0\0\0\1", "user": "u", "aalg": 1, "akt": 2, "akey": b"k" * 16, "palg": 1, "pkt": 2, "pkey": b"p" * 16}]
    texts = list(BAD)
    texts += [f"{a}.{b}" for a in range(4) for b in range(42)]
    texts += [f"{a}.{b}.{x}" for a, b in ((0, 0), (1, 3), (2, 39)) for x in gen.EDGE_ARCS]
    for n in (3, 4, 5, 8, 9, 10, 12, 16, 32, 64, 120, 127, 128):
        for x in (0, 1, 127, 128, 16384, 1 << 28, U32):
            texts.append("1.3." + ".".join([str(x)] * (n - 2)))
            texts.append("1.3." + ".".join(["1"] * (n - 3) + [str(x)]) if n > 3 else f"1.3.{x}")
    for k in range(33):
        for dlt in (-1, 0, 1):
            texts.append(f"1.3.{(1 << k) + dlt}.7")
    out = []
    for c in confs:
        for i in range(0, len(texts), 10):
            for op in ("get", "next"):
                out.append({"conf": c, "api": "raw", "calls": [{"op": op, "texts": [t]} for t in texts[i : i + 10]]})
            out.append({"conf": c, "api": ("sync", "async")[i // 10 % 2], "calls": [{"op": "many", "texts": ["1.3.6", t]} for t in texts[i : i + 10]]})
    return out


# --------------------------------------------------------------------- echo
def gen_echo_oid(s):
    o = gen.recv_oid(s, s.choice((3, 6, 16, 40, 128)))
    if s.chance(5):
        # one multi-octet arc among small ones, anywhere
        o = [1, 3] + [s.below(3) for _ in range(s.int(1, 20))]
        o[s.int(2, len(o) - 1)] = s.choice(gen.EDGE_ARCS)
    return o


def echo_strategy(s):
    return {"conf": gen.any_conf(s), "api": s.choice(("raw", "raw", "raw", "raw", "sync", "async")), "oids": s.list(gen_echo_oid, 1, 6)}


def run_echo(lib, case):
    c = case["conf"]
    oids = case["oids"]
    st = {"n": 0, "oids": None}

    def handler(agent, raw):
        p = agent.open(snmp.parse(raw, strict=True))
        st["n"] += 1
        if st["n"] == 1:
            vbs = [snmp.varbind(o, gen.value_tlv(["oid", oids[-1 - i]])) for i, o in enumerate(oids)]
            return [agent.response(p, vbs)]
        st["oids"] = [list(o) for o, _, _ in p["vars"]]
        return [agent.response(p, [])]

    uniq = {}
    for i, o in enumerate(oids):
        uniq[dotted(o)] = dotted(oids[-1 - i])
    if sum(len(ber.oid_body(o)) + 8 for o in oids) * 2 > 3300:
        return ["too-big"], False
    with Driver(lib, c, case["api"], handler) as d:
        k, v = d.get_many(["1.3.6"])
        if k == "wait":
            raise Violation("reply not accepted", soft=True)
        if k != "ok":
            raise Violation(f"OIDs {list(uniq)}: {type(v).__name__}: {v}")
        if set(v) != set(uniq):
            raise Violation(f"OIDs {sorted(uniq)} are rendered as {sorted(v)}")
        for o, x in v.items():
            if x != uniq[o] and [dotted(q) for q in oids].count(o) == 1:
                raise Violation(f"OBJECT IDENTIFIER value {uniq[o]} is rendered as {x!r}")
        # and back
        texts = list(v)
        k, x = d.get_many(texts)
        if k == "exc":
            if all(denote(t)[0] for t in texts) and not isinstance(x, lib.SnmpEncodeError):
                raise Violation(f"received OIDs {texts} are refused in a request: {type(x).__name__}: {x}")
        elif k == "wait":
            raise Violation("reply not accepted", soft=True)
        elif [dotted(o) for o in st["oids"]] != texts:
            raise Violation(f"{texts} sent back as {[dotted(o) for o in st['oids']]}")
    return [f"v{c['v']}", case["api"], "back:" + k], any(max(o) > 127 or len(o) > 9 for o in oids)


def explicit_echo(tier):
    c = {"v": 2, "community": "public"}
    out = []
    for a in range(3):
        for b in range(40):
            out.append({"conf": c, "api": "raw", "oids": [[a, b], [a, b, 0], [a, b, 1]]})
    for x in [*range(40, 200), 999, 1000, 16303, 16304, 16383, 16384, (1 << 21) - 81, 1 << 21, (1 << 28) - 81, 1 << 28, (1 << 31) - 81, 1 << 31, U32 - 81, U32 - 80]:
        out.append({"conf": c, "api": "raw", "oids": [[2, x], [2, x, 0]]})
    for n in range(3, 129):
        for x in (0, 127, 128, U32):
            out.append({"conf": c, "api": "raw", "oids": [[1, 3, *[x] * (n - 2)]]})
            out.append({"conf": c, "api": "raw", "oids": [[1, 3, *[1] * (n - 3), x]]})
    for k in range(33):
        for dlt in (-1, 0, 1):
            x = (1 << k) + dlt
            if 0 <= x <= U32:
                out.append({"conf": c, "api": "raw", "oids": [[1, 3, x], [1, 3, x, x], [1, 3, 0, x, 0]]})
    return out


PARTS = [
    Part("text", strategy, run_text, quick=90000, thorough=2500000, explicit=explicit_text),
    Part("echo", echo_strategy, run_echo, quick=90000, thorough=2500000, explicit=explicit_echo),
]
