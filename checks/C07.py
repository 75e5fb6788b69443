"""C07: get / get_many results and SNMP exceptions map as documented."""

from vlib import ber, gen, snmp
from vlib.drive import Driver
from vlib.history import repeated
from vlib.runner import Part, Violation
from vlib.snmp import dotted

ID = "C07"
RULE = (
    "A case is a session (every version, security level and API) and 1-4 calls, each answered by the matching reply: 0-6 (or up to 350) "
    "varbinds of any value, NULL or exception value, under asked, other and repeated OIDs, with any error-status, or (v3) "
    "a Report, in clear or at the session's level. Oracle: the documented mapping. All single values and all pairs of "
    "value kinds are also run explicitly. Non-trivial: a call is answered by anything but one plain data value."
    " long: 260-700 calls over one session."
)
ASSUMPTIONS = ["of several real values returned for one OID, get_many may hand over any"]

EXC = {"null": b"\x05\x00", "noobj": snmp.NO_OBJECT, "noinst": snmp.NO_INSTANCE, "eomv": snmp.END_OF_MIB}


def gen_value(s):
    k = s.below(8)
    if k < 4:
        return gen.value(s)
    return [("null", "noobj", "noinst", "eomv")[k - 4]]


def gen_call(s, v3):
    op = s.choice(("get", "get", "many", "many", "many"))
    asked = [gen.oid(s, 2, 8) for _ in range(1 if op == "get" else s.int(0, 5))]
    if asked and s.chance(10):
        asked[0] = gen.deep_oid(s)[:100]
    if v3 and s.chance(6):
        return {"op": s.choice(("get", "many", "next", "bulk")), "asked": asked or [[1, 3]], "report": s.choice(("plain", "auth")),
                "vars": [[gen.oid(s, 2, 12), gen_value(s)] for _ in range(s.int(0, 2))], "err": 0, "idx": 0}
    if op == "get":
        n = s.choice((1, 1, 1, 1, 1, 0, 2, 3))
    else:
        n = s.int(0, 6)
    vs = []
    if op == "many" and s.chance(20):
        # a long reply of small values, some of them repeated
        m = s.int(7, 350)
        p = s.int(0, 127)
        vals = [gen_value(s) for _ in range(s.int(1, 5))]
        vals = [v if v[0] in EXC or len(gen.value_body(v)) <= 9 else ["int", p] for v in vals]
        gaps = s.int(1, 40)
        vs = [[[1, 3, i % 128, i // 128 % 2] if i % gaps else [1, 3, p], vals[(i * 7) % len(vals)]] for i in range(m)]
        while sum(len(snmp.varbind(o, value(v))) for o, v in vs) > 3600:
            del vs[len(vs) * 3 // 4 :]
        n = 0
    for i in range(n):
        k = s.below(6)
        if k <= 2 and i < len(asked):
            o = asked[i]
        elif k == 3 and vs:
            o = s.choice(vs)[0]
        elif k == 4 and asked:
            o = s.choice(asked) + [s.below(3)]
        else:
            o = gen.recv_oid(s, 8)
        vs.append([o, gen_value(s)])
    return {"op": op, "asked": asked, "report": None, "vars": vs,
            "err": s.choice((0, 0, 0, 0, 1, 2, 3, 5, 13, 18)), "idx": s.choice((0, 0, 1, 2, s.choice((127, 128, 255, 256, 65535, 65536, (1 << 31) - 1))))}


def strategy(s):
    conf = gen.any_conf(s)
    return {
        "conf": conf,
        "api": s.choice(("raw", "raw", "raw", "sync", "async")),
        "calls": s.list(lambda s: gen_call(s, conf["v"] == 3), 1, 4),
    }


def long_strategy(s):
    """A session used for hundreds of calls."""
    case = strategy(s)
    case["repeat"] = repeated(s, len(case["calls"]))
    return case


def value(v):
    return EXC[v[0]] if v[0] in EXC else gen.value_tlv(v)


def run(lib, case):
    c = case["conf"]
    cur = {}
    nt = False
    labels = [f"v{c['v']}" + ("p" if c.get("palg") else "a" if c.get("aalg") else ""), case["api"]]

    def handler(agent, raw):
        p = agent.open(snmp.parse(raw, strict=False))
        call = cur["call"]
        vbs = [snmp.varbind(o, value(v)) for o, v in call["vars"]]
        agent.time += 1
        if call["report"]:
            return [agent.reply(p, snmp.pdu(snmp.REPORT, p["id"], vbs), plain=call["report"] == "plain")]
        return [agent.response(p, vbs, err=call["err"], idx=call["idx"])]

    with Driver(lib, c, case["api"], handler) as d:
        for call in case["calls"] * case.get("repeat", 1):
            cur["call"] = call
            op = call["op"]
            asked = [dotted(o) for o in call["asked"]]
            where = f"v{c['v']} {case['api']} {op}, reply {call['report'] or ''} {[(dotted(o), v[0]) for o, v in call['vars']]} err={call['err']}"
            if op == "get":
                k, v = d.get(asked[0])
            elif op == "many":
                k, v = d.get_many(asked)
            else:
                items, end = d.walk(op, asked[0], 1)
                k, v = ("ok", items) if items else ("exc", end)
                if end in ("wait", "stop"):
                    k, v = ("wait", None) if end == "wait" else ("ok", "stop")
            if k == "wait":
                raise Violation(f"{where}: the reply was not accepted", soft=True)
            labels.append(check(lib, where, call, k, v))
            nt = nt or not labels[-1].endswith("value")
    return labels, nt


def check(lib, where, call, k, v):
    shown = f"{type(v).__name__}: {v}" if k == "exc" else repr(v)
    vs = call["vars"]
    if call["report"]:
        if k != "exc" or not isinstance(v, lib.SnmpAuthError):
            raise Violation(f"{where}: SnmpAuthError expected, got {shown}")
        return "report"
    if call["op"] == "get":
        if len(vs) > 1:
            if k != "exc" or not isinstance(v, lib.SnmpError) or isinstance(v, (lib.NoSuchInstance, lib.SnmpAuthError)):
                raise Violation(f"{where}: several varbinds, SnmpError expected, got {shown}")
            return "get:several"
        kind = vs[0][1][0] if vs else "empty"
        if kind in ("empty", "null"):
            if k != "ok" or v is not None:
                raise Violation(f"{where}: None expected, got {shown}")
            return "get:" + kind
        if kind in EXC:
            if k != "exc" or not isinstance(v, lib.NoSuchInstance):
                raise Violation(f"{where}: NoSuchInstance expected, got {shown}")
            return "get:" + kind
        if k != "ok":
            raise Violation(f"{where}: a value expected, got {shown}")
        bad = gen.same_value(vs[0][1], v)
        if bad:
            raise Violation(f"{where}: {bad}")
        return "get:value"
    if k != "ok" or type(v) is not dict:
        raise Violation(f"{where}: a dict expected, got {shown}")
    want = {}
    for o, x in vs:
        if x[0] not in EXC:
            want.setdefault(dotted(o), []).append(x)
    if set(want) != set(v):
        raise Violation(f"{where}: keys {sorted(want)} expected, got {sorted(v)}")
    for o, xs in want.items():
        bad = [gen.same_value(x, v[o]) for x in xs]
        if all(bad):
            raise Violation(f"{where}: {o}: {bad[0]}")
    return "many:" + ("value" if len(vs) == 1 and want else "dup" if any(len(x) > 1 for x in want.values()) else "mixed" if len(want) < len(vs) else f"{min(len(vs), 3)}+" if vs else "empty")


def explicit(tier):
    """Every kind of value alone, and every ordered pair of kinds, in every
    version and through every API."""
    kinds = [["int", -5], ["c32", 7], ["g32", 1 << 31], ["tt", 0], ["u32", 3], ["c64", 1 << 63], ["oct", b""], ["opaque", b"\x01"], ["odesc", b"x"],
             ["ip", b"\x7f\0\0\x01"], ["oid", [1, 3, 6]], ["bool", 0], ["bool", 255], ["real_zero"], ["real_special", 0x40], ["real_bin", 0, 2, 0, 0, 1, 3, 0],
             ["real_dec", 3, "1.5E2"], ["null"], ["noobj"], ["noinst"], ["eomv"]]
    v3 = {"v": 3, "engine_id": b"\x80\0\0\0\1", "user": "u", "aalg": 2, "akt": 2, "akey": b"k" * 20, "palg": 2, "pkt": 2, "pkey": b"p" * 20}
    confs = [{"v": 1, "community": "public"}, {"v": 2, "community": "public"}, v3]
    z = {"report": None, "err": 0, "idx": 0}
    out = []
    a, b = [1, 3, 6, 1], [1, 3, 6, 2]
    for c in confs:
        for api in ("raw", "sync", "async"):
            calls = []
            for x in kinds:
                for op in ("get", "many"):
                    calls.append({"op": op, "asked": [a], "vars": [[a, x]], **z})
                for y in kinds:
                    calls.append({"op": "many", "asked": [a, b], "vars": [[a, x], [b, y]], **z})
                    calls.append({"op": "get", "asked": [a], "vars": [[a, x], [b, y]], **z})
            for i in range(0, len(calls), 20):
                out.append({"conf": c, "api": api, "calls": calls[i : i + 20]})
    return out


PARTS = [
    Part("mapping", strategy, run, quick=110000, thorough=4000000, explicit=explicit),
    Part("long", long_strategy, run, quick=160, thorough=16000),
]
