"""C02: response values reach the caller exactly as encoded."""

from vlib import ber, gen, snmp
from vlib.ber import enc_int, seq, tlv
from vlib.drive import Driver, expect_ok
from vlib.runner import Part, Violation

ID = "C02"
RULE = (
    "A case is a session (v1/v2c/v3 at every security level), an operation (get, get_many, getnext, getbulk), an API "
    "(raw socket, sync client, async client) and a GetResponse of typed values with chosen length forms, encoded by an "
    "independent BER encoder. Non-trivial: at least one delivered value whose contents are not the trivial small ones "
    "(boundary/negative/64-bit integer, high-bit unsigned, multi-octet subidentifier, REAL, >=128 octets, long-form "
    "length, or not the only varbind)."
    " stream: 2-12 such operations (sometimes hundreds) over one session."
    " relative: a get_many() reply in which varbinds are named by RELATIVE-OIDs after an absolute one; non-trivial: at "
    "least one of them."
)
ASSUMPTIONS = [
    "integers are encoded minimally (X.690 8.3.2), lengths may use any long form (8.1.3.5)",
    "a RELATIVE-OID (docs/dev/types.md) replaces as many last arcs of the preceding varbind's OID as it has, or all of them",
    "a decimal or binary REAL that no double represents may differ from the nearest double by one ulp",
]


def form(s):
    if s.chance(30):
        # leading zeros may fill up to 126 octets
        return s.choice((5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 126))
    return s.choice((0, 0, 0, 0, 1, 2, 3, 4))


def strategy(s, conf=None):
    conf = conf or gen.any_conf(s)
    op = s.choice(("get", "many", "many", "next", "bulk"))
    if conf["v"] == 1 and op == "bulk":
        op = "next"
    api = s.choice(("raw", "raw", "raw", "sync", "async"))
    f = [form(s) for _ in range(3)]
    base = None
    if op == "get":
        v = ["null"] if s.chance(30) else gen.value(s)
        if s.chance(20):
            n = s.int(300, 3590)
            v = [s.choice(("oct", "opaque", "odesc")), (bytes(range(256)) * 15)[n & 255:][:n]]
        vs = [[gen.recv_oid(s) if not s.chance(10) else gen.deep_oid(s), v, [form(s), form(s), form(s)]]]
    else:
        n = 1 if op == "next" else s.int(1, 8)
        base = gen.oid(s, 2, 5)
        if s.chance(15):
            base = gen.deep_oid(s)[:110]
            n = min(n, 3)
        vs = []
        if op != "next" and s.chance(15):
            # a reply of many short varbinds
            n = s.int(9, 400)
            base = base[:3]
            fs = [form(s), form(s), form(s)] if s.chance(4) else [0, 0, 0]
            for i in range(n):
                v = gen.value(s)
                if len(gen.value_body(v)) > 9:
                    v = ["int", i]
                vs.append([base + [i], v, fs])
            n = 0
        seen = set()
        for _ in range(n):
            o = gen.recv_oid(s) if op == "many" else base + s.list(gen.arc, 1, 8)
            if tuple(o) in seen:
                continue
            seen.add(tuple(o))
            vs.append([o, gen.value(s), [form(s), form(s), form(s)]])
        if op == "bulk":
            vs.sort(key=lambda x: x[0])
    return {"conf": conf, "op": op, "api": api, "vars": vs, "base": base, "forms": f}


def encode(case):
    vbs = []
    for o, v, (fo, fv, fs) in case["vars"]:
        vbs.append(seq(ber.enc_oid(o, fo), gen.value_tlv(v, fv), form=fs))
    return vbs


def labels(case):
    out = [f"v{case['conf']['v']}", case["op"], case["api"]]
    nt = False
    for i, (o, v, fs) in enumerate(case["vars"]):
        out.append("kind:" + v[0])
        b = gen.value_body(v)
        if v[0].startswith("real") or len(b) > 3 or any(fs) or i or (b and b[0] & 0x80):
            nt = True
        if len(b) > 127:
            out.append("value>=128")
        if any(fs):
            out.append("long-form")
    if any(case["forms"]):
        out.append("outer-long-form")
    if case["conf"].get("style"):
        out.append("styled")
    if any(max(x) > 4 for _, _, x in case["vars"]):
        out.append("length of >4 octets")
    return out, nt


def too_big(case):
    style = case["conf"].get("style")
    return sum(len(ber.restyle(x, [max(map(abs, style))]) if style else x) for x in encode(case)) > 3600


def run(lib, case):
    if too_big(case):
        return ["too-big"], False
    deliver(lib, case["conf"], case["api"], [case])
    return labels(case)


def stream_strategy(s):
    """One session, and responses one after another."""
    first = strategy(s)
    conf = first["conf"]
    out = []
    for _ in range(s.int(2, 12)):
        x = strategy(s, conf)
        out.append({k: x[k] for k in ("op", "vars", "base", "forms")})
    long = s.chance(20)
    return {"conf": conf, "api": first["api"], "calls": out, "repeat": s.int(260, 700) // len(out) + 1 if long else 1}


def run_stream(lib, case):
    calls = [{**x, "conf": case["conf"], "api": case["api"]} for x in case["calls"]]
    calls = [x for x in calls if not too_big(x)]
    deliver(lib, case["conf"], case["api"], calls * case["repeat"])
    out = []
    for x in calls:
        out += labels(x)[0]
    return out + ["long" if case["repeat"] > 1 else "short"], len(calls) > 1


def deliver(lib, conf, api, calls):
    cur = {}

    def handler(agent, data):
        case = cur["case"]
        vbs = encode(case)
        f = case["forms"]
        req = agent.open(snmp.parse(data, strict=False))
        body = tlv(snmp.RESPONSE, enc_int(req["id"]) + enc_int(0) + enc_int(0) + seq(*vbs, form=f[0]), f[1])
        c = conf
        if c["v"] == 3:
            eid = agent.engine_id
            return [agent.reply(req, body, scoped=seq(ber.octets(eid), ber.octets(b""), body, form=f[2]))]
        return [agent.styled(tlv(0x30, enc_int(c["v"] - 1) + ber.octets(c["community"].encode()) + body, f[2]))]

    with Driver(lib, conf, api, handler) as d:
        for case in calls:
            cur["case"] = case
            judge(d, case)


def judge(d, case):
    op = case["op"]
    if op == "get":
        got = expect_ok(d.get("1.3.6.1.2.1.1.1.0"), "get")
        o, v, _ = case["vars"][0]
        if v[0] == "null":
            if got is not None:
                raise Violation(f"get of NULL returned {got!r}")
        else:
            bad = gen.same_value(v, got)
            if bad:
                raise Violation(f"get: {bad}")
    elif op == "many":
        got = expect_ok(d.get_many(["1.3.6.1.2.1.1.1.0"]), "get_many")
        compare(case, list(got.items()), "get_many")
    else:
        n = len(case["vars"])
        items, end = d.walk(op, snmp.dotted(case["base"]), n, max(n, 20))
        if end not in ("limit",) or len(items) != n:
            if isinstance(end, Exception):
                raise Violation(f"{op}: raised {type(end).__name__}: {end}")
            raise Violation(f"{op}: {len(items)} of {n} values delivered, then {end}", soft=end == "wait")
        compare(case, items, "get" + op, ordered=True)


def compare(case, items, what, ordered=False):
    want = [(snmp.dotted(o), v) for o, v, _ in case["vars"]]
    if len(items) != len(want):
        raise Violation(f"{what}: {len(want)} varbinds sent, got {items!r}")
    if not ordered:
        d = dict(items)
        items = [(k, d.get(k, KeyError)) for k, _ in want]
    for (k, v), it in zip(want, items):
        if it[0] != k or it[1] is KeyError:
            raise Violation(f"{what}: OID {k} handed over as {it[0] if ordered else sorted(d)}")
        bad = gen.same_value(v, it[1])
        if bad:
            raise Violation(f"{what}: {k}: {bad}")


def relative_strategy(s):
    """Varbinds named relatively to the ones before them."""
    conf = gen.any_conf(s)
    cur = gen.oid(s, 2, 14)
    names = [["abs", cur]]
    seen = {tuple(cur)}
    for _ in range(s.int(1, 8)):
        if s.chance(20):
            how, new, part = "abs", gen.oid(s, 2, 14), None
        elif s.chance(20):
            part = gen.oid(s, max(2, len(cur)), len(cur) + 5)
            how, new = "rel", part
        else:
            if len(cur) < 4:
                continue
            k = s.int(1, len(cur) - 3)
            part = [gen.arc(s) for _ in range(k)]
            how, new = "rel", cur[: len(cur) - k] + part
        if tuple(new) in seen:
            continue
        seen.add(tuple(new))
        cur = new
        names.append([how, new if how == "abs" else part])
    return {"conf": conf, "api": s.choice(("raw", "sync", "async")), "names": names, "form": form(s), "op": "many"}


def run_relative(lib, case):
    cur = None
    want, vbs = {}, []
    f = case["form"]
    for i, (how, arcs) in enumerate(case["names"]):
        if how == "abs":
            cur = list(arcs)
            name = ber.enc_oid(arcs, f)
        else:
            cur = list(arcs) if len(arcs) >= len(cur) else cur[: len(cur) - len(arcs)] + list(arcs)
            name = tlv(0x0D, b"".join(ber.base128(a) for a in arcs), f)
        want[snmp.dotted(cur)] = i + 1
        vbs.append(seq(name, enc_int(i + 1)))

    def handler(agent, data):
        return [agent.response(agent.open(snmp.parse(data, strict=False)), vbs)]

    with Driver(lib, case["conf"], case["api"], handler) as d:
        got = expect_ok(d.get_many(["1.3.6.1.2.1.1.1.0"]), "get_many")
        if got != want:
            raise Violation(f"get_many: varbinds {case['names']} denote {want}, got {got}")
    return [f"v{case['conf']['v']}", f"names:{len(case['names'])}"], any(h == "rel" for h, _ in case["names"])


def explicit(tier):
    """Every value kind at its boundaries, at each position of a list."""
    conf = {"v": 2, "community": "public"}
    ints = sorted({s * (1 << k) + d for k in (0, 7, 8, 15, 16, 23, 24, 31, 32, 39, 40, 47, 48, 55, 56, 63) for s in (1, -1) for d in (-1, 0, 1)})
    vals = [["int", v] for v in ints if -(1 << 63) <= v < 1 << 63]
    for k, bits in (("c32", 32), ("g32", 32), ("tt", 32), ("u32", 32), ("c64", 64)):
        vals += [[k, v] for v in ints if 0 <= v < 1 << bits] + [[k, (1 << bits) - 1]]
    vals += [["bool", b] for b in (0, 1, 255)]
    vals += [["oct", bytes([b]) * n] for n in (0, 1, 127, 128, 255, 256, 1000) for b in (0, 0x80)]
    vals += [["ip", bytes([a, 0, 255, 1])] for a in (0, 10, 255)]
    vals += [["real_special", x] for x in (0x40, 0x41, 0x42, 0x43)] + [["real_zero"]]
    for base in (2, 8, 16):
        for f in range(4):
            for s in (0, 1):
                for e in (-1, 0, 1, -128, 127, 128):
                    for m in (1, 5, 1 << 31, (1 << 53) - 1, (1 << 56) - 1):
                        vals.append(["real_bin", s, base, f, 0, e, m, 0])
    for t in ("1", "-1", "+1", "  15", "0", "1234567"):
        vals.append(["real_dec", 1, t])
    for t in ("1.5", "-1,5", " 0.25", "123.0"):
        vals.append(["real_dec", 2, t])
    for t in ("1.5E0", "-1.5E+3", "15.E-1", "4567.0e-1"):
        vals.append(["real_dec", 3, t])
    out = []
    for i, v in enumerate(vals):
        z = [0, 0, 0]
        out.append({"conf": conf, "op": "get", "api": "raw", "vars": [[[1, 3, 6, 1], v, z]], "base": None, "forms": z})
        a = [[1, 3, 6, 1, 1], v, z]
        b = [[1, 3, 6, 1, 2], ["oct", b"\x31\x32\x33\x34\x45"], z]
        c = [[1, 3, 6, 1, 3], ["int", 7], z]
        out.append({"conf": conf, "op": "many", "api": "raw", "vars": [a, b, c] if i % 2 else [c, a, b], "base": None, "forms": z})
    for o in ([0, 0], [0, 39], [1, 0], [1, 39], [2, 0], [2, 39], [2, 40], [2, 47], [2, 48], [2, 175], [2, 176], [2, 999], [2, 16303], [2, 16304],
              *[[1, 3, x] for x in gen.EDGE_ARCS], *[[1, 3, 6, x, 1] for x in gen.EDGE_ARCS]):
        z = [0, 0, 0]
        out.append({"conf": conf, "op": "many", "api": "raw", "vars": [[o, ["oid", o], z]], "base": None, "forms": z})
    return out


PARTS = [
    Part("values", strategy, run, quick=180000, thorough=3000000, explicit=explicit),
    Part("stream", stream_strategy, run_stream, quick=8000, thorough=400000),
    Part("relative", relative_strategy, run_relative, quick=12000, thorough=500000),
]
