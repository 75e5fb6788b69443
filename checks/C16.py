"""C16: decoding an element reads exactly its declared extent."""

from vlib import ber, gen, snmp, tree
from vlib.drive import Driver
from vlib.runner import HarnessPart, Part, Violation
from vlib.snmp import varbind

ID = "C16"
RULE = (
    "Rust: every element with a body of up to two octets of every type, and random ones, each decoded alone at the end of "
    "accessible memory and followed by suffixes - same value, remaining input = suffix; whole messages with trailing "
    "octets and with one inner element declared past its enclosing one - rejected; guided: the same relations over coverage-guided inputs. Python: the same relations through "
    "get/get_many/getnext/getbulk replies (also inside encrypted scoped PDUs, after larger messages in the same buffers). "
    "Non-trivial: the element or message is accepted in its unmodified form."
)
ASSUMPTIONS = [
    "what a decoder ignores (the varbinds of a Report, elements after the last expected one inside a SEQUENCE) is not read, so its inner lengths are not judged",
    "octets after an encrypted scoped PDU are padding",
]


def shards(tier):
    n = 200000 if tier == "quick" else 6000000
    return [["--shard", str(i), "--of", "8", "--random", str(n)] for i in range(8)]


HARNESS = [
    HarnessPart("extent", "c16", shards),
    HarnessPart(
        "guided",
        "c16fuzz",
        lambda tier: [["--random", str(60000 if tier == "quick" else 15000000)] for i in range(8)],
    ),
]

BASE = [1, 3, 6, 1]


def conf(s):
    k = s.below(5)
    if k < 2:
        return {"v": 1 + k, "community": "public"}
    return gen.conf_v3(s, levels=(("no", "auth", "priv", "priv")[s.below(4)],), types=(2,))


def call(d, op):
    """(kind, value): 'ok' with the delivered value(s), 'exc' or 'wait'."""
    if op == "get":
        return d.get("1.3.6.1.1")
    if op == "many":
        return d.get_many(["1.3.6.1.1"])
    items, end = d.walk(op, "1.3.6.1", 1)
    if items:
        return "ok", items
    return ("wait", None) if end == "wait" else ("exc", end)


# ------------------------------------------------- what follows an element
FOLLOW = [b"", ber.octets(b"0123456789"), ber.octets(b"\xff" * 12), b"\x05\x00", ber.enc_int(-1), ber.octets(b".5E7"), b"\x09\x00", ber.octets(b"\x80" * 9)]


def follow_strategy(s):
    if s.bool():
        v = gen.value_tlv(gen.value(s), s.choice((0, 0, 0, 1, 3)))
    else:
        body = s.choice(tree.BODIES) if s.bool() else s.bytes(0, 10)
        v = ber.tlv(s.choice((1, 2, 4, 5, 6, 7, 9, 9, 9, 0x40, 0x41, 0x42, 0x43, 0x44, 0x46, 0x47)), body, s.choice((0, 0, 0, 1, 3)))
    return {"conf": conf(s), "value": v, "next": s.int(1, len(FOLLOW) - 1), "n": s.int(1, 3), "rel": s.chance(4)}


def run_follow(lib, case):
    def outcome(vbs):
        def handler(agent, raw):
            req = agent.open(snmp.parse(raw, strict=False))
            return [agent.response(req, vbs)]

        with Driver(lib, case["conf"], "raw", handler) as d:
            k, v = d.get_many(["1.3.6.1"])
            if k == "exc":
                return "exc " + type(v).__name__
            if k == "wait":
                return "wait"
            return "value " + repr(v.get("1.3.6.1.7", "absent"))

    x = varbind(BASE + [7], case["value"])
    alone = outcome([x])
    f = FOLLOW[case["next"]]
    more = [varbind(BASE + [8 + i], f) for i in range(case["n"])]
    got = outcome([x, *more])
    if got != alone:
        raise Violation(f"value {case['value'].hex()} alone: {alone}; followed by {f.hex()}: {got}", soft="wait" in (got, alone))
    # in the varbind itself: octets after the value
    return [f"v{case['conf']['v']}", alone.split()[0], f"tag:{case['value'][0]:#x}"], alone.startswith("value")


# --------------------------------------------------- rejection of overruns
def reject_strategy(s):
    c = conf(s)
    op = s.choice(("get", "many", "many", "next", "bulk"))
    if c["v"] == 1 and op == "bulk":
        op = "next"
    n = 1 if op == "get" else s.int(1, 3)
    return {
        "conf": c,
        "op": op,
        "values": [gen.value(s) for _ in range(n)],
        "how": s.choice(("over", "over", "over", "trail", "cut", "plaincut")),
        "node": s.below(64),
        "extra": s.choice((1, 1, 2, 3, 10, 100, 4000, 1 << 31, (1 << 63) - 1, (1 << 64) - 1 - 200)),
        "form": s.choice((0, 0, 1, 2, 4, 8)),
        "tail": s.choice((b"\0", b"\0\0", b"\x05\0", b"\x30\0", b"\xff" * 5)) if s.bool() else s.bytes(1, 8),
        "cut": s.int(1, 30),
        "stale": s.bool(),
    }


def run_reject(lib, case):
    c = case["conf"]
    info = {}

    def build(agent, req, rid, damage):
        vbs = [([0x06, ber.oid_body(BASE + [1 + i])], [gen.TAGS.get(v[0], 9), gen.value_body(v)]) for i, v in enumerate(case["values"])]
        p = tree.pdu_tree(snmp.RESPONSE, rid, vbs)
        enc = lambda b: b  # noqa: E731
        if c["v"] != 3:
            t = tree.community_tree(c["v"] - 1, c["community"].encode(), p)
        else:
            scoped = [0x30, [tree.O(agent.engine_id), tree.O(b""), p]]
            salt = agent.next_salt() if c["palg"] else b""
            t = tree.v3_tree(req["msg_id"], (1 if c["aalg"] else 0) | (2 if c["palg"] else 0), agent.engine_id, agent.boots, agent.time,
                             c["user"].encode(), b"\0" * 12 if c["aalg"] else b"", salt, scoped, bool(c["palg"]))
            enc = tree.encrypter(c, agent.keys, agent.boots, agent.time, salt)
        how = case["how"] if damage else ""
        if how == "over":
            nodes = tree.flatten(t)
            node, parent = nodes[case["node"] % len(nodes)]
            own = tree.encode(node, enc)
            h, size = ber_head(own)
            if parent is not None and isinstance(parent[1], list):
                i = next(i for i, x in enumerate(parent[1]) if x is node)
                after = sum(len(tree.encode(x, enc)) for x in parent[1][i + 1 :])
            else:
                after = 0
                if parent is not None:
                    after = 16  # the padding of the cipher follows
            n = (size + after + case["extra"]) & ((1 << 64) - 1)
            if n <= size + after:
                n = size + after + 1
            node.append({"len": ber.enc_len(n, case["form"])})
            info["depth"] = "inner" if parent is not None else "outer"
        elif how == "plaincut" and c["v"] == 3 and c["palg"]:
            e0 = enc
            k = case["cut"]
            enc = lambda b: e0(b[: max(2, len(b) - k)])  # noqa: E731
            if c["palg"] == 1:
                # the zero padding restores up to 7 octets
                enc = lambda b: e0(b[: max(2, (len(b) - k) // 8 * 8)])  # noqa: E731
            info["depth"] = "plain"
        raw = tree.encode(t, enc)
        if c["v"] == 3:
            raw = tree.resign(raw, c, agent.keys)
        if how == "trail":
            raw += case["tail"]
            info["depth"] = "trail"
        elif how in ("cut", "plaincut") and "depth" not in info:
            raw = raw[: max(1, len(raw) - case["cut"])]
            info["depth"] = "cut"
        return raw

    def handler(agent, raw):
        req = agent.open(snmp.parse(raw, strict=False))
        out = []
        if case["stale"]:
            out.append(build(agent, req, (req["id"] ^ 1), False))
        bad = build(agent, req, req["id"], info["damage"])
        info["raw"] = bad
        out.append(bad)
        return out

    res = []
    for damage in (False, True):
        info.update(damage=damage, depth="none")
        info.pop("depth")
        with Driver(lib, c, "raw", handler) as d:
            res.append(call(d, case["op"]))
    (k0, _), (k1, v1) = res
    if k1 == "ok":
        raise Violation(f"v{c['v']} {case['op']}: {info['depth']} damage, yet {v1!r} is delivered from {info['raw'].hex()}")
    return [f"v{c['v']}" + ("p" if c.get("palg") else ""), case["op"], info["depth"], "undamaged:" + k0], k0 == "ok"


def ber_head(b):
    n = b[1]
    if n < 128:
        return 2, n
    k = n & 127
    return 2 + k, int.from_bytes(b[2 : 2 + k], "big")


PARTS = [
    Part("follow", follow_strategy, run_follow, quick=100000, thorough=1500000),
    Part("reject", reject_strategy, run_reject, quick=100000, thorough=1500000),
]
