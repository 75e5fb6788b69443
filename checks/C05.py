"""C05: a walk returns the whole subtree, in order, once."""

from bisect import bisect_right

from vlib import ber, gen, snmp
from vlib.drive import Driver, Steps
from vlib.runner import Part, Violation
from vlib.snmp import dotted

ID = "C05"
RULE = (
    "A case is a finite MIB (0-60 entries, sometimes up to 400, drawn from a few clustered prefixes and boundary arcs, 2-128 arcs long), a "
    "session (v1/v2c/v3, any security level; raw socket, sync or async client) and 1-3 walks (getnext, getbulk with any "
    "max_repetitions, fetch with bulk allowed or not) from bases that are prefixes of entries, entries, neighbours or "
    "unrelated, sometimes stepped alternately with each other and with get() calls. The agent is a reference implementation of RFC "
    "3416 (RFC 1157 for v1) with a cap on repetitions, a cap on the reply size, and truncated or filled-up endOfMibView. "
    "Oracle: the sorted entries strictly below the base. Non-trivial: some walk has to deliver at least two entries."
    " long: columns of 300-6000 entries, walked alone and interleaved, and some of 66000."
)
ASSUMPTIONS = ["no datagram is lost, and only one request of a session is outstanding at a time"]

CAPS = (1, 2, 3, 5, 10, 1000)


def gen_mib(s):
    """(prefixes, sorted OIDs)"""
    roots = [gen.oid(s, 2, 6) for _ in range(s.choice((1, 1, 2, 3)))]
    if s.chance(6):
        # deep roots: encodings of more than 127 or 255 octets
        roots[-1] = gen.deep_oid(s)[: s.int(90, 125)]
    n = s.int(0, 60) if not s.chance(30) else s.int(100, 400)
    out = set()
    pool = list(roots)
    table = s.choice(roots) + [1]
    if n >= 100:
        # a long column
        for i in range(n):
            out.add((*table, i + s.below(2) * 100))
    else:
        for _ in range(n):
            p = s.choice(pool)
            o = p + s.list(gen.arc, 1, 3)
            if len(o) <= 128:
                out.add(tuple(o))
            if s.chance(3):
                pool.append(o)
            if s.chance(6):
                out.add(tuple(p))
            if s.chance(6):
                # the same arcs under the neighbour of the prefix
                q = list(p)
                i = len(q) - 1
                if i >= 2:
                    q[i] = min(q[i] + 1, gen.U32) if s.bool() else max(q[i] - 1, 0)
                    out.add(tuple(q))
                    out.add((*q, 1))
    return sorted(x for x in out if 2 <= len(x) <= 128)


def long_strategy(s):
    """A column of hundreds to thousands of entries, some of the walks in
    steps of one."""
    case = strategy(s)
    bulk = any(w["kind"] != "next" for w in case["walks"]) and case["conf"]["v"] != 1
    n = s.int(500, 6000) if bulk else s.int(300, 1200)
    col = [*gen.oid(s, 2, 6), 1]
    first = s.choice((0, 1, 1, 250, 65300, gen.U32 - 7000))
    mib = {tuple(o) for o in case["mib"]} | {(*col, first + i) for i in range(n)}
    case["mib"] = [list(o) for o in sorted(mib)]
    for w in case["walks"]:
        w["base"] = s.choice((col, col, col[:-1], w["base"]))
        if w["kind"] == "next" and n > 1200:
            w["base"] = [*col, first + n // 2]
    if n > 2000:
        case["session"]["max_repetitions"] = 100
        for w in case["walks"]:
            w["max"] = w["max"] and max(w["max"], 50)
        case["cap"] = 1000
        case["size"] = max(case["size"], 1200)
    return case


def long_explicit(tier):
    """More entries than 16 bits count."""
    root = [1, 3, 6, 1, 2, 1, 2, 2, 1, 10]

    def case(conf, kind, api):
        return {
            "conf": conf, "api": api, "mib": [], "column": [root, 66000], "vals": [["int", 5], ["oct", b"x"], ["c32", 1]],
            "walks": [{"kind": kind, "base": root, "max": 1000 if kind == "bulk" else None}], "order": [],
            "session": {"allow_bulk": True, "max_repetitions": 300}, "cap": 1000, "size": 3800, "fill": False,
        }

    v3 = {"v": 3, "engine_id": b"\x80\0\0\0\1", "user": "u", "aalg": 0, "akt": 0, "akey": b"", "palg": 0, "pkt": 0, "pkey": b""}
    v2 = {"v": 2, "community": "public"}
    out = [case(v2, "bulk", "sync"), case(v3, "bulk", "async"), case(v2, "next", "raw"), case(v2, "fetch", "raw")]
    if tier != "quick":
        out += [case(v2, "next", "sync"), case(v3, "next", "async"), case({"v": 1, "community": "public"}, "fetch", "sync")]
    return out


def gen_base(s, mib):
    k = s.below(6)
    if mib and k <= 3:
        o = list(s.choice(mib))
        n = max(2, len(o) - s.choice((1, 1, 2, 3, 4, 0)))
        o = o[:n]
        if s.chance(6) and n > 2:
            o[-1] = max(0, min(gen.U32, o[-1] + s.choice((-1, 1))))
        return o
    if mib and k == 4:
        return list(s.choice(mib))[:127] + [s.choice((0, 1))]
    return gen.oid(s, 2, 5)


def strategy(s):
    conf = gen.any_conf(s)
    mib = gen_mib(s)
    api = s.choice(("raw", "raw", "raw", "sync", "async"))
    walks = []
    for _ in range(s.choice((1, 1, 2, 3))):
        kind = s.choice(("next", "bulk", "bulk", "fetch", "fetch"))
        if conf["v"] == 1 and kind == "bulk":
            kind = "fetch"
        walks.append({
            "kind": kind,
            "base": gen_base(s, mib),
            "max": s.choice((None, 1, 2, 3, 7, 20, 50, 128, 1000, (1 << 31) - 1)) if kind == "bulk" else None,
        })
    return {
        "conf": conf,
        "api": api,
        "mib": [list(o) for o in mib],
        "vals": [gen.value(s) for _ in range(s.int(1, 5))],
        "walks": walks,
        "order": s.list(lambda s: s.below(4), 0, 8),
        "session": {"allow_bulk": not s.chance(4), "max_repetitions": s.choice((20, 1, 2, 3, 10, 100))},
        "cap": s.choice(CAPS),
        "size": s.choice((2048, 1200, 484)),
        "fill": s.bool(),
    }


class MibAgent:
    """RFC 3416 GetNext / GetBulk over a finite MIB."""

    def __init__(self, case):
        self.v1 = case["conf"]["v"] == 1
        self.keys = [tuple(o) for o in case["mib"]]
        if case.get("column"):
            root, n = case["column"]
            self.keys = [(*root, i) for i in range(n)]
        vals = case["vals"]
        self.vals = [vals[i % len(vals)] for i in range(len(self.keys))]
        self.case = case
        self.asked = {snmp.GET: 0, snmp.GETNEXT: 0, snmp.GETBULK: 0}

    def next(self, oid):
        i = bisect_right(self.keys, tuple(oid))
        return i if i < len(self.keys) else None

    def vb(self, i):
        return snmp.varbind(self.keys[i], gen.value_tlv(self.vals[i]))

    def answer(self, agent, raw):
        req = agent.open(snmp.parse(raw, strict=False))
        tag = req["pdu"]
        self.asked[tag] = self.asked.get(tag, 0) + 1
        agent.time += 1
        oids = [o for o, _, _ in req["vars"]]
        err = idx = 0
        vbs = []
        if tag == snmp.GET:
            for o in oids:
                if tuple(o) in self.keys:
                    vbs.append(self.vb(self.keys.index(tuple(o))))
                elif self.v1:
                    err, idx = 2, 1
                    vbs.append(snmp.varbind(o, b"\x05\x00"))
                else:
                    vbs.append(snmp.varbind(o, snmp.NO_INSTANCE))
        elif tag == snmp.GETNEXT:
            for n, o in enumerate(oids):
                i = self.next(o)
                if i is not None:
                    vbs.append(self.vb(i))
                elif self.v1:
                    err, idx = 2, n + 1
                    vbs = [snmp.varbind(o, b"\x05\x00") for o in oids]
                    break
                else:
                    vbs.append(snmp.varbind(o, snmp.END_OF_MIB))
        elif tag == snmp.GETBULK:
            if self.v1:
                raise Violation("a GetBulk was sent over SNMPv1")
            n = min(max(req["b"], 0), self.case["cap"])
            cur = oids[0]
            size = 0
            for _ in range(n):
                i = self.next(cur)
                if i is None:
                    x = snmp.varbind(cur, snmp.END_OF_MIB)
                else:
                    x = self.vb(i)
                    cur = self.keys[i]
                if vbs and size + len(x) > self.case["size"] - 160:
                    break
                size += len(x)
                vbs.append(x)
                if i is None and not self.case["fill"]:
                    break
        else:
            raise Violation(f"PDU type {tag:#x} sent in a walk")
        return [agent.response(req, vbs, err=err, idx=idx)]


def run(lib, case):
    c = case["conf"]
    mib = MibAgent(case)
    keys = mib.keys
    labels = [f"v{c['v']}" + ("p" if c.get("palg") else "a" if c.get("aalg") else ""), case["api"]]
    walks = []
    with Driver(lib, c, case["api"], mib.answer, timeout=8.0, **case["session"]) as d:
        for w in case["walks"]:
            b = tuple(w["base"])
            n = len(b)
            want = [i for i, k in enumerate(keys) if len(k) > n and k[:n] == b]
            st = Steps(d, w["kind"], dotted(b), w["max"])
            walks.append({"w": w, "want": want, "got": 0, "st": st, "done": False, "base": b})
            labels.append(w["kind"])
            labels.append("n:" + ("0" if not want else "1" if len(want) == 1 else "<20" if len(want) < 20 else ">=20"))
        order = [o for o in case["order"] if len(walks) > 1 or o == 3]
        for o in order * 3:
            if o == 3:
                if keys:
                    check_get(d, case, mib, len(keys) // 2)
                continue
            x = walks[o % len(walks)]
            if not x["done"]:
                step(case, mib, x)
        if order:
            labels.append("interleaved")
        for x in walks:
            while not x["done"]:
                step(case, mib, x)
        # an exhausted walk stays so
        x = walks[0]
        k, v = x["st"].step()
        if k == "item":
            raise Violation(f"{where(case, x)}: after its end the walk yields {v!r}")
        d.finish(None)
    return labels, any(len(x["want"]) >= 2 for x in walks)


def where(case, x):
    w = x["w"]
    c = case["conf"]
    return f"v{c['v']} {case['api']} {w['kind']}({dotted(w['base'])}, {w['max']})"


def check_get(d, case, mib, i):
    k, v = d.get(dotted(mib.keys[i]))
    if k != "ok":
        raise Violation(f"get between walk steps: {k} {v!r}", soft=k == "wait")
    bad = gen.same_value(mib.vals[i], v)
    if bad:
        raise Violation(f"get between walk steps: {bad}")


def step(case, mib, x):
    k, v = x["st"].step()
    want = x["want"]
    g = x["got"]
    if k == "item":
        if g >= len(want):
            raise Violation(f"{where(case, x)}: all {len(want)} entries delivered, then {v!r}")
        i = want[g]
        if not (isinstance(v, tuple) and len(v) == 2) or v[0] != dotted(mib.keys[i]):
            raise Violation(f"{where(case, x)}: entry {g} should be {dotted(mib.keys[i])}, got {v!r}")
        bad = gen.same_value(mib.vals[i], v[1])
        if bad:
            raise Violation(f"{where(case, x)}: {v[0]}: {bad}")
        x["got"] += 1
    elif k == "stop":
        if g < len(want):
            raise Violation(f"{where(case, x)}: stopped after {g} of {len(want)} entries, before {dotted(mib.keys[want[g]])}")
        x["done"] = True
    elif k == "wait":
        raise Violation(f"{where(case, x)}: no reply accepted after {g} of {len(want)} entries", soft=True)
    else:
        raise Violation(f"{where(case, x)}: {type(v).__name__}: {v} after {g} of {len(want)} entries")


PARTS = [
    Part("walks", strategy, run, quick=80000, thorough=1000000),
    Part("long", long_strategy, run, quick=100, thorough=20000, explicit=long_explicit),
]
