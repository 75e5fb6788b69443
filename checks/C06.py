"""C06: a walk never leaves its subtree, never goes backwards, always ends."""

from vlib import ber, gen, snmp
from vlib.drive import Driver, Steps
from vlib.runner import Part, Violation
from vlib.snmp import dotted

ID = "C06"
RULE = (
    "A case is a session (every version, security level and API), a walk (getnext, getbulk, fetch) from any base and an "
    "arbitrary agent: 0-8 scripted replies of 0-6 varbinds whose OIDs are children, siblings, predecessors, repetitions, "
    "prefixes of the base, neighbours of the base or unrelated, with data values, NULL or exception values, then an agent "
    "that repeats itself, cycles through its replies, ends or grows for ever. A reference walker computes the items, the "
    "follow-up requests and where the walk has to (or may) end; independently, items must be in the subtree and strictly "
    "increasing and only the last request may yield nothing. Non-trivial: some reply holds an exception value, an OID outside the "
    "subtree or one that does not increase."
    " long: the script begins after 100-700 well-behaved replies."
)
ASSUMPTIONS = [
    "the base itself in a reply may be yielded or end the walk; an OID that does not increase may end it normally or with SnmpError",
    "after a bulk reply with trailing exception values the walk may end or ask on",
    "several varbinds in a GetNext reply: only the invariants are judged from there on",
]

EXC = {"null": b"\x05\x00", "noobj": snmp.NO_OBJECT, "noinst": snmp.NO_INSTANCE, "eomv": snmp.END_OF_MIB}
LIMIT = 60


def gen_vb(s):
    rel = s.choice(("child", "child", "next", "next", "next", "deep", "same", "prev", "parent", "base", "out+", "out-", "prefix", "old", "far", "first", "bigarc", "bigsib", "random"))
    val = s.choice(("int", "int", "int", "int", "gen", "eomv", "null", "noobj", "noinst")) if s.chance(2) else "int"
    return [rel, s.below(64), val, gen.value(s) if val == "gen" else None]


def strategy(s):
    conf = gen.any_conf(s)
    kind = s.choice(("next", "next", "bulk", "bulk", "fetch"))
    if conf["v"] == 1 and kind == "bulk":
        kind = "next"
    bulk = kind == "bulk" or (kind == "fetch" and conf["v"] != 1)
    base = gen.recv_oid(s, 6) if s.chance(4) else gen.oid(s, 2, 6)
    if base[1] > 39:
        base[1] = 39
    if s.chance(10):
        base = gen.deep_oid(s)[: s.int(40, 120)]
    replies = []
    for _ in range(s.int(0, 8)):
        if bulk:
            replies.append(s.list(gen_vb, 0, 6))
        else:
            n = 0 if s.chance(20) else 2 if s.chance(20) else 1
            replies.append([gen_vb(s) for _ in range(n)])
    return {
        "conf": conf,
        "api": s.choice(("raw", "raw", "raw", "sync", "async")),
        "kind": kind,
        "base": base,
        "replies": replies,
        "tail": s.choice(("repeat", "cycle", "eom", "empty", "grow", "echo")),
        "max": s.choice((1, 2, 10, 20)),
    }


def long_strategy(s):
    """The script comes after hundreds of entries."""
    case = strategy(s)
    case["lead"] = s.int(100, 700)
    return case


def resolve(rel, k, base, last, yielded):
    """The OID of a scripted varbind."""
    cur = list(last)
    if rel == "child":
        return cur + [k % 3]
    if rel == "next":
        if len(cur) > len(base):
            return cur[:-1] + [min(cur[-1] + 1 + k % 3, gen.U32)]
        return cur + [1]
    if rel == "deep":
        return cur + [gen.EDGE_ARCS[k % len(gen.EDGE_ARCS)], k]
    if rel == "same":
        return cur
    if rel == "prev":
        if len(cur) > len(base):
            return cur[:-1] + [max(cur[-1] - 1 - k % 2, 0)]
        return cur
    if rel == "parent":
        return cur[:-1] if len(cur) > max(2, len(base)) else cur
    if rel == "base":
        return list(base)
    if rel in ("out+", "out-"):
        o = list(base)
        i = len(o) - 1
        d = 1 if rel == "out+" else -1
        o[i] = max(0, min(gen.U32 - 80, o[i] + d * (1 + k % 2)))
        if i == 1:
            o[i] = min(o[i], 39 if o[0] < 2 else gen.U32 - 80)
        return o + [k % 4] * (k % 3)
    if rel == "prefix":
        return list(base[:-1]) if len(base) > 2 else [base[0], (base[1] + 1) % 40]
    if rel == "old":
        return list(yielded[k % len(yielded)]) if yielded else list(base)
    if rel == "first":
        return list(base) + [0]
    if rel == "far":
        return [1, 3, 6, 1, 99, k]
    if rel == "bigarc":
        return list(base) + [gen.EDGE_ARCS[k % len(gen.EDGE_ARCS)]]
    if rel == "bigsib":
        if len(cur) > len(base):
            return cur[:-1] + [gen.EDGE_ARCS[k % len(gen.EDGE_ARCS)]]
        return cur + [gen.EDGE_ARCS[k % len(gen.EDGE_ARCS)]]
    return [1 + k % 2, k % 40, k, gen.EDGE_ARCS[k % len(gen.EDGE_ARCS)]]


class Model:
    """The whole history, computed before the walk is run.

    trace: ('req', oid) / ('yield', oid, value) / ('may',) / ('end', how) /
    ('any',) - linear, a walk may leave it at 'may' only."""

    def __init__(self, case):
        self.base = tuple(case["base"])
        self.bulk = case["kind"] == "bulk" or (case["kind"] == "fetch" and case["conf"]["v"] != 1)
        self.trace = []
        self.replies = []
        self.labels = set()
        self.last = self.base
        self.yields = []
        self.serial = 0
        script = case["replies"]
        lead = case.get("lead", 0)
        # requests made before the script begins
        n = -lead
        while True:
            self.trace.append(("req", self.last))
            if n < 0:
                vbs = self.tail("grow", n, len(script))
            elif n < len(script):
                vbs = []
                sim_last, sim_y = self.last, list(self.yields)
                for rel, k, val, gv in script[n]:
                    o = tuple(resolve(rel, k, self.base, sim_last, sim_y))
                    vbs.append(self.vb(o, val, gv))
                    if o > sim_last and o[: len(self.base)] == self.base and val not in EXC:
                        sim_last = o
                        sim_y.append(o)
            else:
                vbs = self.tail(case["tail"], n, len(script))
            self.replies.append(vbs)
            n += 1
            if self.step(vbs) or len(self.yields) >= LIMIT + lead or n > 200:
                break

    def vb(self, oid, val, gv=None):
        self.serial += 1
        if val == "int":
            gv = ["int", self.serial]
        return (oid, val if val in EXC else "data", gv)

    def tail(self, how, n, k):
        if how == "repeat" and k:
            return self.replies[k - 1]
        if how == "cycle" and k:
            return self.replies[n % k]
        if how == "empty":
            return []
        if how == "eom":
            return [self.vb(self.last, "eomv")]
        if how == "echo":
            return [self.vb(self.last, "int")]
        o = self.last
        if len(o) > len(self.base) and o[-1] < gen.U32:
            return [self.vb((*o[:-1], o[-1] + 1), "int")]
        return [self.vb((*o, 1), "int")]

    def step(self, vbs):
        """Follow one reply; True when the walk has ended."""
        if not vbs:
            self.trace.append(("end", "stop"))
            self.labels.add("empty")
            return True
        if not self.bulk and len(vbs) > 1:
            self.trace.append(("any",))
            self.labels.add("multi")
            return True
        got = False
        for i, (o, kind, gv) in enumerate(vbs):
            inside = o[: len(self.base)] == self.base
            if kind != "data":
                self.labels.add("exc:" + kind)
                if not inside:
                    self.trace.append(("may",))
                elif all(k != "data" for _, k, _ in vbs[i:]):
                    self.trace.append(("may",))
                continue
            if not inside:
                self.labels.add("outside")
                self.trace.append(("end", "stop"))
                return True
            if o == self.base and not self.yields:
                self.labels.add("base")
                self.trace.append(("may",))
            elif o <= self.last:
                self.labels.add("non-increasing")
                self.trace.append(("end", "either"))
                return True
            self.trace.append(("yield", o, gv))
            self.yields.append(o)
            self.last = o
            got = True
        if not got:
            self.trace.append(("end", "stop"))
            return True
        return False


def run(lib, case):
    m = Model(case)
    c = case["conf"]
    reqs = []

    def handler(agent, raw):
        p = agent.open(snmp.parse(raw, strict=False))
        i = len(reqs)
        reqs.append(tuple(p["vars"][0][0]))
        if i >= len(m.replies):
            return []
        vbs = [snmp.varbind(o, gen.value_tlv(gv) if k == "data" else EXC[k]) for o, k, gv in m.replies[i]]
        return [agent.response(p, vbs)]

    where = f"v{c['v']} {case['api']} {case['kind']} of {dotted(m.base)}, replies {[[(dotted(o), k) for o, k, _ in r] for r in m.replies[:9]]}"
    total = len([t for t in m.trace if t[0] == "yield"])
    ended = m.trace[-1][0] != "yield" and m.trace[-1][0] != "may"
    items = []
    with Driver(lib, c, case["api"], handler, timeout=8.0, max_repetitions=case["max"]) as d:
        st = Steps(d, case["kind"], dotted(m.base), None)
        end = None
        while len(items) < total + (1 if ended else 0):
            k, v = st.step()
            if k != "item":
                end = (k, v)
                break
            items.append(v)
            if len(items) > total:
                break
    # invariants
    prev = None
    for o, _ in items:
        a = tuple(int(x) for x in o.split("."))
        if a[: len(m.base)] != m.base:
            raise Violation(f"{where}: {o} is outside the subtree")
        if prev is not None and a <= prev:
            raise Violation(f"{where}: {o} yielded after {dotted(prev)}")
        prev = a
    # the reference walker
    n = 0
    nreq = 0
    matched = None
    for t in m.trace:
        if t[0] == "req":
            nreq += 1
        elif t[0] == "yield":
            if n >= len(items):
                if end is None:
                    matched = "limit"
                break
            if items[n][0] != dotted(t[1]):
                raise Violation(f"{where}: item {n} should be {dotted(t[1])}, got {items[n][0]}")
            bad = gen.same_value(t[2], items[n][1])
            if bad:
                raise Violation(f"{where}: item {n}: {bad}")
            n += 1
        elif t[0] == "may":
            if n == len(items) and end and end[0] == "stop" and len(reqs) == nreq:
                matched = "may"
        elif t[0] == "any":
            matched = "any"
            break
        elif t[0] == "end" and n == len(items) and end is not None:
            if end[0] == "stop" or (t[1] == "either" and end[0] == "exc" and isinstance(end[1], lib.SnmpError)):
                matched = "end"
    if matched != "any":
        if n == total and end is None and len(items) == total:
            matched = "limit"
        if len(items) > n:
            raise Violation(f"{where}: the walk had to end after {n} items, yet yields {items[n]!r}")
        if matched is None:
            e = "nothing yet" if end is None else end[0] if end[1] is None else f"{type(end[1]).__name__}: {end[1]}"
            raise Violation(f"{where}: after {len(items)} of {total} items the walk ended with {e}", soft=end is not None and end[0] == "wait")
        want = [t[1] for t in m.trace if t[0] == "req"]
        for i, (a, b) in enumerate(zip(reqs, want)):
            if a != b:
                raise Violation(f"{where}: request {i} should ask for {dotted(b)}, asks for {dotted(a)}")
        if len(reqs) > len(want):
            raise Violation(f"{where}: {len(want)} requests expected, {len(reqs)} sent")
    labels = [f"v{c['v']}", case["api"], case["kind"], f"matched:{matched}", *m.labels]
    return labels, bool(m.labels - {"empty"})


PARTS = [
    Part("adversary", strategy, run, quick=130000, thorough=4000000),
    Part("long", long_strategy, run, quick=300, thorough=30000),
]
