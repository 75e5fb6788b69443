"""C19: the rate limiter never lets the request rate exceed rps."""

import itertools
import math
import time
from fractions import Fraction

from vlib import ber, crypt, drive, gen, snmp
from vlib.drive import Driver
from vlib.runner import Part, Violation

crypt.selftest()

ID = "C19"
RULE = (
    "sequences: RPSPolicer with any rate (intervals of 1 ns to weeks, whole and fractional) and up to 2000 calls on an integer clock, "
    "each at or after the previous release, with gaps of zero, a phase, just under/at/over one and many intervals, and in repeating patterns. "
    "exhaustive: for intervals of 1-20 ns every sequence of gaps (0 to 2 intervals + 2) to a depth of 3-8 calls. "
    "Oracle in exact rationals: delay < interval + 1 ns, and every window of k+1 releases > (k-1) intervals. "
    "ctor: non-positive, NaN, infinite, above 10^9 rates are refused, by the policer and by both clients. "
    "session: sync and async clients with limit_rps, an RPSPolicer or a scripted BasePolicer over gets, walks, fetch, refresh and context entry, answered or not; "
    "every datagram seen by the agent must have been released by the policer, once. "
    "Non-trivial: at least two calls one of which is delayed and one is not (session: at least two requests)."
)
ASSUMPTIONS = [
    "the clock counts whole nanoseconds, so a delay may exceed 1/rps by less than 1 ns",
    "1/rps may be rounded to the nearest double of nanoseconds",
    "limit_rps=0 and limit_rps=None make a session without a limit",
]
NS = 10**9


class Window:
    """Every k+1 consecutive releases span more than (k-1) intervals."""

    def __init__(self, rps):
        # exactly, and as the nearest double: either may be used
        i = [NS / Fraction(rps), Fraction(NS / rps)]
        self.num, self.unit = min(i).denominator, min(i).numerator
        self.longest = max(i) + 1
        self.n = 0
        self.top = None
        self.at = 0
        self.last = None

    def release(self, t, delay, history):
        if delay >= self.longest:
            raise Violation(f"rps {history['rps']!r}: request {self.n} at {t - delay} ns is delayed by {delay} ns, more than an interval")
        q = t * self.num - self.n * self.unit
        if self.top is not None and q - self.top <= -self.unit:
            k = self.n - self.at
            raise Violation(
                f"rps {history['rps']!r}: {k + 1} consecutive releases (requests {self.at}..{self.n}) span {float(Fraction(q - self.top, self.num) + Fraction(k * self.unit, self.num)):.6f} ns, "
                f"not more than {k - 1} intervals of {float(Fraction(self.unit, self.num)):.6f} ns"
            )
        if self.top is None or q > self.top:
            self.top, self.at = q, self.n
        self.n += 1


def delay_of(r):
    if r is None:
        return 0
    if isinstance(r, int):
        return max(r, 0)
    return max(Fraction(r), 0)


def play(lib, rps, t0, gaps, win=None):
    """Feed the policer; returns (delayed, passed)."""
    try:
        p = lib.RPSPolicer(rps)
    except Exception as e:  # noqa: BLE001
        if 1e-6 <= rps <= 1e6:
            raise Violation(f"RPSPolicer({rps!r}) is refused: {type(e).__name__}: {e}") from e
        return None
    w = Window(rps)
    h = {"rps": rps}
    t = t0
    delayed = passed = 0
    for g in itertools.chain((0,), gaps):
        t += g
        d = delay_of(p.get_timeout(t))
        t += d
        if d:
            delayed += 1
        else:
            passed += 1
        w.release(t, d, h)
        if type(t) is not int:
            t = math.ceil(t)
    return delayed, passed


# ------------------------------------------------------------- sequences
def rate(s):
    k = s.below(9)
    if k == 0:
        return s.int(1, 1000)
    if k == 1:
        return NS / s.int(1, 64)
    if k == 2:
        return float(s.choice((1, 2, 3, 5, 7, 9, 11, 13, 300, 333, 999, 1001)) * 10 ** s.int(0, 5))
    if k == 3:
        # intervals of a few ns and a fraction
        return NS / (s.int(1, 30) + s.int(1, 63) / 64)
    if k == 4:
        return s.int(1, 1 << 20) / (1 << s.int(0, 22))
    if k == 5:
        x = NS / s.int(1, 2000)
        return math.nextafter(x, 0.0 if s.bool() else 1e18)
    if k == 6:
        return s.choice((1e9, math.nextafter(1e9, 0), 5e8, math.nextafter(5e8, 1e9), 1e9 / 3, 0.001, 0.1, 0.5, 1.5, 1e-3, 1e-6, 123456.789, 1 / 3))
    if k == 7:
        return s.int(1, NS)
    return 1.0 + s.below(1 << 30) / 7


def gap(s, d):
    k = s.below(10)
    if k == 0:
        return 0
    if k == 1:
        return s.below(d)
    if k == 2:
        return max(0, d + s.choice((-2, -1, 0, 1, 2)))
    if k == 3:
        return s.int(0, 2 * d)
    if k == 4:
        return max(0, d * s.int(1, 20) + s.choice((-1, 0, 1)))
    if k == 5:
        return d * s.int(1, 100) + s.below(d)
    if k == 6:
        return s.below(1 << s.int(1, 62))
    if k == 7:
        return s.choice((1, 2, 3))
    if k == 8:
        return max(0, 2 * d - s.int(1, 3))
    return d // s.int(2, 9)


def seq_strategy(s):
    rps = rate(s)
    d = max(1, math.ceil(NS / rps))

    def seg(s):
        return [s.list(lambda s: gap(s, d), 1, 4), s.choice((1, 1, 2, 10, 100, 300))]

    return {"rps": rps, "t0": s.choice((0, 1, s.below(1 << 50), (1 << 62) + 5, (1 << 31) - 1)), "segs": s.list(seg, 1, 5)}


def run_seq(lib, case):
    gaps = [g for gs, n in case["segs"] for _ in range(n) for g in gs][:2000]
    r = play(lib, case["rps"], case["t0"], gaps)
    if r is None:
        return ["refused"], False
    d, p = r
    return ["<20 ns" if case["rps"] > NS / 20 else "<1 us" if case["rps"] > 1e6 else "longer", "delayed" if d else "never-delayed", f"calls:{10 ** len(str(len(gaps)))}"], bool(d and p > 1)


# ------------------------------------------------------------ exhaustive
def tree_strategy(s):
    d = s.int(1, 20)
    frac = s.below(8)
    return {"rps": NS / (d + frac / 8), "t0": s.below(1000), "prefix": s.list(lambda s: s.below(2 * d + 3), 0, 6), "max": 2 * d + 2, "depth": 3 if d < 8 else 2}


def run_tree(lib, case):
    n = 0
    for tail in itertools.product(range(case["max"] + 1), repeat=case["depth"]):
        play(lib, case["rps"], case["t0"], case["prefix"] + list(tail))
        n += 1
    return [f"sequences:{10 ** len(str(n))}", f"depth:{len(case['prefix']) + case['depth']}"], True


def tree_explicit(tier):
    """All sequences of gaps 0..2d+2, split by the first two."""
    out = []
    deep = 1 if tier == "thorough" else 0
    for d, depth in ((1, 6), (2, 5), (3, 4), (4, 4), (5, 3), (7, 3), (10, 3)):
        for rps in (NS / d, NS / (d + 0.5)):
            m = 2 * d + 2
            for a in range(m + 1):
                for b in range(m + 1):
                    out.append({"rps": rps, "t0": 100, "prefix": [a, b], "max": m, "depth": depth - 2 + deep})
    return out


# ------------------------------------------------------------------ ctor
BAD = [0, 0.0, -0.0, -1, -1.0, -0.5, -1e-9, -1e300, -5e-324, float("nan"), float("inf"), float("-inf"), -NS, 1e10, 1.5e9, math.nextafter(1e9, 2e9), NS + 1, 2 * NS, 1e300, 10**15]


def bad_strategy(s):
    k = s.below(3)
    if k == 0:
        return {"bad": -(s.below(1 << 60) / (1 << s.int(0, 60)))}
    if k == 1:
        return {"bad": NS * (1 + s.int(1, 1 << 40) / (1 << 40))}
    return {"bad": float(s.int(NS + 1, 1 << s.int(31, 63)))}


def run_bad(lib, case):
    x = case["bad"]
    if isinstance(x, str):
        x = float(x)
    for name, fn in (
        ("RPSPolicer", lambda: lib.RPSPolicer(x)),
        ("sync SnmpSession", lambda: lib.SyncSession("127.0.0.1", port=1, limit_rps=x)),
        ("async SnmpSession", lambda: mk(lib, x)),
    ):
        if name != "RPSPolicer" and not x:
            continue  # no limit
        try:
            fn()
        except Exception:  # noqa: BLE001, S112
            continue
        raise Violation(f"{name} accepts the rate {x!r}")
    return ["high" if x > 0 else "non-positive" if x <= 0 else "nan"], True


def mk(lib, x):
    async def f():
        return lib.AsyncSession("127.0.0.1", port=1, limit_rps=x)

    return drive.loop().run_until_complete(f())


def bad_explicit(tier):
    # text: not all of them survive in JSON
    return [{"bad": x if isinstance(x, int) else repr(x)} for x in BAD]


# --------------------------------------------------------------- session
OPS = ("get", "get", "many", "next", "bulk", "fetch", "refresh", "enter", "silent", "report", "badoid")


MAXREPS = (None, 1, 2, 20, 49, 51, 100, 127, 128, 1000, 65536)


def ses_strategy(s):
    c = gen.conf_v12(s) if s.bool() else gen.conf_v3(s, types=(1, 2))
    if c["v"] != 3 and not c["community"]:
        c["community"] = "public"
    mode = s.choice(("limit", "limit", "policer", "script"))
    case = {"conf": c, "api": s.choice(("sync", "async")), "mode": mode, "disc": c["v"] == 3 and s.chance(3)}
    if mode == "script":
        case["script"] = s.list(lambda s: s.choice((None, 0, 1, -5, 100_000, 1_000_000, 3_000_000, 10_000_000)), 1, 6)
    else:
        case["rps"] = s.choice((1000, 500, 200, 100, 1000.0, 333.3, 150.5, 77, 400, 250))
    case["ops"] = s.list(lambda s: [s.choice(OPS), s.int(1, 6), s.choice((0, 0, 0, 1, 3, 12))], 1, 6)
    case["max"] = s.choice(MAXREPS)
    case["page"] = s.choice((3, 1, 2, 20))
    case["many"] = s.choice((2, 0, 1, 5, 60))
    case["kw"] = {"allow_bulk": not s.chance(4), "max_repetitions": s.choice((20, 1, 5, 100, 1000))}
    return case


def scripted(lib):
    class Scripted(lib.BasePolicer):
        def __init__(self, script):
            self.script = script
            self.log = []

        def get_timeout(self, ts):
            r = self.script[len(self.log) % len(self.script)]
            self.log.append((ts, r or 0, time.perf_counter_ns()))
            return r

    return Scripted


def run_session(lib, case):
    c, api, mode = case["conf"], case["api"], case["mode"]
    st = {"answer": True, "left": 0}
    obs = []  # (when the agent saw it, not released before this, op)
    cur = {"start": 0, "op": None}
    policer = None
    kw = dict(case.get("kw", {}))
    if mode == "limit":
        kw["limit_rps"] = case["rps"]
    elif mode == "policer":
        kw["policer"] = lib.RPSPolicer(case["rps"])
    else:
        policer = kw["policer"] = scripted(lib)(case["script"])
    grants = [0]

    def handler(agent, raw):
        now = time.perf_counter_ns()
        start = cur["start"]
        if obs and obs[-1][2] == cur["op"]:
            start = max(start, obs[-1][0])
        n = len(obs)
        obs.append((now, start, cur["op"]))
        if policer is None:
            interval = NS / Fraction(case["rps"])
            for i in range(n):
                if now - obs[i][1] <= (n - i - 1) * interval:
                    raise Violation(
                        f"{case['rps']!r} rps ({mode}): request {n} ({cur['op']}) was there {now - obs[i][1]} ns after request {i} was asked for: "
                        f"{n - i + 1} releases within {n - i - 1} intervals of {float(interval):.0f} ns"
                    )
        else:
            log = policer.log
            if len(log) <= grants[0]:
                raise Violation(f"request {n} ({cur['op']}) was sent without asking the policer")
            ts, d, _ = log[-1]
            if now < ts + d:
                raise Violation(f"request {n} ({cur['op']}) was there {now - ts} ns after the policer asked to wait for {d} ns")
            if len(log) != grants[0] + 1:
                raise Violation(f"request {n} ({cur['op']}) asked the policer {len(log) - grants[0]} times")
            if not start <= ts <= now:
                raise Violation(f"request {n} ({cur['op']}): the policer was given the time {ts}, the request was asked for at {start} and seen at {now}")
            if now - ts - d > 150_000_000 + 0.6 * d:
                raise Violation(f"request {n} ({cur['op']}) was there {now - ts} ns after the policer asked to wait for {d} ns", soft=True)
            grants[0] = len(log)
        if policer is None and now - start > interval + 250_000_000:
            raise Violation(f"{case['rps']!r} rps ({mode}): request {n} ({cur['op']}) was delayed by {now - start} ns", soft=True)
        p = snmp.parse(raw, strict=False)
        if c["v"] == 3 and p["engine_id"] == b"":
            return [agent.report(p, user=p["user"])]
        if not st["answer"]:
            return []
        if c["v"] == 3:
            agent.open(p)
            if cur["op"][1] == "report":
                return [agent.report(p)]
            if not p["vars"]:
                return [agent.report(p, plain=False)]
        o = list(p["vars"][0][0]) if p["vars"] else [1, 3, 6]
        if p["pdu"] == snmp.GET:
            return [agent.response(p, [snmp.varbind(o, ber.enc_int(1))])]
        o = o + [0] if len(o) < 6 else o
        return [agent.response(p, [snmp.varbind(o[:-1] + [o[-1] + i], ber.enc_int(i)) for i in range(1, 1 + (max(1, min(case.get("page", 3), p["b"])) if p["pdu"] == snmp.GETBULK else 1))])]

    labels = [api, mode, f"v{c['v']}"]
    with Driver(lib, c, api, handler, boots=1, time=1, timeout=5.0, discover=case["disc"], **kw) as d:

        def do(i, op, steps):
            cur["op"] = (i, op)
            st["answer"] = op != "silent"
            if policer is not None:
                grants[0] = len(policer.log)
            cur["start"] = time.perf_counter_ns()
            n = d.served
            if op == "refresh":
                d.refresh()
            elif op == "enter":
                d._run(d.session.__enter__ if api == "sync" else d.session.__aenter__)
                d.finish(None)
            elif op == "many":
                d.get_many([f"1.3.6.1.{2 + i}" for i in range(case.get("many", 2))])
            elif op == "badoid":
                d.get("1.3.6.x")
            elif op in ("next", "bulk", "fetch"):
                d.walk(op, "1.3.6.1.2", steps, case.get("max") if op == "bulk" else None)
            else:
                d.get("1.3.6.1.2")
            if op in ("get", "many", "next", "bulk", "fetch", "silent"):
                d.await_requests(n + 1)
            labels.append(op)

        if case["disc"]:
            do(-1, "refresh", 0)
        for i, (op, steps, idle) in enumerate(case["ops"]):
            if op == "silent":
                if api == "sync" or not hasattr(d.session, "_timeout"):
                    continue  # its timeout is fixed
                d.session._timeout = 0.02
                do(i, op, steps)
                d.session._timeout = 5.0
            else:
                do(i, op, steps)
            if idle:
                time.sleep(idle / 1000)
    return labels, len(obs) >= 2


def ses_explicit(tier):
    out = []
    v3 = {"v": 3, "engine_id": b"\x80\0\x1f\x88\x04abc", "user": "user", "aalg": 2, "akt": 2, "akey": bytes(range(20)), "palg": 2, "pkt": 2, "pkey": bytes(range(20))}
    for c in ({"v": 1, "community": "public"}, {"v": 2, "community": "public"}, v3):
        for api in ("sync", "async"):
            for disc in (False, True) if c["v"] == 3 else (False,):
                for op in ("get", "many", "next", "bulk", "fetch", "refresh", "enter"):
                    if c["v"] == 1 and op == "bulk":
                        continue
                    ops = [[op, 6, 0]] * 4
                    out.append({"conf": c, "api": api, "mode": "limit", "rps": 100, "disc": disc, "ops": ops})
                    out.append({"conf": c, "api": api, "mode": "script", "script": [None, 10_000_000, 0], "disc": disc, "ops": ops})
            if c["v"] != 1:
                for mx in MAXREPS:
                    out.append({"conf": c, "api": api, "mode": "script", "script": [None, 3_000_000, 0, 100], "disc": False, "max": mx, "page": 2, "kw": {"max_repetitions": mx or 20}, "ops": [["bulk", 7, 0], ["fetch", 7, 0]]})
            for kw in ({"allow_bulk": False}, {"max_repetitions": 1}):
                out.append({"conf": c, "api": api, "mode": "script", "script": [None, 3_000_000, 0, 100], "disc": False, "kw": kw, "ops": [["fetch", 7, 0], ["next", 7, 0]]})
            # long enough to tell one sleep from two
            out.append({"conf": c, "api": api, "mode": "script", "script": [400_000_000], "disc": False, "ops": [["get", 1, 0]]})
    return out


PARTS = [
    Part("sequences", seq_strategy, run_seq, quick=60000, thorough=6000000),
    Part("exhaustive", tree_strategy, run_tree, quick=1500, thorough=60000, explicit=tree_explicit),
    Part("ctor", bad_strategy, run_bad, quick=2000, thorough=100000, explicit=bad_explicit),
    Part("session", ses_strategy, run_session, quick=2500, thorough=60000, explicit=ses_explicit, workers=16),
]
