"""C18: a request never outlives its timeout."""

import heapq
import os
import select
import signal
import threading
import time

from vlib import ber, crypt, drive, gen, snmp
from vlib.runner import Part, Violation
from vlib.snmp import Agent

crypt.selftest()

ID = "C18"
RULE = (
    "A case is a session (v1, v2c, v3 at every level; sync or async; timeout 0.4-0.9 s) and 1-3 requests one after another (get, get_many, getnext, "
    "getbulk, refresh), each answered by a schedule: strays (wrong id, community, user, MAC, engine, Reports; preloaded in a burst, "
    "every 1 ms to 0.9 timeout, ending before, at or long after the deadline) and the matching reply early, late or never. "
    "Oracle: a reply sent within the timeout (by the clock of the agent) is returned; otherwise TimeoutError, not "
    "before the timeout and at most 0.6 s after it; a late reply never answers the next request. An alarm counts if it repeats twice. flood: three processes send strays as fast as they can for longer than the timeout. "
    "Non-trivial: strays arrive while the request waits, or the reply comes late or never."
)
ASSUMPTIONS = [
    "refresh() before the engine id is known is two requests, each with its timeout",
    "0.6 s of scheduling slack; replies closer than 60 ms to the deadline are free",
]
HANG_IS_VIOLATION = True
HANG_S = 40
WORKERS = 40
SLACK = 0.6
MARGIN = 0.06

V12 = ("id", "community", "report")
V3 = ("msgid", "rid", "user", "engine", "mac", "plain")


def gen_call(s, c):
    ops = ["get", "get", "many", "next"]
    if c["v"] != 1:
        ops.append("bulk")
    if c["v"] == 3 and c["aalg"]:
        ops.append("refresh")
    r = {"op": s.choice(ops), "reply": s.choice((None, None, 0.0, 0.3, 0.6, 0.75, 1.4)), "burst": s.choice((0, 0, 1, 30, 150))}
    if s.chance(4):
        r["gap"] = None
    else:
        r["gap"] = s.choice((0.3, 0.6, 0.9, 0.45, 0.1, 0.02, 0.002))
        r["until"] = s.choice((9.0, 9.0, 1.0, 0.95, 0.6))
        r["kinds"] = s.list(lambda s: s.choice(V3 if c["v"] == 3 else V12), 1, 3)
    if r["op"] in ("next", "bulk"):
        # go on with the walk of the call before
        r["cont"] = s.chance(2)
    if s.chance(6):
        # signals arriving (and handled) all the while
        r["sig"] = s.choice((0.3, 0.07, 0.6, 0.9))
    return r


def strategy(s):
    c = gen.conf_v12(s) if s.bool() else gen.conf_v3(s, types=(1, 2))
    if c["v"] != 3 and not c["community"]:
        c["community"] = "public"
    t = s.choice(TIMES) if s.chance(3) else s.choice((0.4, 0.6, 0.9))
    return {
        "conf": c,
        "api": s.choice(("sync", "sync", "async")),
        "t": t,
        "disc": c["v"] == 3 and s.chance(6) and t >= 0.2,
        "calls": s.list(lambda s: gen_call(s, c), 1, 3),
    }


# as given to the session; some of them whole numbers, some tiny
TIMES = (0.05, 0.1, 0.2, 0.25, 1, 1.0, 1.1, 1.4, 1.75, 2, 1.999, 2.6, 0.4, 0.001, 0.000001)


class TimedAgent(threading.Thread):
    """Sends scheduled datagrams; the schedule of a call starts when its
    request arrives."""

    def __init__(self, agent, case):
        super().__init__(daemon=True)
        self.agent = agent
        self.case = case
        self.queue = []
        self.n = 0
        self.call = None
        self.serial = 0
        self.replied = None  # when the matching reply of the call was sent
        self.strays = 0
        self.seen = 0
        self.stop = False
        self.error = None
        self.done = threading.Event()

    def run(self):
        try:
            self.serve()
        except BaseException as e:  # noqa: BLE001
            self.error = e

    def serve(self):
        a = self.agent
        while not self.stop:
            now = time.monotonic()
            while self.queue and self.queue[0][0] <= now:
                _, _, data, mark, call = heapq.heappop(self.queue)
                if mark == "rescue" and (self.done.is_set() or call is not self.call):
                    continue
                if mark == "stray" and self.done.is_set():
                    continue
                # noted before the library can have it
                if mark == "reply" and call is self.call and self.replied is None:
                    self.replied = time.monotonic()
                if mark == "stray":
                    self.strays += 1
                try:
                    a.send(data)
                except OSError:
                    self.replied = None
            wait = min(0.05, max(0.0, self.queue[0][0] - time.monotonic())) if self.queue else 0.05
            if select.select([a.sock], [], [], wait)[0]:
                raw, a.client = a.sock.recvfrom(65536)
                self.request(raw, time.monotonic())
                self.seen += 1

    def put(self, at, data, mark):
        self.n += 1
        heapq.heappush(self.queue, (at, self.n, data, mark, self.call))

    def request(self, raw, now):
        a, call, t = self.agent, self.call, self.case["t"]
        p = snmp.parse(raw, strict=False)
        c = a.conf
        if c["v"] == 3 and p["engine_id"] == b"":
            self.put(now, a.report(p, user=p["user"]), "discovery")
            return
        if c["v"] == 3:
            a.open(p)
        if call["op"] == "discover":
            self.put(now, a.report(p, plain=False), "reply")
            return
        good = self.good(p)
        if call["reply"] is not None:
            self.put(now + call["reply"] * t, good, "reply")
        self.put(now + t + SLACK + 0.4, good, "rescue")
        strays = [self.stray(p, k) for k in call.get("kinds", [])]
        if strays:
            for i in range(call["burst"]):
                self.put(now - 1, strays[i % len(strays)], "stray")
            at, i = call["gap"] * t, 0
            end = min(call["until"] * t, t + SLACK + 0.3)
            while at < end:
                self.put(now + at, strays[i % len(strays)], "stray")
                at += call["gap"] * t
                i += 1

    def good(self, p):
        a = self.agent
        if self.call["op"] == "refresh":
            return a.report(p, plain=False)
        o = list(p["vars"][0][0])
        if self.call["op"] in ("next", "bulk"):
            o = o + [1]
        return a.response(p, [snmp.varbind(o, ber.enc_int(self.serial))])

    def stray(self, p, kind):
        a, c = self.agent, self.agent.conf
        vb = [snmp.varbind([1, 3, 6, 9], ber.enc_int(999999))]
        if c["v"] != 3:
            if kind == "id":
                return a.response(p, vb, rid=p["id"] ^ 1)
            if kind == "community":
                return a.response(p, vb, community=c["community"].encode() + b"!")
            return snmp.msg_community(c["v"] - 1, c["community"].encode(), snmp.pdu(snmp.REPORT, p["id"], vb))
        if kind in ("mac", "plain") and not c["aalg"]:
            kind = "user"
        if kind == "msgid":
            return a.response(p, vb, msg_id=p["msg_id"] ^ 1)
        if kind == "rid":
            return a.response(p, vb, rid=p["id"] ^ 1)
        if kind == "user":
            return a.response(p, vb, user=c["user"].encode() + b"!")
        if kind == "engine":
            return a.response(p, vb, engine_id=a.engine_id + b"!")
        if kind == "plain":
            return a.response(p, vb, plain=True)
        return a.response(p, vb, auth_params=b"\x01" * 12)


def invoke(lib, session, api, op, walks=None, cont=False, sig=None):
    """('ok', value) or ('exc', e), and the seconds it took."""
    if op in ("next", "bulk"):
        if not cont or walks is None or op not in walks:
            it = session.getnext("1.3.6.1") if op == "next" else session.getbulk("1.3.6.1", 5)
            it = iter(it) if api == "sync" else aiter(it)
            if walks is not None:
                walks[op] = it
        else:
            it = walks[op]
    if sig:
        signal.signal(signal.SIGALRM, lambda *a: None)
        signal.setitimer(signal.ITIMER_REAL, sig, sig)
    t0 = time.monotonic()
    try:
        if op in ("next", "bulk"):
            v = next(it)[1] if api == "sync" else drive.loop().run_until_complete(_anext(it))[1]
        elif api == "sync":
            v = sync_call(session, op)
        else:
            v = drive.loop().run_until_complete(async_call(session, op))
        r = "ok", v
    except Exception as e:  # noqa: BLE001
        r = "exc", e
    finally:
        t1 = time.monotonic()
        if sig:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return (*r, t0, t1 - t0)


async def _anext(it):
    return await anext(it)


def sync_call(s, op):
    if op == "get":
        return s.get("1.3.6.1.2")
    if op == "many":
        return list(s.get_many(["1.3.6.1.2"]).values())[0]
    return s.refresh()


async def async_call(s, op):
    if op == "get":
        return await s.get("1.3.6.1.2")
    if op == "many":
        return list((await s.get_many(["1.3.6.1.2"])).values())[0]
    return await s.refresh()


def run(lib, case):
    c, api, t = case["conf"], case["api"], case["t"]
    agent = Agent(c, boots=3, time=4)
    ta = TimedAgent(agent, case)
    labels = [api, f"v{c['v']}" + ("p" if c.get("palg") else "a" if c.get("aalg") else "")]
    kw = {"timeout": t}
    if case["disc"]:
        kw["engine_id"] = None
    ta.start()
    nt = False
    walks = {}
    try:
        if api == "sync":
            session = snmp.sync_session(lib, c, agent.port, **kw)
        else:

            async def mk():
                return snmp.async_session(lib, c, agent.port, **kw)

            session = drive.loop().run_until_complete(mk())
        if case["disc"]:
            ta.call = {"op": "discover"}
            k, v, _, dur = invoke(lib, session, api, "discover")
            if k != "ok":
                raise Violation(f"discovery: {type(v).__name__} {v} after {dur:.2f} s", soft=True)
            labels.append("discovered")
        for i, call in enumerate(case["calls"]):
            ta.serial, ta.replied, ta.strays = 1000 + i, None, 0
            ta.done.clear()
            ta.call = call
            sig = call.get("sig")
            seen = ta.seen
            k, v, t0, dur = invoke(lib, session, api, call["op"], walks, call.get("cont"), max(sig * t, 0.002) if sig else None)
            ta.done.set()
            if sig:
                labels.append("signals")
            replied, strays = ta.replied, ta.strays
            # a request may be sent only to time out at once
            lim = time.monotonic() + 0.3
            while ta.seen == seen and time.monotonic() < lim and not ta.error:
                time.sleep(0.001)
            if ta.error:
                raise ta.error
            what = f"request {i} ({call['op']}{' continued' if call.get('cont') else ''}, timeout {t} s, {strays} strays{', signals' if sig else ''}, reply {'at %.3f s' % (replied - t0) if replied else 'not sent'})"
            shown = f"{type(v).__name__} {v}" if k == "exc" else f"{v!r}"
            want = None if call["op"] == "refresh" else ta.serial
            if dur > t + SLACK:
                raise Violation(f"{what}: returned {shown} after {dur:.3f} s", soft=True)
            if k == "ok":
                if replied is None:
                    raise Violation(f"{what}: returned {shown} after {dur:.3f} s", soft=True)
                if v != want:
                    raise Violation(f"{what}: returned {shown}, {want!r} expected")
                labels.append("delivered" + ("-after-strays" if strays else ""))
            else:
                if not isinstance(v, TimeoutError):
                    raise Violation(f"{what}: {shown} instead of TimeoutError after {dur:.3f} s", soft=True)
                if dur < t - 0.02:
                    raise Violation(f"{what}: {shown} already after {dur:.3f} s", soft=True)
                if replied is not None and replied - t0 < t - MARGIN:
                    raise Violation(f"{what}: {shown} after {dur:.3f} s", soft=True)
                labels.append("timeout" + ("-strays" if strays else "-silence") + ("-late" if call["reply"] else ""))
            nt = nt or strays > 0 or call["reply"] is None or call["reply"] > 1
        return labels, nt
    finally:
        ta.stop = True
        ta.join()
        agent.close()


def explicit(tier):
    """A stream of strays to each operation, and silence, for each client."""
    out = []
    a = {"aalg": 2, "akt": 2, "akey": bytes(range(20))}
    v3 = {"v": 3, "engine_id": b"\x80\0\x1f\x88\x04abc", "user": "user", "aalg": 0, "akt": 0, "akey": b"", "palg": 0, "pkt": 0, "pkey": b""}
    confs = [{"v": 1, "community": "public"}, {"v": 2, "community": "public"}, v3, {**v3, **a}, {**v3, **a, "palg": 2, "pkt": 2, "pkey": bytes(range(20))}]
    for c in confs:
        for api in ("sync", "async"):
            kinds = list(V3 if c["v"] == 3 else V12)
            for op in ("get", "many", "next", "bulk", "refresh"):
                if c["v"] == 1 and op == "bulk" or op == "refresh" and not c.get("aalg"):
                    continue
                st = {"op": op, "burst": 0, "gap": 0.6, "until": 9.0, "kinds": kinds}
                out.append({"conf": c, "api": api, "t": 0.4, "disc": False, "calls": [{**st, "reply": None}, {**st, "gap": 0.9, "reply": 0.75, "burst": 3}, {"op": op, "burst": 0, "gap": None, "reply": 0.75}]})
            out.append({"conf": c, "api": api, "t": 0.4, "disc": False, "calls": [{"op": "get", "burst": 100, "gap": 0.002, "until": 1.0, "kinds": kinds, "reply": None}]})
    # timeouts of every size, with silence and with replies at both ends
    for t in (*TIMES, 3.3, 1.5):
        for api in ("sync", "async"):
            for op in ("get", "bulk") if t == 1.75 else ("get",):
                c = confs[len(out) % 5]
                if c["v"] == 1:
                    op = "get"
                quiet = {"op": op, "burst": 0, "gap": None}
                out.append({"conf": c, "api": api, "t": t, "disc": False, "calls": [{**quiet, "reply": 0.9}, {**quiet, "reply": None}]})
    # walks that meet silence and go on
    for c in confs:
        for api in ("sync", "async"):
            for op in ("next", "bulk") if c["v"] != 1 else ("next",):
                quiet = {"op": op, "burst": 0, "gap": None, "cont": True}
                out.append({"conf": c, "api": api, "t": 0.4, "disc": False, "calls": [{**quiet, "reply": r} for r in (0.0, 0.75, None, 0.3, 1.4, 0.0)]})
    # signals
    for c in confs[1:4]:
        for api in ("sync", "async"):
            for op in ("get", "many", "next", "bulk", "refresh"):
                if op == "refresh" and not c.get("aalg"):
                    continue
                quiet = {"op": op, "burst": 0, "gap": None, "sig": 0.3}
                out.append({"conf": c, "api": api, "t": 0.4, "disc": False, "calls": [{**quiet, "reply": 0.75}, {**quiet, "reply": None}, {**quiet, "reply": 0.75, "gap": 0.25, "until": 9.0, "burst": 1, "kinds": kinds[:2] if c["v"] == 3 else ["id"]}]})
    return out


# ----------------------------------------------------------------- flood
def flood_strategy(s):
    c = gen.conf_v12(s) if s.chance(3) else gen.conf_v3(s, types=(1, 2))
    if c["v"] != 3 and not c["community"]:
        c["community"] = "public"
    op = s.choice(("get", "many", "next", "bulk") if c["v"] != 1 else ("get", "many", "next"))
    return {"conf": c, "api": s.choice(("async", "sync")), "op": op, "size": s.choice((3700, 10, 1000)), "kind": s.choice(("rid", "rid", "user")), "senders": 3, "t": 0.4}


def run_flood(lib, case):
    """Processes that send strays as fast as they can, for longer than the
    timeout: there is always one more to be read."""
    c, t = case["conf"], case["t"]
    agent = Agent(c, boots=3, time=4)
    agent.sock.settimeout(5)
    kids = []
    seen = []

    def serve():
        try:
            raw = agent.recv()
            p = snmp.parse(raw, strict=False)
            if c["v"] == 3:
                agent.open(p)
            over = {"rid": p["id"] ^ 1}
            if case["kind"] == "user":
                over = {"user": b"!"} if c["v"] == 3 else {"community": b"!"}
            d = agent.response(p, [snmp.varbind([1, 3, 6, 1, 2, 1], ber.octets(bytes(case["size"])))], **over)
            end = time.monotonic() + t + SLACK + 0.7
            for _ in range(case["senders"]):
                pid = os.fork()
                if pid == 0:
                    try:
                        while time.monotonic() < end:
                            for _ in range(100):
                                agent.sock.sendto(d, agent.client)
                    finally:
                        os._exit(0)
                kids.append(pid)
        except BaseException as e:  # noqa: BLE001
            seen.append(e)

    th = threading.Thread(target=serve)
    try:
        if case["api"] == "sync":
            session = snmp.sync_session(lib, c, agent.port, timeout=t)
        else:

            async def mk():
                return snmp.async_session(lib, c, agent.port, timeout=t)

            session = drive.loop().run_until_complete(mk())
        th.start()
        k, v, _, dur = invoke(lib, session, case["api"], case["op"])
        shown = f"{type(v).__name__} {v}" if k == "exc" else f"{v!r}"
        if k == "ok":
            raise Violation(f"a stray was delivered: {shown}")
        if dur > t + SLACK or not isinstance(v, TimeoutError):
            raise Violation(f"{case['op']}, timeout {t} s, strays without end: {shown} after {dur:.3f} s", soft=True)
        return [case["api"], f"v{c['v']}", f"size:{case['size']}"], True
    finally:
        if th.ident:
            th.join()
        for pid in kids:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        agent.close()
        if seen:
            raise seen[0]


def flood_explicit(tier):
    a = {"aalg": 2, "akt": 2, "akey": bytes(range(20))}
    v3 = {"v": 3, "engine_id": b"\x80\0\x1f\x88\x04abc", "user": "user", "aalg": 0, "akt": 0, "akey": b"", "palg": 0, "pkt": 0, "pkey": b""}
    confs = [{"v": 2, "community": "public"}, v3, {**v3, **a, "palg": 1, "pkt": 2, "pkey": bytes(range(20))}, {**v3, **a, "palg": 2, "pkt": 2, "pkey": bytes(range(20))}]
    return [{"conf": c, "api": api, "op": op, "size": 3700, "kind": "rid", "senders": 3, "t": 0.4} for c in confs for api, op in (("async", "get"), ("sync", "get"), ("async", "next"))]


PARTS = [Part("flood", flood_strategy, run_flood, quick=8, thorough=300, explicit=flood_explicit, workers=2), Part("schedules", strategy, run, quick=1100, thorough=20000, explicit=explicit, workers=WORKERS)]
