"""C04: only the reply to the outstanding request is ever delivered."""

import asyncio
import hashlib
import time

from vlib import ber, drive, gen, snmp
from vlib.drive import Driver
from vlib.history import repeated
from vlib.runner import Part, Violation
from vlib.snmp import dotted

ID = "C04"
RULE = (
    "A case is a session (v1/v2c/v3, any security level; raw socket, sync or async client) and a history of 1-6 calls "
    "(get, get_many, getnext, getbulk, refresh). The network answers each with a script of datagrams: replies to this or "
    "any earlier request (loss, delay, duplication, reordering), near misses (one of request-id, msgID, community, user, "
    "engine id or PDU type changed, correctly signed and encrypted otherwise), Reports, and datagrams that are no message "
    "of this version. Some requests are given up (cancelled) as soon as sent. A reference matcher over the numeric fields says which datagram ends the call and how. Non-trivial: "
    "at least one datagram is to be skipped or to end a call with an error. gather: 2-5 async sessions on one loop, all with a request in flight, "
    "replies in any order, stale ones between them, some requests cancelled or never answered. ids: no two of 64 consecutive requests of a "
    "session have the same identity (400 requests of mixed operations each)."
    " long: such histories repeated to 260-700 calls."
)
ASSUMPTIONS = [
    "request-ids or msgIDs outside 0..2^31-1 may be skipped or end the call with SnmpDecodeError",
    "request, Set and Trap PDUs carrying the matching request-id are not generated",
]

I31 = (1 << 31) - 1
PAIRS = [0, 1, 2, 0x100, 0x101, 0x10000, 0x01020304, 0x11020304, 0x01020305, 0x7FFFFFFF, 0x7F, 0x80, 0x8000, 0x40000001, 0x3FFFFFFF,
         0x0101010101010101, 0x80000000, 0xFFFFFFFF00000001]


def strategy(s):
    conf = gen.any_conf(s)
    n = s.int(1, 6)
    calls = []
    for i in range(n):
        op = s.choice(("get", "get", "many", "next", "bulk", "refresh"))
        if conf["v"] == 1 and op == "bulk":
            op = "next"
        if conf["v"] != 3 and op == "refresh":
            op = "get"
        calls.append({"op": op, "net": s.list(lambda s: gen_dgram(s, conf, i), 0, 5)})
        if s.chance(6):
            # sent, and given up at once (not with the sync client)
            calls[-1]["abandon"] = True
    blank = conf["v"] == 3 and not conf["aalg"] and s.chance(3)
    return {
        "conf": conf,
        # the engine is unknown before the first Report
        "blank": blank,
        "api": "raw" if blank else s.choice(("raw", "raw", "raw", "raw", "sync", "async")),
        "ids": s.list(lambda s: s.choice(PAIRS), 0, 12) if s.bool() else [],
        "calls": calls,
    }


def long_strategy(s):
    """A session used for hundreds of calls."""
    case = strategy(s)
    case["ids"] = []
    case["repeat"] = repeated(s, len(case["calls"]))
    return case


def gen_dgram(s, conf, i):
    """{'to': which request it answers (0 = the current one), 'mut': ...}"""
    to = s.below(3) if i else 0
    muts = ["none", "none", "rid", "rid", "oldrid", "cred", "pdu", "garbage"]
    if conf["v"] == 3:
        muts += ["msgid", "msgid", "oldmsgid", "engine", "report", "report-miss"]
    if s.chance(3):
        mut = "none"
    else:
        mut = s.choice(muts)
    return {"to": min(to, i), "mut": mut, "a": s.below(32), "b": s.below(48)}


def near(x, a, b):
    """A different integer that is close to x in some representation."""
    k = a % 8
    if k <= 2:
        y = x ^ (1 << (b % 31))
    elif k == 3:
        y = x + (1 if b & 1 else -1)
    elif k == 4:
        y = (x + (1 << 32)) if b & 1 else x - (1 << 32)
    elif k == 5:
        y = (x + (1 << 31)) if b & 1 else x - (1 << 31)
    elif k == 6:
        y = -x if b & 1 else ~x
    else:
        y = 0 if b & 1 else x & 0xFFFF if b & 2 else x >> 8
    return y if y != x else x ^ 1


def near_bytes(x, a, b):
    k = a % 6
    if k == 0 and x:
        i = b % len(x)
        return x[:i] + bytes([x[i] ^ (1 << (a % 8))]) + x[i + 1 :]
    if k == 1 and x:
        return x[:-1]
    if k == 2:
        return x + b"\0"
    if k == 3 and x.swapcase() != x:
        return x.swapcase()
    if k == 4 and x:
        return b""
    return x + b"x"


class Net:
    """The requests of a history and the datagrams still in flight."""

    def __init__(self, conf, blank=False):
        self.conf = conf
        self.engine = None if blank or conf["v"] != 3 else conf["engine_id"]
        self.reqs = []
        self.queue = []
        self.serial = 0

    def make(self, agent, dg, i, op_of, base_of):
        """(datagram, descriptor) for script entry dg of call i."""
        c = self.conf
        cur = self.reqs[i]
        j = i - dg["to"]
        to = self.reqs[j]
        self.serial += 1
        d = {"rid": to["id"], "msg_id": to.get("msg_id"), "val": self.serial, "for": j, "kind": "resp", "what": dg["mut"]}
        over = {}
        tag = snmp.RESPONSE
        mut, a, b = dg["mut"], dg["a"], dg["b"]
        d["eid"] = agent.engine_id
        if c["v"] == 3 and self.engine is None:
            # what is learned is learned from a Report
            if mut == "engine":
                over["engine_id"] = d["eid"] = near_bytes(agent.engine_id, a, b) or b"\0"
            mut = {"none": "report", "engine": "report", "oldrid": "rid", "oldmsgid": "msgid"}.get(mut, mut)
            d["what"] = mut
        if mut == "rid":
            d["rid"] = near(d["rid"], a, b)
        elif mut == "oldrid":
            d["rid"] = self.reqs[max(0, i - 1 - a % 3)]["id"]
            d["msg_id"] = cur.get("msg_id")
        elif mut == "msgid":
            d["msg_id"] = near(d["msg_id"], a, b)
        elif mut == "oldmsgid":
            d["msg_id"] = self.reqs[max(0, i - 1 - a % 3)]["msg_id"]
            d["rid"] = cur["id"]
        elif mut == "cred":
            if c["v"] == 3:
                over["user"] = near_bytes(c["user"].encode(), a, b)
            else:
                over["community"] = near_bytes(c["community"].encode(), a, b)
            d["foreign"] = True
        elif mut == "engine":
            over["engine_id"] = d["eid"] = near_bytes(agent.engine_id, a, b)
        elif mut == "pdu":
            # a request PDU is a well-formed message, too
            d["rid"] = near(d["rid"], 3 if a & 1 else 0, b)
            tags = [snmp.GET, snmp.GETNEXT] + ([snmp.GETBULK] if c["v"] != 1 else []) + ([snmp.REPORT] if c["v"] == 2 else [])
            tag = tags[a % len(tags)]
            if tag == snmp.REPORT:
                # v2c has no Reports: whatever its request-id is
                d["rid"] = to["id"] if b & 1 else d["rid"]
                d["v2report"] = True
            d["foreign"] = True
        elif mut in ("report", "report-miss"):
            d["kind"] = "report"
            if mut == "report-miss":
                if a & 1:
                    d["msg_id"] = near(d["msg_id"], 0, b)
                else:
                    over["user"] = near_bytes(c["user"].encode(), a >> 1, b)
                    d["foreign"] = True
            raw = agent.report(to, rid=d["rid"], msg_id=d["msg_id"], plain=bool(b & 1), **over)
            return raw, d
        if c["v"] == 3:
            over["msg_id"] = d["msg_id"]
        o = base_of(i) + [1]
        v = ber.enc_int(d["val"])
        vbs = [snmp.varbind(o, v if tag in (snmp.RESPONSE, snmp.REPORT) else b"\x05\0")]
        if mut == "garbage":
            d["kind"] = "garbage"
            return self.garbage(agent, to, vbs, a, b), d
        body = snmp.pdu(tag, d["rid"], vbs)
        return agent.reply(to, body, **over), d

    def garbage(self, agent, to, vbs, a, b):
        c = self.conf
        body = snmp.pdu(snmp.RESPONSE, to["id"], vbs)
        own = {1: 0, 2: 1, 3: 3}[c["v"]]
        k = a % 8
        if k <= 2:
            # another version of SNMP
            ver = [x for x in (0, 1, 3, 2, 4, -1, own + 256, own + (1 << 32), own - 256, own + 65536) if x != own][b % 9]
            if c["v"] == 3:
                if b % 3:
                    return agent.reply(to, body, version=ver)
                return snmp.msg_community(ver, b"public", body)
            return snmp.msg_community(ver, c["community"].encode(), body)
        good = agent.reply(to, body)
        if k == 3:
            return good[: 1 + b % (len(good) - 1)]
        if k == 4:
            return good + bytes(1 + b % 4)
        if k == 5 and a & 8 and not c.get("palg"):
            # a PDU tag of the application or the private class
            odd = bytes([snmp.RESPONSE ^ (0xC0 if b & 1 else 0x40)])
            return agent.reply(to, odd + body[1:])
        if k == 5:
            return bytes([b + 0x31 & 0xFF or 1]) + good[1:]
        if k == 6:
            return hashlib.sha256(bytes([a, b])).digest()[: b % 33].replace(b"\x30", b"\x31", 1)
        return b""

    def classify(self, d, cur):
        """'match', 'report', 'skip', 'dec' (must end the call) or 'odd'."""
        if d["kind"] == "garbage":
            return "dec"
        if d["what"] == "pdu" and d["rid"] == cur["id"] and (self.conf["v"] != 3 or d["msg_id"] == cur["msg_id"]) and not d.get("v2report"):
            r = "odd"
        elif d.get("foreign") or self.engine is not None and d["eid"] != self.engine:
            r = "skip"
        elif self.conf["v"] == 3 and d["msg_id"] != cur["msg_id"]:
            r = "skip"
        elif d["rid"] != cur["id"]:
            # a Report is matched by its msgID: RFC 3412 leaves its request-id open
            r = "odd" if d["kind"] == "report" else "skip"
        else:
            r = d["kind"] if d["kind"] == "report" else "match"
        for k in ("rid", "msg_id"):
            if d[k] is not None and not 0 <= d[k] <= I31:
                return "odd"
        return r

    def settle(self, cur):
        """What the current queue means for request cur:
        (outcome, descriptor, number of datagrams consumed, odd seen)."""
        odd = False
        for n, d in enumerate(self.queue):
            r = self.classify(d, cur)
            if r == "odd":
                odd = True
            elif r != "skip":
                return r, d, n + 1, odd
        return "wait", None, len(self.queue), odd


def run(lib, case):
    c = case["conf"]
    if case["ids"]:
        lib.rng.seed(int.from_bytes(hashlib.sha256(repr(case["ids"]).encode()).digest()[:8], "big"), u64=case["ids"])
    net = Net(c, case["blank"])
    labels = [f"v{c['v']}" + ("p" if c.get("palg") else "a" if c.get("aalg") else ""), case["api"]]
    st = {"i": 0}
    nt = False

    def base_of(i):
        return [1, 3, 6, 1, 4, 1]

    def handler(agent, raw):
        i = st["i"]
        p = agent.open(snmp.parse(raw, strict=False))
        net.reqs.append(p)
        out = []
        script = list(case["calls"][i % len(case["calls"])]["net"])
        if len(net.queue) > 60:
            # the socket holds no more than that many for sure
            script = []
        for dg in script:
            raw, d = net.make(agent, dg, i, None, base_of)
            if d["kind"] == "report" and net.classify(d, p) == "report" and d["what"] == "report-miss":
                continue
            out.append(raw)
            net.queue.append(d)
        if case["api"] != "raw" and net.settle(p)[0] == "wait" and not st["abandon"]:
            raw, d = net.make(agent, {"to": 0, "mut": "none", "a": 0, "b": 0}, i, None, base_of)
            out.append(raw)
            net.queue.append(d)
        return out

    if case["blank"]:
        labels.append("blank")
    with Driver(lib, c, case["api"], handler, blank=case["blank"]) as d:
        for i, call in enumerate(case["calls"] * case.get("repeat", 1)):
            st["i"] = i
            op = call["op"]
            if op == "refresh" and case["api"] != "raw" and not c["aalg"]:
                op = "get"
            o = dotted(base_of(i) + [1])
            st["abandon"] = abandoned(case, i) and (case["api"] == "raw" or not net.queue or d.held is not None)
            if not st["abandon"]:
                d.release()
            else:
                d.abandon(op, o if op in ("get", "many") else dotted(base_of(i)))
                labels.append("abandoned")
                continue
            if op == "get":
                k, v = d.get(o)
            elif op == "many":
                k, v = d.get_many([o])
                v = v.get(o, "absent") if k == "ok" else v
            elif op == "refresh":
                k, v = d.refresh()
            else:
                items, end = d.walk(op, dotted(base_of(i)), 1)
                if items:
                    k, v = "ok", items[0][1]
                elif end == "wait":
                    k, v = "wait", None
                else:
                    k, v = "exc", end
            d.await_requests(i + 1)
            want, desc, used, odd = net.settle(net.reqs[i])
            labels.append(f"{op}:{want}")
            for x in net.queue[: used - (want != "wait")]:
                labels.append("skip:" + x["what"])
                nt = True
            nt = nt or want == "dec"
            if odd and (k == "exc" and isinstance(v, lib.SnmpError) or op == "refresh"):
                labels.append("odd-refused")
                break
            verify(lib, net, i, op, want, desc, k, v)
            net.queue = net.queue[used:]
            if want in ("match", "report") and c["v"] == 3:
                net.engine = desc["eid"]
    return labels, nt


def abandoned(case, i):
    return bool(case["calls"][i % len(case["calls"])].get("abandon")) and case["api"] != "sync"


def verify(lib, net, i, op, want, desc, k, v):
    hist = f"call {i} ({op}), request {net.reqs[i]['id']:#x}, datagrams {[(x['what'], 'for call %d' % x['for'], hex(x['rid']), x['val']) for x in net.queue]}"
    shown = f"{type(v).__name__}: {v}" if k == "exc" else f"{k} {v!r}"
    if want == "wait":
        if k != "wait":
            raise Violation(f"{hist}: none matches, but the call ended with {shown}")
        return
    if k == "wait":
        raise Violation(f"{hist}: datagram {desc['val']} ends the call ({want}), but it kept waiting", soft=True)
    if want == "dec":
        if k != "exc" or not isinstance(v, lib.SnmpDecodeError):
            raise Violation(f"{hist}: datagram {desc['val']} is no message of this version, SnmpDecodeError expected, got {shown}")
        return
    if want == "report":
        if op == "refresh":
            if k != "ok":
                raise Violation(f"{hist}: a matching Report must complete refresh, got {shown}")
        elif k != "exc" or not isinstance(v, lib.SnmpAuthError):
            raise Violation(f"{hist}: a matching Report must raise SnmpAuthError, got {shown}")
        return
    if k != "ok":
        raise Violation(f"{hist}: the matching reply {desc['val']} was not delivered: {shown}")
    if op != "refresh" and v != desc["val"]:
        raise Violation(f"{hist}: {desc['val']} expected, got {v!r}")


# ---------------------------------------------- a request's id is its own
def ids_strategy(s):
    return {
        "conf": gen.any_conf(s),
        "ops": s.list(lambda s: s.choice(("get", "many", "next", "bulk")), 1, 4),
        "seed": s.below(1 << 64),
    }


def send_many(lib, case, sock, agent, seed, n):
    """Identities (request-id and msgID) of n requests given up at once."""
    lib.rng.seed(seed)
    o = "1.3.6.1"
    it, itb = lib.fast.GetIter(o, None), lib.fast.GetIter(o, 10)
    out = []
    for i in range(n):
        op = case["ops"][i % len(case["ops"])]
        if op == "get":
            sock.send_get(o)
        elif op == "many":
            sock.send_get_many([o, "1.3.7"])
        elif op == "next" or case["conf"]["v"] == 1:
            sock.send_get_next(it)
        else:
            sock.send_get_bulk(itb)
        p = agent.open(snmp.parse(agent.recv(), strict=False))
        out.append((p["id"], p.get("msg_id")))
    return out


def repeats(ids, window=64):
    """Pairs of requests close to each other with the same identity."""
    last = {}
    out = []
    for i, x in enumerate(ids):
        if x in last and i - last[x] <= window:
            out.append((last[x], i))
        last[x] = i
    return out


def run_ids(lib, case):
    """A late reply to a request of which the id is used again answers a
    different request.  Two repeats within thousands of requests are no
    accident (31 bits), one in hundreds is looked into."""
    c = case["conf"]
    agent = snmp.Agent(c)
    try:
        sock = snmp.make_sock(lib, c, agent.port)
        first = send_many(lib, case, sock, agent, case["seed"], 400)
        r = repeats(first)
        if r:
            more = send_many(lib, case, sock, agent, case["seed"] ^ 0x5A5A, 6000)
            if len(repeats(more)) > 1:
                i, j = r[0]
                raise Violation(f"requests {i} and {j} of one session both have (request-id, msgID) {first[i]}: the reply to one answers the other")
    finally:
        agent.close()
    return [f"v{c['v']}"] + sorted(set(case["ops"])), len(case["ops"]) > 1


# ----------------------------------------- sessions in flight at one time
def gather_strategy(s):
    n = s.int(2, 5)
    return {
        "confs": [gen.any_conf(s) for _ in range(n)],
        # a session whose last request is not answered
        "mute": s.below(n) if s.chance(12) else None,
        "steps": s.list(lambda s: [gen_flight(s) for _ in range(n)], 1, 4),
        "base": s.below(1 << 24),
    }


def gen_flight(s):
    if s.chance(6):
        return None
    return {
        "op": s.choice(("get", "get", "many", "next", "bulk")),
        "at": s.below(100),  # replies are sent in this order
        "late": s.chance(3),  # an earlier reply comes once more before
        "cancel": s.chance(6),
        "yields": s.choice((0, 0, 1, 3)),
    }


async def flight(session, op, o):
    if op == "get":
        return await session.get(o + ".1")
    if op == "many":
        r = await session.get_many([o + ".1"])
        return r.get(o + ".1", r)
    it = session.getnext(o) if op == "next" else session.getbulk(o)
    return (await anext(aiter(it)))[1]


def run_gather(lib, case):
    """Async sessions on one loop, all with a request in flight; the replies
    come in any order.  Some requests are cancelled, and their replies come
    nevertheless."""
    lp = drive.loop()
    confs = case["confs"]
    agents = [snmp.Agent(c) for c in confs]
    inbox = [[] for _ in confs]
    labels = [f"sessions:{len(confs)}"]
    base = "1.3.6.1.4"

    def reader(k):
        def f():
            try:
                data, agents[k].client = agents[k].sock.recvfrom(65536)
            except BlockingIOError:
                return
            inbox[k].append(data)

        return f

    async def play():
        old = [None] * len(confs)
        dead = set()
        sess = [snmp.async_session(lib, c, a.port, timeout=0.04 if k == case["mute"] else 10.0) for k, (c, a) in enumerate(zip(confs, agents))]
        for n, step in enumerate(case["steps"]):
            tasks, reply, want = {}, {}, {}
            for k, fl in enumerate(step):
                if fl is None or k in dead:
                    continue
                op = "next" if confs[k]["v"] == 1 and fl["op"] == "bulk" else fl["op"]
                inbox[k].clear()
                tasks[k] = asyncio.ensure_future(flight(sess[k], op, f"{base}.{k}"))
            end = time.monotonic() + 5
            while not all(inbox[k] or tasks[k].done() for k in tasks) and time.monotonic() < end:
                await asyncio.sleep(0)
            for k in list(tasks):
                where = f"step {n}, session {k} of {len(confs)}"
                if k == case["mute"] and tasks[k].done():
                    dead.add(k)
                    tasks.pop(k).exception()
                    continue
                if not inbox[k]:
                    r = tasks[k].exception() if tasks[k].done() else None
                    for t in tasks.values():
                        t.cancel()
                    raise Violation(f"{where}: no request was sent: {r!r}", soft=True)
                p = agents[k].open(snmp.parse(inbox[k][0], strict=False))
                want[k] = case["base"] + 100 * n + k
                o = [1, 3, 6, 1, 4, k, 1]
                reply[k] = agents[k].response(p, [snmp.varbind(o, ber.enc_int(want[k]))])
                if step[k]["cancel"]:
                    tasks[k].cancel()
                    labels.append("cancelled")
            for k in sorted(tasks, key=lambda k: step[k]["at"]):
                fl = step[k]
                if k == case["mute"] and n == len(case["steps"]) - 1:
                    continue
                if fl["late"] and old[k]:
                    agents[k].send(old[k])
                    labels.append("late")
                agents[k].send(reply[k])
                old[k] = reply[k]
                for _ in range(fl["yields"]):
                    await asyncio.sleep(0)
            res = await asyncio.gather(*tasks.values(), return_exceptions=True)
            for k, r in zip(tasks, res):
                where = f"step {n}, session {k} of {len(confs)} ({step[k]['op']})"
                if k == case["mute"] and isinstance(r, TimeoutError):
                    dead.add(k)
                    labels.append("mute")
                elif step[k]["cancel"] and isinstance(r, asyncio.CancelledError):
                    pass
                elif isinstance(r, TimeoutError):
                    raise Violation(f"{where}: the reply came, but the call timed out", soft=True)
                elif isinstance(r, BaseException):
                    raise Violation(f"{where}: {type(r).__name__}: {r}")
                elif r != want[k]:
                    raise Violation(f"{where}: {want[k]} was sent, {r!r} delivered (each of the values sent: {sorted(want.values())})")
                else:
                    labels.append("ok")
        await asyncio.sleep(0)

    try:
        for k, a in enumerate(agents):
            a.sock.setblocking(False)
            lp.add_reader(a.sock.fileno(), reader(k))
        lp.run_until_complete(play())
    finally:
        for a in agents:
            lp.remove_reader(a.sock.fileno())
            a.close()
    return labels, "late" in labels or labels.count("ok") > 2


PARTS = [
    Part("network", strategy, run, quick=130000, thorough=4000000),
    Part("long", long_strategy, run, quick=160, thorough=16000),
    Part("gather", gather_strategy, run_gather, quick=15000, thorough=500000),
    Part("ids", ids_strategy, run_ids, quick=700, thorough=20000),
]
