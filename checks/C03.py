"""C03: requests on the wire are exactly what the caller asked for."""

import errno

from vlib import ber, crypt, gen, snmp, wire
from vlib.drive import Driver
from vlib.history import repeated
from vlib.runner import Part, Violation
from vlib.snmp import dotted

crypt.selftest()

ID = "C03"
RULE = (
    "A case is a history: 1-3 sessions (v1/v2c/v3, any security level, raw socket, sync or async client) sharing the "
    "process's message buffers, and 1-10 operations over them (get, get_many, getnext and getbulk steps, fetch, refresh, refused and "
    "oversized requests), each answered by a matching reply, a stale or foreign reply before it, a 4 kB garbage "
    "datagram or nothing. Every datagram is decoded by an independent strict decoder and compared field by field. "
    "Non-trivial: at least two datagrams sent, or a multi-OID, long (>=128 octets) or v3 message."
    " long: such histories repeated to 260-700 operations."
)
ASSUMPTIONS = ["msgMaxSize, the reportable flag and the choice of ids within 0..2^31-1 are the library's own business"]

IDS = [0, 1, 0x7F, 0x80, 0xFF, 0x7FFF, 0x8000, 0x7FFFFF, 0x800000, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF, 1 << 63, (1 << 64) - 1,
       (1 << 31) | 127, 0xFFFFFFFF80000000, 0x8000000000000080]


def bad_text(s):
    """A text that names no object identifier."""
    k = s.below(5)
    if k == 0:
        return s.choice(("", "1", "1.a", "1..2", "x.1.2", ".", "1.3.6\0", "1,3,6", "1.3.1e3", "1.3.6.a", "iso.3.6"))
    if k == 1:
        # root arcs which do not exist, some of them an octet's worth away
        a, b = s.choice(((3, 1), (0, 40), (1, 40), (1, 296), (6, 16), (7, 3), (0, 43), (0, 299), (255, 0), (0, 4294967295), (107374182, 16)))
        return dotted([a, b] + s.list(lambda s: s.below(300), 0, 4))
    o = [str(a) for a in gen.oid(s, 3, 12)]
    i = s.int(2, len(o) - 1)
    if k == 2:
        # an arc beyond 32 bits, some of them 2^32 or 2^64 away from a good one
        o[i] = str(s.choice((1 << 32, (1 << 32) + int(o[i]), (1 << 33) - 1, (1 << 64) + int(o[i]), (1 << 63), 10**30)))
    elif k == 3:
        o[i] = s.choice(("-" + o[i], "a", o[i] + "a", "*", "+", "1e2", o[i] + "-"))
    else:
        o[i] += s.choice((":", "/", ",", ";")) + "1"
    return ".".join(o)


# around these, an encoder which narrows engine boots or time goes wrong
CLOCK = (127, 128, 255, 256, 32768, 65536, 1 << 23, 1 << 24, 1 << 30, (1 << 30) + (1 << 24), (1 << 31) - 100000)


def gen_op(s, confs):
    i = s.below(len(confs))
    c = confs[i]
    op = s.choice(("get", "many", "next", "bulk", "fetch", "refresh", "many", "step", "bad", "huge"))
    if c["v"] == 1 and op == "bulk":
        op = "next"
    if c["v"] != 3 and op == "refresh":
        op = "get"
    r = {"s": i, "op": op, "reply": s.choice(("ok", "ok", "ok", "stale", "garbage", "none", "end", "big"))}
    if op == "many":
        k = s.choice((1, 2, 3, 5, 10, 20, 40))
        r["oids"] = s.list(gen.oid, 0, k)
        j = s.below(6)
        if j == 1 and r["oids"]:
            # the same OID more than once
            for _ in range(s.int(1, 4)):
                r["oids"].insert(s.int(0, len(r["oids"])), s.choice(r["oids"]))
        elif j == 2:
            r["oids"] = [[1, 3, i] if i < 128 else [1, 3, i // 128, i % 128] for i in range(s.int(0, 380))]
        elif j == 3:
            r["oids"].insert(0, gen.deep_oid(s))
        elif j == 4:
            r["oids"] = sorted(r["oids"], reverse=s.bool())
        r["form"] = s.choice(("list", "list", "tuple", "gen", "keys"))
    elif op == "bad":
        r["text"] = bad_text(s)
        r["by"] = s.choice(("get", "many", "next") + (("bulk",) if c["v"] != 1 else ()))
    elif op != "huge":
        r["oids"] = [gen.oid(s, 2, 24) if not s.chance(10) else gen.deep_oid(s)[:127]]
    if op in ("bulk", "fetch"):
        r["max"] = s.choice((None, 1, 2, 10, 127, 128, 255, 256, 32767, 65536, (1 << 31) - 1))
    # the send buffer is full, or the network refuses the datagram
    r["fault"] = s.choice((None, None, None, None, "again", "refused"))
    return r


def strategy(s):
    confs = [gen.any_conf(s) for _ in range(s.choice((1, 2, 3)))]
    return {
        "confs": confs,
        "api": s.choice(("raw", "raw", "raw", "sync", "async")),
        "bulk": not s.chance(4),
        "maxrep": s.choice((20, 1, 50, 127, 128, 1000)),
        "ids": s.list(lambda s: s.choice(IDS), 0, 12),
        "ops": s.list(lambda s: gen_op(s, confs), 1, 10),
        # where the agents' clocks start (they run on during the history)
        "clock": [s.choice(CLOCK) - s.below(12) if s.chance(2) else 77 for _ in range(2)],
    }


def long_strategy(s):
    """Sessions used for hundreds of operations."""
    case = strategy(s)
    case["repeat"] = repeated(s, len(case["ops"]))
    return case


def run(lib, case):
    import hashlib

    if case["ids"]:
        lib.rng.seed(int.from_bytes(hashlib.sha256(repr(case["ids"]).encode()).digest()[:8], "big"), u64=case["ids"])
    drv = []
    try:
        return history(lib, case, drv)
    finally:
        for d in drv:
            d.close()


def history(lib, case, drv):
    labels = [case["api"]]
    sent = 0
    rich = False
    states = []
    clock = case.get("clock", (3, 77))
    for c in case["confs"]:
        kw = {"allow_bulk": case["bulk"], "max_repetitions": case["maxrep"]}
        d = Driver(lib, c, case["api"], None, boots=clock[0], time=clock[1], timeout=4.0 if case["api"] != "raw" else 0, **kw)
        drv.append(d)
        labels.append(f"v{c['v']}" + ("p" if c.get("palg") else "a" if c.get("aalg") else ""))
        states.append({"engine_id": c.get("engine_id"), "boots": 0, "time": 0, "user": c.get("user"), "iter": None})
    for op in case["ops"] * case.get("repeat", 1):
        d, st = drv[op["s"]], states[op["s"]]
        d.requests.clear()
        n, r = one(lib, case, d, st, op, labels)
        sent += n
        rich = rich or r
    labels.append(f"sent:{min(sent, 8)}")
    return labels, sent >= 2 or rich


def one(lib, case, d, st, op, labels):
    c = d.conf
    keys = d.agent.keys if c["v"] == 3 else None
    kind = op["op"]
    labels.append("op:" + kind)
    exp = {}
    info = {"rich": False}

    def handler(agent, raw):
        if not exp:
            raise Violation(f"{kind}: a datagram was sent although the request had to be refused: {raw.hex()}")
        try:
            p = wire.check_request(raw, c, st, exp["tag"], exp["oids"], exp.get("a", 0), exp.get("b", 0), keys)
        except ber.BerError as e:
            raise Violation(f"{kind}: datagram is not minimal definite-length BER ({e}): {raw.hex()}") from e
        info["rich"] = info["rich"] or c["v"] == 3 or len(raw) >= 128 or len(exp["oids"]) > 1
        info["n"] = info.get("n", 0) + 1
        mode = op["reply"]
        if d.api != "raw" and mode == "none":
            mode = "ok"
        labels.append("reply:" + mode)
        if mode == "none":
            return []
        if mode == "garbage":
            return [bytes([0x5A + len(raw) & 0xFF]) * 4080]
        out = []
        if mode == "stale":
            out.append(agent.response(p, [snmp.varbind([1, 3, 6, 1, 9], ber.enc_int(5))], rid=(p["id"] + 1) & 0x7FFFFFFF))
        walk = exp["tag"] in (snmp.GETNEXT, snmp.GETBULK)
        o = exp["oids"][0] if exp["oids"] else [1, 3]
        if walk:
            if mode == "end" or info["n"] > 3:
                vbs = [snmp.varbind(o, snmp.END_OF_MIB)]
            else:
                o = list(o) + [1]
                exp["oids"] = [o]
                st["next"] = o
                vbs = [snmp.varbind(o, ber.octets(b"z" * (1500 if mode == "big" else 3)))]
        elif mode == "end":
            vbs = []
        else:
            vbs = [snmp.varbind(o, ber.octets(b"v" * (3000 if mode == "big" else 5)))]
        out.append(agent.response(p, vbs))
        st["boots"], st["time"] = agent.boots, agent.time
        agent.time += 1
        if agent.time % 5 == 0:
            agent.boots += 1
        return out

    d.handler = handler
    if kind == "bad":
        by = op["by"]
        if by == "many":
            k, v = d.get_many(["1.3.6.1", op["text"]])
        elif by == "get":
            k, v = call(d, lambda: d.get(op["text"]))
        else:
            _, v = d.walk(by, op["text"], 1)
            k = "exc" if isinstance(v, Exception) else v
            labels.append("bad:" + by)
        if k != "exc":
            raise Violation(f"text {op['text']!r} was not refused: {k}")
        return 0, False
    if kind == "huge":
        k, v = call(d, lambda: d.get_many(["1.3.6.1.4.1." + ".".join(["4294967295"] * 20)] * 60))
        if k != "exc" or not isinstance(v, lib.SnmpEncodeError):
            raise Violation(f"oversized request: {k} {v!r}")
        return 0, False
    oids = op.get("oids", [])
    if kind == "refresh" and d.api != "raw" and not c["aalg"]:
        # the sync and async clients refresh only when the user has keys
        return 0, False
    fault = op["fault"]
    if fault == "again" and d.api != "async":
        fault = None
    if fault:
        lib.shim.arm(1, FAULTS[fault])
    try:
        k, v = ask(case, d, op, kind, oids, exp)
    finally:
        fired = lib.shim.disarm() if fault else 0
    if fired:
        labels.append("fault:" + fault)
        if fault == "refused":
            if k != "exc" or not isinstance(v, OSError) or isinstance(v, (TimeoutError, BlockingIOError)):
                raise Violation(f"{kind}: the network refused the request, and the call ends with {k} {v!r}")
            return 0, False
        if k == "exc" and isinstance(v, OSError):
            # the call may give up, when it sends nothing at all
            return info.get("n", 0), info["rich"]
    if not info.get("n"):
        raise Violation(f"{kind}: nothing was sent", soft=True)
    return info["n"], info["rich"]


FAULTS = {"again": errno.EAGAIN, "refused": errno.EPERM}


def ask(case, d, op, kind, oids, exp):
    """Make the call; (kind, value) of its outcome."""
    c = d.conf
    texts = [dotted(o) for o in oids]
    if kind == "get":
        exp.update(tag=snmp.GET, oids=oids)
        return call(d, lambda: d.get(texts[0]))
    elif kind == "many":
        exp.update(tag=snmp.GET, oids=oids)
        return call(d, lambda: d.get_many(given(texts, op.get("form"), d.api)))
    elif kind == "refresh":
        exp.update(tag=snmp.GET, oids=[])
        return call(d, d.refresh)
    else:
        bulk = kind == "bulk" or (kind == "fetch" and case["bulk"] and c["v"] != 1)
        mx = op.get("max")
        if kind == "fetch":
            mx = None
        exp.update(tag=snmp.GETBULK if bulk else snmp.GETNEXT, oids=[oids[0]])
        if bulk:
            exp["b"] = mx or case["maxrep"]
        _, v = d.walk({"step": "next"}.get(kind, kind), texts[0], limit=1 if kind == "step" else 3, max_rep=mx)
        return "exc" if isinstance(v, Exception) else "ok", v


def given(texts, form, api):
    """get_many() takes any iterable of texts."""
    if api == "raw" or form in (None, "list"):
        return texts
    if form == "tuple":
        return tuple(texts)
    if form == "keys" and len(set(texts)) == len(texts):
        return dict.fromkeys(texts).keys()
    return (x for x in texts)


def call(d, fn):
    """A call that must not send: the raw driver would wait for a request."""
    if d.api != "raw":
        return fn()
    try:
        return fn()
    except snmp.Harness:
        return "nothing sent, no exception", None


# --------------------------------------------------------------- threads
def gen_task(s):
    c = gen.any_conf(s)
    ops = []
    for _ in range(s.int(1, 6)):
        op = s.choice(("get", "many", "many", "next", "bulk") if c["v"] != 1 else ("get", "many", "next"))
        n = s.choice((1, 3, 10, 60)) if op == "many" else 1
        arc = s.choice((1, 127, 16384, gen.U32))
        ops.append({"op": op, "oids": [[1, 3, 6, s.below(128), i] + [arc] * s.choice((1, 3, 10)) for i in range(n)], "n": s.choice((3, 100, 1500, 3000))})
    clock = [s.choice(CLOCK) - s.below(12) if s.chance(2) else 77 for _ in range(2)]
    return {"conf": c, "ops": ops, "rounds": s.choice((1, 4)), "clock": clock}


def thr_strategy(s):
    return {"tasks": s.list(gen_task, 2, 8)}


class Quit(Exception):
    pass


def run_threads(lib, case):
    """Sync sessions used in parallel, a thread for each session and each
    agent: while one waits, others take and return message buffers."""
    import select
    import threading

    errors = []
    counts = []
    socks = []
    start = threading.Barrier(len(case["tasks"]))

    def agent_loop(agent, st, stop):
        try:
            while True:
                r, _, _ = select.select([agent.sock, stop], [], [], 20)
                if agent.sock not in r:
                    return
                raw, agent.client = agent.sock.recvfrom(65536)
                c = agent.conf
                tag, oids, b, n = st["exp"]
                try:
                    p = wire.check_request(raw, c, st, tag, oids, 0, b, agent.keys if c["v"] == 3 else None)
                except ber.BerError as e:
                    raise Violation(f"in parallel: datagram is not minimal definite-length BER ({e}): {raw.hex()}") from e
                o = list(oids[0]) + ([1] if tag != snmp.GET else [])
                st["serial"] += 1
                st["val"] = (st["serial"] * 7919 + st["k"]).to_bytes(4, "big") * (n // 4)
                d = agent.response(p, [snmp.varbind(o, ber.octets(st["val"]))])
                st["boots"], st["time"] = agent.boots, agent.time
                agent.time += 1
                agent.send(d)
        except BaseException as e:  # noqa: BLE001
            errors.append(e)

    def client(k, task):
        import socket

        c = task["conf"]
        agent = snmp.Agent(c, *task.get("clock", (3, 77)))
        a, b = socket.socketpair()
        socks.extend((a, b))
        st = {"engine_id": c.get("engine_id"), "boots": 0, "time": 0, "user": c.get("user"), "serial": 0, "k": k * 1000}
        th = threading.Thread(target=agent_loop, args=(agent, st, b), daemon=True)
        th.start()
        done = 0
        try:
            s = snmp.sync_session(lib, c, agent.port, timeout=5.0)
            try:
                start.wait(5)
            except threading.BrokenBarrierError:
                pass
            for op in task["ops"] * task["rounds"]:
                texts = [dotted(o) for o in op["oids"]]
                kind = op["op"]
                st["exp"] = ({"next": snmp.GETNEXT, "bulk": snmp.GETBULK}.get(kind, snmp.GET), op["oids"], 20 if kind == "bulk" else 0, op["n"])
                if kind == "get":
                    v = s.get(texts[0])
                elif kind == "many":
                    v = s.get_many(texts)[texts[0]]
                else:
                    v = next(iter(s.getnext(texts[0]) if kind == "next" else s.getbulk(texts[0])))[1]
                if v != st["val"]:
                    raise Violation(f"in parallel: {kind} returned {v[:40]!r}..., the agent had sent {st['val'][:40]!r}...")
                done += 1
                if errors:
                    raise Quit
        except Quit:
            pass
        except TimeoutError:
            errors.append(Violation(f"in parallel: call {done} of session {k} was answered, but timed out", soft=True))
        except Violation as e:
            errors.append(e)
        except Exception as e:  # noqa: BLE001
            errors.append(Violation(f"in parallel: {type(e).__name__}: {e}"))
        finally:
            start.abort()
            counts.append(done)
            a.send(b"x")
            th.join(20)
            agent.close()

    ts = [threading.Thread(target=client, args=(k, t), daemon=True) for k, t in enumerate(case["tasks"])]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
    for x in socks:
        x.close()
    errors.sort(key=lambda e: getattr(e, "soft", False))
    if errors:
        raise errors[0]
    return [f"sessions:{len(ts)}", f"calls:{10 ** len(str(sum(counts)))}"], True


PARTS = [
    Part("history", strategy, run, quick=60000, thorough=1500000),
    Part("long", long_strategy, run, quick=160, thorough=16000),
    Part("threads", thr_strategy, run_threads, quick=1500, thorough=100000),
]
