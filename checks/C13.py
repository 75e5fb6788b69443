"""C13: engine discovery and time sync follow the agent."""

from vlib import ber, crypt, gen, history, snmp
from vlib.drive import Driver
from vlib.runner import Part, Violation

crypt.selftest()

ID = "C13"
RULE = (
    "A case is a v3 session at every security level (digest x cipher x key type), created with or without an engine id, "
    "through the raw socket and the sync and async clients (refresh() or the context manager, discovery failing first), and 1-8 operations against a stateful agent that answers "
    "discovery only if it is reportable, changes boots and time (boundaries up to 2^31-1, backwards too) with every answer, "
    "and precedes answers by decoys carrying other boots, times and engine ids. Every request must carry the engine id, user, and the boots and "
    "time of the last accepted message, and verify and decrypt under keys localized to that engine. Explicit: every "
    "combination of digest, cipher, key types, API and discovery. Non-trivial: discovery, or a request after boots/time changed."
    " long: histories of 260-700 operations."
)
ASSUMPTIONS = [
    "after an unauthenticated Report in an authenticated session the old and the new boots/time are both right",
    "boots and time are free before the first accepted message",
]


OPS = ("get", "get", "many", "next", "bulk", "refresh", "huge")


def engine(s):
    if s.chance(3):
        return s.bytes(1, 64)
    return gen.engine(s)


def strategy(s):
    case = history.gen_case(s, engine=engine, ops=OPS)
    if s.chance(3):
        case["discover"] = True
        case["disc_decoy"] = s.bool()
    return case


def long_strategy(s):
    return history.long_case(s, engine=engine, ops=OPS)


def on_msg(run, agent, raw, p, op):
    c = run.case["conf"]
    st = run.st
    if p["engine_id"] != st.engine_id:
        raise Violation(f"request {raw.hex()}: engine id {p['engine_id'].hex()}, should be {st.engine_id.hex()}")
    if op is None:
        run.info["discovered"] = True
        return
    if p["user"] != c["user"].encode():
        raise Violation(f"request {raw.hex()}: user {p['user']!r}, should be {c['user']!r}")
    if st.bt is not None:
        bt = (p["boots"], p["time"])
        if bt not in st.bt:
            raise Violation(f"request {raw.hex()}: boots/time {bt}, last accepted message had {sorted(st.bt)}")
        st.bt = {bt}
        run.info["synced"] = True
    akey, pkey = snmp.conf_keys(c, st.engine_id)
    if c["aalg"] and not snmp.mac_ok(p, c["aalg"], akey):
        raise Violation(f"request {raw.hex()} is not authenticated under the key localized to {st.engine_id.hex()} ({akey.hex()})")
    if c["palg"]:
        if p["cipher"] is None:
            raise Violation(f"request {raw.hex()} is not encrypted")
        plain = crypt.priv_decrypt(c["palg"], pkey, p["boots"], p["time"], p["priv"], p["cipher"])
        try:
            q = snmp.parse_scoped(ber.Reader(plain))
        except ber.BerError as e:
            raise Violation(f"request {raw.hex()} does not decrypt under the key localized to {st.engine_id.hex()}: {plain.hex()}") from e
        ctx = q["ctx_engine"]
    else:
        ctx = p["ctx_engine"]
    if ctx != st.engine_id:
        raise Violation(f"request {raw.hex()}: context engine id {ctx.hex()}, should be {st.engine_id.hex()}")


def on_result(run, op, k, v):
    history.judge_delivery(run, op, k, v)
    eid = run.d.session.get_engine_id() if run.d.api != "raw" else run.d.sock.get_engine_id()
    if bytes(eid) != run.st.engine_id:
        raise Violation(f"get_engine_id() is {bytes(eid).hex()}, the agent's is {run.st.engine_id.hex()}")


def run(lib, case):
    r = history.Run(lib, case, on_msg, on_result)
    r.info = {}
    labels = r.play()
    return labels, bool(r.info)


def explicit(tier):
    out = []
    base = {"op": "get", "mode": "ok", "oids": [[1, 3, 6, 1]], "boots": None, "time": None, "n": 0, "pad": 0, "salt": None}
    ops = [{**base, "boots": 7, "time": 5}, {**base, "op": "refresh", "boots": 9, "time": 100}, {**base, "mode": "decoy", "decoys": ["engine", "mac", "report-engine", "user"], "time": 200},
           {**base, "op": "next", "boots": (1 << 31) - 1, "time": 0}, {**base, "op": "bulk", "max": 3, "boots": 1, "time": (1 << 31) - 1}, {**base, "op": "many", "mode": "report", "boots": 0, "time": 1}, base]
    for aalg, n in ((0, 0), (1, 16), (2, 20)):
        for akt in (0, 1, 2) if aalg else (0,):
            for palg in (0, 1, 2) if aalg else (0,):
                for pkt in (0, 1, 2) if palg else (0,):
                    key = lambda kt, x: (b"password" + x if kt == 0 else (x * 20)[:n]) if n else b""  # noqa: E731
                    conf = {"v": 3, "engine_id": bytes.fromhex("80001f8804deadbeef"), "user": "user", "aalg": aalg, "akt": akt, "akey": key(akt, b"a"),
                            "palg": palg, "pkt": pkt, "pkey": key(pkt, b"p") if palg else b""}
                    for api in ("raw", "sync", "async"):
                        for disc in (False, True):
                            for dd in (False, True) if disc else (False,):
                                case = {"conf": conf, "api": api, "discover": disc, "disc_decoy": dd, "boots": 3, "time": 12345, "ops": ops, "rng": 1}
                                out.append(case)
                                if disc:
                                    out.append({**case, "enter": True, "disc_fail": [int(dd), int(dd)]})
    return out


PARTS = [
    Part("history", strategy, run, quick=70000, thorough=2000000, explicit=explicit),
    Part("long", long_strategy, run, quick=160, thorough=16000),
]
