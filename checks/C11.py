"""C11: encrypted payloads are exactly the scoped PDU under RFC 3414/3826."""

from vlib import ber, crypt, gen, history, snmp
from vlib.runner import Part, Violation
from vlib.snmp import dotted

crypt.selftest()

ID = "C11"
RULE = (
    "A case is a v3 session with privacy (DES or AES under MD5 or SHA; password, master or localized keys; engine id of "
    "5-64 octets given or discovered; every API) and 1-8 operations with requests of 30-3900 octets, refused oversized ones "
    "between them, answered by replies of every size with new boots/time, arbitrary salts and arbitrary padding, decoys, "
    "Reports, garbage or silence. Every datagram's msgData is decrypted by an independent DES/AES implementation with the "
    "key, salt, boots and time of the message and parsed strictly; every encrypted reply must be delivered exactly. "
    "Explicit: requests and replies of every length over several cipher blocks. Non-trivial: at least one encrypted request and one encrypted reply."
    " long: histories of 260-700 operations."
)
ASSUMPTIONS = ["the request-id and the choice of padding octets are the library's own business"]


MODES = ["ok", "ok", "ok", "big", "big", "decoy", "report", "ureport", "garbage"]


def engine(s):
    if s.chance(3):
        return s.bytes(5, 64)
    return gen.engine(s)


def strategy(s):
    return history.gen_case(s, levels=("priv",), engine=engine, modes=MODES)


def long_strategy(s):
    return history.long_case(s, levels=("priv",), engine=engine, modes=MODES)


def on_msg(run, agent, raw, p, op):
    if op is None:
        return
    c = run.case["conf"]
    if p["cipher"] is None or not p["flags"] & 2:
        raise Violation(f"msgData is not encrypted (flags {p['flags']}): {raw.hex()}")
    if len(p["priv"]) != 8:
        raise Violation(f"msgPrivacyParameters have {len(p['priv'])} octets: {raw.hex()}")
    ct = p["cipher"]
    block = 8 if c["palg"] == 1 else 16
    if c["palg"] == 1 and len(ct) % 8:
        raise Violation(f"DES ciphertext has {len(ct)} octets")
    key = snmp.conf_keys(c, p["engine_id"])[1]
    plain = crypt.priv_decrypt(c["palg"], key, p["boots"], p["time"], p["priv"], ct)
    where = f"message {raw.hex()} decrypts to {plain.hex()}"
    r = ber.Reader(plain)
    try:
        q = snmp.parse_scoped(r)
    except ber.BerError as e:
        raise Violation(f"{where}: no scoped PDU ({e})") from e
    if len(plain) - r.p >= block:
        raise Violation(f"{where}: {len(plain) - r.p} octets follow the scoped PDU")
    tag, oids, a, b = history.asked(op, p)
    got = (q["pdu"], [list(x) for x, _, _ in q["vars"]], q["a"], q["b"])
    if got != (tag, [list(o) for o in oids], a, b) or any(t != 5 or v for _, t, v in q["vars"]):
        raise Violation(f"{where}: PDU {got}, asked for {(tag, oids, a, b)}")
    if q["ctx_engine"] != p["engine_id"] or q["ctx_name"] != b"":
        raise Violation(f"{where}: context {q['ctx_engine'].hex()}/{q['ctx_name']!r}, engine {p['engine_id'].hex()}")
    if not 0 <= q["id"] < 1 << 31:
        raise Violation(f"{where}: request-id {q['id']}")
    run.enc += 1


def on_result(run, op, k, v):
    history.judge_delivery(run, op, k, v)
    if run.expect and run.expect[0] == "value":
        run.dec += 1


def run(lib, case):
    r = history.Run(lib, case, on_msg, on_result)
    r.enc = r.dec = 0
    labels = r.play()
    return labels + [f"enc:{min(r.enc, 9)}"], r.enc > 0 and r.dec > 0


def explicit(tier):
    out = []
    base = {"op": "get", "mode": "ok", "boots": None, "time": None, "n": 0, "pad": 0, "salt": None}
    for aalg, n in ((1, 16), (2, 20)):
        for palg in (1, 2):
            for el in (5, 12, 32):
                conf = {"v": 3, "engine_id": bytes(range(1, el + 1)), "user": "user", "aalg": aalg, "akt": 2, "akey": bytes(range(n)),
                        "palg": palg, "pkt": 2, "pkey": bytes(range(50, 50 + n))}
                ks = range(3, 127, 1 if el == 12 else 4)
                ops = [{**base, "oids": [[1, 3] + [1] * (k - 2)], "n": (k * 7) % 40, "pad": k % 16} for k in ks]
                ops += [{**base, "oids": [[1, 3, 6]], "n": k, "pad": (k // 3) % 16, "boots": history.EDGE_INTS[k % 17], "time": history.EDGE_INTS[k // 17 % 17]} for k in range(0, 300, 1 if el == 12 else 5)]
                ops += [{**base, "op": "many", "oids": [[1, 3, 6, 1, 4, 1, 9, j] for j in range(k)], "n": k * 40} for k in (0, 1, 5, 20, 50, 75)]
                for i in range(0, len(ops), 31):
                    out.append({"conf": conf, "api": "raw", "discover": False, "disc_decoy": False, "boots": 1, "time": 1, "ops": ops[i : i + 31], "rng": 1})
    return out


PARTS = [
    Part("history", strategy, run, quick=70000, thorough=2000000, explicit=explicit),
    Part("long", long_strategy, run, quick=120, thorough=12000),
]
