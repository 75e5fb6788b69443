"""C09: every outgoing authenticated message carries a correct HMAC-96."""

from vlib import crypt, gen, history, snmp
from vlib.runner import Part, Violation

crypt.selftest()

ID = "C09"
RULE = (
    "A case is a v3 session (MD5, SHA or no key; password, master or localized; any privacy; engine id of 1-64 octets given "
    "or discovered; raw socket, sync or async client) and 1-8 operations (get, get_many, getnext, getbulk, refresh, "
    "refused oversized ones) answered in turn by replies with new boots/time, large replies, decoys, Reports, garbage or "
    "silence. Every datagram sent is parsed independently and its MAC recomputed with hashlib/hmac. Explicit: requests of every "
    "size around the 128/256-octet length-form boundaries of each enclosing element. Non-trivial: the session holds a key and sends at least one message under it."
    " long: histories of 260-700 operations."
)
ASSUMPTIONS = ["the discovery message, sent before the engine id is known, precedes the keys"]


LONG = 160


def engine(s):
    if s.chance(8):
        return gen.patterned(s, 12, 64)
    if s.chance(3):
        return s.bytes(1, 64)
    return gen.engine(s)


def strategy(s):
    return history.gen_case(s, levels=("no", "auth", "auth", "priv"), engine=engine)


def long_strategy(s):
    return history.long_case(s, levels=("auth", "priv"), engine=engine)


def on_msg(run, agent, raw, p, op):
    c = run.case["conf"]
    if op is None:
        return
    hold = bool(c["aalg"])
    if hold != bool(p["flags"] & 1):
        raise Violation(f"auth flag is {p['flags'] & 1}, key {'held' if hold else 'absent'}: {raw.hex()}")
    if not hold:
        if p["auth"] != b"":
            raise Violation(f"no key is held, but msgAuthenticationParameters are {p['auth'].hex()}")
        return
    if len(p["auth"]) != 12:
        raise Violation(f"msgAuthenticationParameters have {len(p['auth'])} octets: {raw.hex()}")
    key = snmp.conf_keys(c, p["engine_id"])[0]
    if not snmp.mac_ok(p, c["aalg"], key):
        a = p["auth_at"]
        want = crypt.mac96(c["aalg"], key, raw[:a] + b"\0" * 12 + raw[a + 12 :])
        raise Violation(f"MAC {p['auth'].hex()} of {raw.hex()} should be {want.hex()} (key {key.hex()})")
    run.signed += 1


def run(lib, case):
    r = history.Run(lib, case, on_msg)
    r.signed = 0
    labels = r.play()
    return labels + [f"signed:{min(r.signed, 9)}"], r.signed > 0


def explicit(tier):
    """Every request length over the range where the length forms change."""
    out = []
    base = {"op": "get", "mode": "ok", "boots": None, "time": None, "n": 0, "pad": 0, "salt": None}
    for alg, n in ((1, 16), (2, 20)):
        for palg in (0, 1, 2):
            for el, ul in ((5, 1), (12, 8), (32, 32), (64, 60), (100, 100), (1, 1)):
                conf = {"v": 3, "engine_id": bytes(range(1, el + 1)), "user": "u" * ul, "aalg": alg, "akt": 2, "akey": bytes(range(n)),
                        "palg": palg, "pkt": 2, "pkey": bytes(range(50, 50 + n)) if palg else b""}
                ks = range(3, 127) if tier != "quick" else range(3, 127, 1 if palg == 0 else 3)
                ops = [{**base, "oids": [[1, 3] + [1] * (k - 2)], "boots": k * 3, "time": 1 << (k % 31)} for k in ks]
                for i in range(0, len(ops), 31):
                    out.append({"conf": conf, "api": "raw", "discover": False, "disc_decoy": False, "boots": 1, "time": 1, "ops": ops[i : i + 31], "rng": 1})
                ops = [{**base, "op": "many", "oids": [[1, 3, 6, 1, 4, 1, 9, j] for j in range(k)]} for k in range(0, 60, 3)]
                out.append({"conf": conf, "api": "raw", "discover": False, "disc_decoy": False, "boots": 1, "time": 1, "ops": ops, "rng": 1})
                # up to the largest request that fits the send buffer
                step = 97 if tier == "quick" else 13
                sizes = [*range(300, 3800, step), 498, 499, 500, 1010, 2030, 2040, 2048, 3000]
                ops = []
                for z in sizes:
                    w = 100 + 14
                    oids = [[1, 3, i, *([gen.U32] * 19), 1, 1, 1] for i in range(z // w)] + [[1, 3] + [1] * (z % w)]
                    ops.append({**base, "op": "many", "oids": oids})
                for i in range(0, len(ops), 12):
                    out.append({"conf": conf, "api": "raw", "discover": False, "disc_decoy": False, "boots": 1, "time": 1, "ops": ops[i : i + 12], "rng": 1})
    return out


PARTS = [
    Part("history", strategy, run, quick=90000, thorough=4000000, explicit=explicit),
    Part("long", long_strategy, run, quick=LONG, thorough=LONG * 100),
]
