"""C10: unauthenticated or forged v3 replies are never accepted."""

import hashlib
import hmac
import random

from vlib import ber, crypt, gen, history, snmp
from vlib.drive import Driver
from vlib.runner import Part, Violation
from vlib.snmp import dotted

crypt.selftest()

ID = "C10"
RULE = (
    "A case is a v3 session holding an authentication key (MD5/SHA, with and without DES/AES privacy, every key type, "
    "engine id given or discovered, every API) and 1-5 calls (get, get_many, getnext, getbulk, refresh), each answered by "
    "1-4 forgeries of the matching reply - wrong, zero, missing, short, long MAC, MAC under another key or digest, right MAC of "
    "altered contents (replies of all sizes), cleared auth or priv flag, sent in clear, wrong cipher key - and then, mostly, the genuine one. "
    "Explicit: every single-bit alteration of genuine replies. Oracle: no forgery ends a call with a result or is "
    "adopted, and the genuine reply is delivered. Non-trivial: every case."
    " long: sessions forged at for 260-700 calls."
)
ASSUMPTIONS = [
    "a forgery that is not well-formed any more may end the call with SnmpDecodeError",
    "an unauthenticated Report may be accepted; Reports are not among the forgeries",
]

FORGE = ("zero", "missing", "bit", "rand", "short", "long", "trunc0", "nozero", "otherkey", "master", "otheralg", "privkey", "emptykey",
         "noflag", "noflag-empty", "plain", "plain-auth", "altered", "swap", "oldmac", "wrongpriv", "privflag-only", "shift", "auth-plain-privflag", "fullmac", "reserved",
         "flags", "flags", "flags-badmac")


def strategy(s):
    conf = gen.conf_v3(s, levels=("auth", "priv"))
    api = s.choice(("raw", "raw", "raw", "raw", "sync", "async"))
    calls = []
    for _ in range(s.int(1, 5)):
        calls.append({
            "op": s.choice(("get", "get", "many", "next", "bulk", "refresh")),
            "forge": s.list(lambda s: [s.choice(FORGE), s.below(1 << 16)], 1, 4),
            "genuine": api != "raw" or not s.chance(4),
            # octets of the value: the replies of all sizes up to the largest receivable one
            "size": s.choice((s.below(300), s.below(3850), s.int(3700, 3850))) if s.chance(16) else 0,
        })
    return {"conf": conf, "api": api, "discover": s.chance(4), "calls": calls}


def long_strategy(s):
    """A session that is forged at for hundreds of calls."""
    case = strategy(s)
    case["repeat"] = history.repeated(s, len(case["calls"]))
    for call in case["calls"]:
        call["forge"] = [call["forge"][0]]
    return case


def splice(m, a, b, new):
    return m[:a] + new + m[b:]


def value(val, size):
    """A small number, or one in a string of that many octets."""
    return snmp.octets(b"%d" % val + b"." * (size - 4)) if size else ber.enc_int(val)


def forge(c, agent, p, kind, k, val, oid, old, size=0):
    """(datagram, must it be dropped silently)"""
    rnd = random.Random(k)
    body = snmp.pdu(snmp.RESPONSE, p["id"], [snmp.varbind(oid, value(val, size))])
    aalg, akey = c["aalg"], agent.keys[0]
    good = agent.reply(p, body)
    a, b = snmp.find_auth(good)
    mac = good[a:b]

    def with_mac(x):
        if len(x) == 12:
            return splice(good, a, b, x)
        return agent.reply(p, body, auth_params=x)

    if kind == "zero":
        return with_mac(b"\0" * 12), True
    if kind == "missing":
        return with_mac(b""), True
    if kind == "bit":
        i = k % 96
        return with_mac(bytes(x ^ (1 << (i % 8)) if j == i // 8 else x for j, x in enumerate(mac))), True
    if kind == "rand":
        return with_mac(rnd.randbytes(12)), True
    if kind == "short":
        # the leading octets of the MAC that would be right for this message
        n = k % 12
        m = agent.reply(p, body, auth_params=b"\0" * n, salt=bytes(8))
        x = crypt.mac96(aalg, akey, m)[:n]
        aa, bb = snmp.find_auth(m)
        return splice(m, aa, bb, x), False
    if kind in ("long", "fullmac"):
        n = (13 + k % 8) if kind == "long" else {1: 16, 2: 20}[aalg]
        m = agent.reply(p, body, auth_params=b"\0" * n, salt=bytes(8))
        aa, bb = snmp.find_auth(m)
        full = hmac.new(akey, m, crypt.HASH[aalg]).digest()
        return splice(m, aa, bb, (full + b"\0" * 8)[:n]), False
    if kind == "trunc0":
        n = 1 + k % 11
        x = mac[:n] + b"\0" * (12 - n)
        return with_mac(x if x != mac else b"\xff" * 12), True
    if kind == "nozero":
        x = crypt.mac96(aalg, akey, with_mac(b"\1" * 12))
        return with_mac(x), True
    if kind == "otherkey":
        x = snmp.sign(good, aalg, rnd.randbytes(len(akey)))
        return x, True
    if kind == "master":
        m = c["akey"] if c["akt"] != 0 else crypt.master_key(aalg, c["akey"])
        if c["akt"] == 2:
            m = crypt.localize(aalg, akey, agent.engine_id)
        return snmp.sign(good, aalg, m), True
    if kind == "otheralg":
        return snmp.sign(good, 3 - aalg, akey), True
    if kind == "privkey":
        key = agent.keys[1] if c["palg"] else akey[::-1]
        if key == akey:
            key = akey[::-1]
            if key == akey:
                return with_mac(b"\0" * 12), True
        return snmp.sign(good, aalg, key), True
    if kind == "emptykey":
        return snmp.sign(good, aalg, b""), True
    if kind == "noflag":
        # right MAC of a message whose flags say it has none
        fl = 2 if c["palg"] and k & 1 else 0
        if fl == 0 and c["palg"]:
            m = agent.reply(p, body, priv_on=False, flags=0)
        else:
            m = agent.reply(p, body, flags=fl)
        return m, fl == 0
    if kind == "noflag-empty":
        fl = 2 if c["palg"] and k & 1 else 0
        return agent.reply(p, body, auth_on=False, priv_on=bool(fl), flags=fl), fl == 0
    if kind == "plain":
        return agent.reply(p, body, plain=True), True
    if kind == "plain-auth":
        if not c["palg"]:
            return agent.reply(p, body, plain=True), True
        return agent.reply(p, body, priv_on=False), True
    if kind == "auth-plain-privflag":
        if not c["palg"]:
            return agent.reply(p, body, auth_params=mac, flags=3), False
        return agent.reply(p, body, priv_on=False, flags=3), False
    if kind == "privflag-only":
        return agent.reply(p, body, flags=2), False
    if kind == "altered":
        # (of a long message, half of the time one of its last octets)
        i = k % (len(good) * 8)
        if size and k & 1:
            i = len(good) * 8 - 1 - k % 800
        return bytes(x ^ (1 << (i % 8)) if j == i // 8 else x for j, x in enumerate(good)), False
    if kind == "swap":
        # the MAC of another message
        other = agent.reply(p, snmp.pdu(snmp.RESPONSE, p["id"], [snmp.varbind(oid, value(val + 1, size))]))
        aa, bb = snmp.find_auth(other)
        return with_mac(other[aa:bb]), True
    if kind == "oldmac":
        return with_mac(old if old and old != mac else b"\0" * 12), True
    if kind == "shift":
        # octets moved between the MAC field and its neighbour
        m = agent.reply(p, body, auth_params=b"")
        return m, True
    if kind == "wrongpriv":
        if not c["palg"]:
            return with_mac(rnd.randbytes(12)), True
        keys = agent.keys
        agent._keys = (keys[0], rnd.randbytes(len(keys[1])))
        try:
            return agent.reply(p, body), True
        finally:
            agent._keys = keys
    if kind in ("flags", "flags-badmac"):
        # any msgFlags without the auth bit, encrypted or not as they say
        fl = (k % 256) & 0xFE
        if k >> 8 & 1:
            fl &= 6
        enc = bool(fl & 2) and bool(c["palg"])
        over = {}
        if kind == "flags-badmac":
            over["auth_params"] = (b"\0" * 12, b"", rnd.randbytes(12), mac)[k >> 9 & 3]
        # a message that says it is encrypted, in a session without a cipher,
        # or has reserved bits, may also be refused as malformed
        return agent.reply(p, body, priv_on=enc, flags=fl, **over), fl & 0xFA == 0
    if kind == "reserved":
        fl = (p["flags"] & 2) | (0xF8 & k) | 4
        return agent.reply(p, body, auth_params=rnd.randbytes(12), flags=fl), not p["flags"] & 2
    raise ValueError(kind)


def run(lib, case):
    c = case["conf"]
    st = {}
    labels = [case["api"], f"a{c['aalg']}p{c['palg']}", "discover" if case["discover"] else "given"]

    def handler(agent, raw):
        p = snmp.parse(raw, strict=False)
        if case["discover"] and p["engine_id"] == b"":
            return [agent.report(p, user=p["user"])]
        agent.open(p)
        if "call" not in st:
            return [agent.report(p, plain=False)]
        agent.time += 1
        call = st["call"]
        o = [1, 3, 6, 1, 1]
        out = []
        size = call.get("size", 0)
        st["old"] = p["auth"]
        for i, (kind, k) in enumerate(call["forge"]):
            raw, strict = forge(c, agent, p, kind, k, 70000000 + i, o, st["old"], size)
            out.append(raw)
            st["strict"] = st["strict"] and strict
        if call["genuine"]:
            out.append(agent.response(p, [snmp.varbind(o, value(st["val"], size))] if call["op"] != "refresh" else []))
        return out

    kw = {"timeout": 4.0}
    if case["discover"]:
        kw["discover"] = True
    with Driver(lib, c, case["api"], handler, **kw) as d:
        if case["discover"]:
            k, v = d.discover()
            if k != "ok":
                raise Violation(f"discovery: {k} {v!r}", soft=k == "wait")
        dirty = False
        for i, call in enumerate(case["calls"] * case.get("repeat", 1)):
            op = call["op"]
            st.update(call=call, strict=True, val=100 + i)
            n = d.served
            o = "1.3.6.1.1"
            if op == "get":
                k, v = d.get(o)
            elif op == "many":
                k, v = d.get_many([o])
                v = v.get(o) if k == "ok" else v
            elif op == "refresh":
                k, v = d.refresh()
            else:
                items, end = d.walk(op, "1.3.6.1", 1)
                k, v = ("ok", items[0][1]) if items else ("wait", None) if end == "wait" else ("exc", end)
            d.await_requests(n + 1)
            kinds = [x for x, _ in call["forge"]]
            labels += kinds
            where = f"{op} a{c['aalg']}p{c['palg']} {case['api']}, forgeries {call['forge']}, genuine reply {'after them' if call['genuine'] else 'absent'}"
            shown = f"{type(v).__name__}: {v}" if k == "exc" else f"{k} {str(v)[:200]}"
            strict = st["strict"] and not dirty
            # a call that ends with an error leaves what follows in the socket
            dirty = k == "exc"
            if k == "exc":
                if not isinstance(v, lib.SnmpDecodeError) or strict:
                    raise Violation(f"{where}: forgeries must be dropped, but {shown}")
                labels.append("ended:decode")
            elif k == "wait":
                if call["genuine"]:
                    raise Violation(f"{where}: the genuine reply was not delivered", soft=True)
            elif not call["genuine"]:
                raise Violation(f"{where}: a forgery was accepted: {shown}")
            elif op == "refresh":
                if d.api == "raw":
                    nothing_left(d)
            elif v != (st["val"] if not call.get("size") else b"%d" % st["val"] + b"." * (call["size"] - 4)):
                raise Violation(f"{where}: genuine value {st['val']}, got {shown}")
    return labels, True


def nothing_left(d):
    """After a refresh was completed by the genuine reply (the last datagram
    sent) nothing is left in the socket; otherwise a forgery completed it."""
    import select

    p = select.poll()
    p.register(d.sock.get_fd(), select.POLLIN)
    if p.poll(0):
        raise Violation("refresh was completed by a forgery")


def explicit(tier):
    out = []
    for aalg, n in ((1, 16), (2, 20)):
        for palg in (0, 1, 2):
            conf = {"v": 3, "engine_id": bytes.fromhex("8000000001020304"), "user": "user", "aalg": aalg, "akt": 2, "akey": bytes(range(n)),
                    "palg": palg, "pkt": 2, "pkey": bytes(range(50, 50 + n)) if palg else b""}
            calls = []
            for i in range(8 * (130 if palg else 110)):
                calls.append({"op": ("get", "many", "next", "bulk", "refresh")[i % 5 if tier != "quick" else 0], "forge": [["altered", i]], "genuine": i % 2 == 0})
            for i in range(96):
                calls.append({"op": ("get", "many", "next", "bulk", "refresh")[i % 5], "forge": [["bit", i]], "genuine": False})
            for kind in FORGE:
                for op in ("get", "many", "next", "bulk", "refresh"):
                    for k in (0, 1):
                        for g in (False, True):
                            calls.append({"op": op, "forge": [[kind, k]], "genuine": g})
            for fl in range(0, 256, 2):
                for kind in ("flags", "flags-badmac"):
                    for j in range(4 if kind != "flags" else 1):
                        calls.append({"op": ("get", "many", "next", "bulk", "refresh")[(fl >> 1) % 5], "forge": [[kind, fl | j << 9]], "genuine": bool(fl & 8)})
            for fl in (0, 2, 4, 6):
                for op in ("get", "many", "next", "bulk", "refresh"):
                    for g in (False, True):
                        calls.append({"op": op, "forge": [["flags", fl]], "genuine": g})
            # replies of every size
            for size in (100, 127, 128, 200, 255, 256, 400, 484, 500, 511, 512, 1000, 1024, 1472, 1500, 2000, 2047, 2048, 2049, 2100, 3000, 3800, 3850):
                for i, kind in enumerate(("rand", "zero", "otherkey", "privkey", "emptykey", "trunc0", "nozero", "swap", "plain-auth", "noflag")):
                    calls.append({"op": ("get", "many", "next", "bulk", "refresh")[(size + i) % 5], "forge": [[kind, i]], "genuine": i % 3 == 0, "size": size})
                for i in range(20):
                    calls.append({"op": ("get", "many", "next", "bulk", "refresh")[i % 5], "forge": [["altered", 40 * i + 1 if i & 1 else 1638 * i]], "genuine": i % 3 == 0, "size": size})
            for i in range(0, len(calls), 40):
                out.append({"conf": conf, "api": "raw", "discover": False, "calls": calls[i : i + 40]})
    return out


PARTS = [
    Part("forgeries", strategy, run, quick=110000, thorough=4000000, explicit=explicit),
    Part("long", long_strategy, run, quick=160, thorough=16000),
]
