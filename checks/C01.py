"""C01: no datagram can crash the client."""

from vlib import ber, crypt, gen, snmp, tree
from vlib.drive import Driver
from vlib.runner import HarnessPart, Part, Violation
from vlib.snmp import Agent, make_sock, ready

crypt.selftest()

ID = "C01"
HANG_IS_VIOLATION = True
HANG_S = 40
RULE = (
    "A case is a session (every version, security level, with and without a discovered engine), a pending operation and "
    "datagrams: structure-aware mutations of a well-formed reply to that very request (ids, encryption and MAC re-applied "
    "so that decoders behind them are reached), grammar-less BER soup, all single-octet replacements and truncations of "
    "model replies, v3 messages with every combination of extreme lengths of the security parameters and the data. Every datagram is delivered twice over differently dirtied receive buffers; the outcomes must be in the documented "
    "set and identical. Non-trivial: the datagram parsed far enough not to be refused at its first header "
    "(outcome other than the error of an empty datagram), or was mutated below the message level. Rust harness: all strings "
    "of up to 3 octets and random TLV strings through every public decoder under catch_unwind; guided: the same decoders "
    "under coverage-guided mutation (edge counters and comparison operands of the library; TLV-aware mutators, inputs of new "
    "coverage kept; deterministic for a seed). A case the harness has not finished in 40 s never returns."
)
ASSUMPTIONS = ["a receive call that has not returned after 40 s (confirmed in a fresh process) never returns"]

OPS = ("get", "many", "next", "bulk", "refresh")
V0 = [0x30]


def allowed(lib):
    return (lib.SnmpError, TimeoutError, BlockingIOError, OSError, ValueError, StopIteration, StopAsyncIteration)


def gen_conf(s):
    c = gen.any_conf(s)
    if c["v"] == 3:
        c["disc"] = not c["aalg"] and s.chance(3)
    return c


def gen_reply(s):
    """Shape of the well-formed reply a mutation starts from."""
    n = s.choice((1, 1, 2, 3, 0))
    vbs = []
    for i in range(n):
        k = s.below(6)
        if k == 0 and i:
            oid = ["rel", s.choice((b"\x01", b"\x05\x06", b"\x81\x01\x02", b"\x01\x03\x06\x01", b"", b"\x80", b"\x2b"))]
        else:
            oid = ["abs", gen.recv_oid(s, 10)]
        v = s.choice((["null"], ["noobj"], ["noinst"], ["eomv"])) if s.chance(5) else gen.value(s)
        vbs.append([oid, v])
    return {"tag": s.choice((snmp.RESPONSE,) * 6 + (snmp.REPORT, snmp.REPORT, snmp.GET, snmp.GETBULK, snmp.TRAP2, snmp.SET)), "vbs": vbs,
            "err": s.choice((0, 0, 2, 5, 255, -1))}


def strategy(s):
    c = gen_conf(s)
    op = s.choice(OPS if c["v"] == 3 else OPS[:4])
    if c["v"] == 1 and op == "bulk":
        op = "next"
    return {
        "conf": c,
        "op": op,
        "base": [1, 3] if s.bool() else gen.oid(s, 2, 4),
        "reply": gen_reply(s),
        "muts": s.list(tree.gen_mutation, 1, 3),
        "resign": not s.chance(6),
        "plain": s.chance(8),
        "tail": s.choice((b"", b"", b"", b"\x00", b"\x30\x00", b"\x05\x00", b"\x00" * 20)),
        "cut": s.choice((0, 0, 0, 1, 2, 5)),
        # octets added to, or missing from, the end of the plaintext
        "pad": s.choice((0, 0, 1, 7, -1, -2, -8)),
        "dirt": s.below(4),
    }


class Session:
    """One raw session with an outstanding request."""

    def __init__(self, lib, conf, op, base):
        self.lib = lib
        self.conf = conf
        self.op = op
        self.base = snmp.dotted(base)
        disc = conf.get("disc")
        self.agent = Agent(conf, boots=9, time=1234)
        self.sock = make_sock(lib, conf, self.agent.port, engine_id=b"" if disc else None)
        it = lib.fast.GetIter(self.base, 10)
        s = self.sock
        {"get": lambda: s.send_get(self.base), "many": lambda: s.send_get_many([self.base, "1.3.6.1"]),
         "next": lambda: s.send_get_next(it), "bulk": lambda: s.send_get_bulk(it), "refresh": lambda: s.send_refresh()}[op]()
        self.req = self.agent.request(strict=False)
        self.ok = allowed(lib)

    def close(self):
        self.agent.close()

    def inject(self, data):
        """Deliver one datagram to the pending call; returns its outcome."""
        self.agent.send(data)
        ready(self.sock)
        s = self.sock
        try:
            if self.op == "get":
                r = s.recv_get()
            elif self.op == "many":
                r = s.recv_get_many()
            elif self.op == "refresh":
                r = s.recv_refresh()
            else:
                it = self.lib.fast.GetIter(self.base, 10)
                r = s.recv_get_next(it) if self.op == "next" else s.recv_get_bulk(it)
            return "ok", repr(r)
        except self.ok as e:
            return type(e).__name__, str(e)
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            raise Violation(
                f"v{self.conf['v']} recv_{self.op} raised {type(e).__name__} ({str(e)[:200]}) on datagram {data.hex()}"
            ) from e

    def dirty(self, kind, good):
        """Leave chosen octets in the pooled receive buffer."""
        if kind == 0:
            fill = b"\x00" * 4079
        elif kind == 1:
            fill = b"\x30\x02\x05\x00" * 1020
        elif kind == 2:
            fill = (good[1:] + b"\x04\x7f" * 4000)[:4079]
        else:
            fill = b"\xff" * 4079
        r = self.inject(b"\xff" + fill[:4079])
        if self.conf.get("palg"):
            self.inject(self.agent.reply_v3(self.req, b"", scoped=b"\xff" + fill[:3000]))
        return r


def reply_tree(sess, reply, plain=False):
    req, conf, agent = sess.req, sess.conf, sess.agent
    vbs = []
    for o, v in reply["vbs"]:
        on = [0x0D, bytes(o[1])] if o[0] == "rel" else [0x06, ber.oid_body(o[1])]
        vbs.append((on, [gen.TAGS.get(v[0], 0x09), gen.value_body(v)]))
    p = tree.pdu_tree(reply["tag"], req["id"], vbs, reply["err"])
    if conf["v"] != 3:
        return tree.community_tree(conf["v"] - 1, conf["community"].encode(), p), lambda b: b
    auth = bool(conf["aalg"]) and not plain
    priv = bool(conf["palg"]) and not plain
    scoped = [0x30, [tree.O(agent.engine_id), tree.O(b""), p]]
    salt = agent.next_salt() if priv else b""
    t = tree.v3_tree(req["msg_id"], (1 if auth else 0) | (2 if priv else 0), agent.engine_id, agent.boots, agent.time,
                     conf["user"].encode(), b"\0" * 12 if auth else b"", salt, scoped, priv)
    return t, tree.encrypter(conf, agent.keys, agent.boots, agent.time, salt)


def run(lib, case):
    sess = Session(lib, case["conf"], case["op"], case["base"])
    try:
        c = case["conf"]
        t, enc = reply_tree(sess, case["reply"], case["plain"])
        good = tree.encode(t, enc)
        if c["v"] == 3 and not case["plain"]:
            good = tree.resign(good, c, sess.agent.keys)
        m = tree.mutate(t, case["muts"])
        if case["pad"] and c.get("palg"):
            enc0 = enc
            enc = lambda b: enc0(b + b"\0" * case["pad"] if case["pad"] > 0 else b[: case["pad"]])  # noqa: E731
        data = tree.encode(m, enc)
        if case["resign"] and c["v"] == 3 and not case["plain"]:
            data = tree.resign(data, c, sess.agent.keys)
        data = data[: len(data) - case["cut"]] + case["tail"]
        data = data[:60000]
        out = []
        for k in (case["dirt"], (case["dirt"] + 1 + case["cut"] % 3) % 4):
            sess.dirty(k, good)
            out.append(sess.inject(data))
        if out[0] != out[1]:
            raise Violation(
                f"v{c['v']} recv_{case['op']}: outcome depends on octets outside the datagram {data.hex()}: {out[0]} / {out[1]}"
            )
        labels = [f"v{c['v']}" + ("p" if c.get("palg") else "a" if c.get("aalg") else ""), case["op"], "out:" + out[0][0],
                  *["mut:" + x["k"] for x in case["muts"]]]
        return labels, True
    finally:
        sess.close()


# ------------------------------------------------------------- byte level
CONFS = [
    {"v": 1, "community": "public"},
    {"v": 2, "community": "public"},
    {"v": 3, "engine_id": b"\x80\0\0\0\1\2\3\4", "user": "user", "aalg": 0, "akt": 0, "akey": b"", "palg": 0, "pkt": 0, "pkey": b""},
    {"v": 3, "engine_id": b"\x80\0\0\0\1\2\3\4", "user": "user", "aalg": 0, "akt": 0, "akey": b"", "palg": 0, "pkt": 0, "pkey": b"", "disc": True},
    {"v": 3, "engine_id": b"\x80\0\0\0\1\2\3\4", "user": "user", "aalg": 1, "akt": 2, "akey": b"k" * 16, "palg": 0, "pkt": 0, "pkey": b""},
    {"v": 3, "engine_id": b"\x80\0\0\0\1\2\3\4", "user": "user", "aalg": 2, "akt": 2, "akey": b"k" * 20, "palg": 1, "pkt": 2, "pkey": b"q" * 20},
    {"v": 3, "engine_id": b"\x80\0\0\0\1\2\3\4", "user": "user", "aalg": 1, "akt": 2, "akey": b"k" * 16, "palg": 2, "pkt": 2, "pkey": b"q" * 16},
]
RICH = [
    {"tag": snmp.RESPONSE, "err": 0, "vbs": [
        [["abs", [1, 3, 6, 1, 2]], ["real_bin", 0, 2, 0, 0, 3, 5, 0]],
        [["abs", [1, 3, 6, 1, 2, 300]], ["real_dec", 3, "1.5E2"]],
        [["rel", b"\x04"], ["c64", 1 << 60]],
        [["abs", [1, 3, 6, 1, 9]], ["ip", b"\1\2\3\4"]],
        [["abs", [1, 3, 6, 2]], ["oid", [1, 3, 70000]]],
    ]},
    {"tag": snmp.RESPONSE, "err": 0, "vbs": [[["abs", [1, 3, 6, 1, 2]], ["oct", b"abc"]]]},
    {"tag": snmp.RESPONSE, "err": 0, "vbs": [[["abs", [1, 3, 6, 1, 2]], ["int", -5]]]},
    {"tag": snmp.RESPONSE, "err": 0, "vbs": [[["abs", [1, 3, 6, 1, 2]], ["bool", 1]], [["abs", [1, 3, 6, 3]], ["eomv"]]]},
    {"tag": snmp.REPORT, "err": 0, "vbs": [[["abs", [1, 3, 6, 1, 6, 3, 15]], ["c32", 1]]]},
    {"tag": snmp.RESPONSE, "err": 0, "vbs": []},
]


def flips_explicit(tier):
    out = []
    ops = ("many", "next", "bulk", "get", "refresh")
    n = 0
    for ci, c in enumerate(CONFS):
        for ri in range(len(RICH)):
            for op in ops:
                if (op == "refresh" and c["v"] != 3) or (op == "bulk" and c["v"] == 1):
                    continue
                n += 1
                if tier == "quick" and n % 3 and not (ri == 0 and op == "many"):
                    continue
                out.append({"conf": ci, "op": op, "reply": ri, "cuts": True})
                # blocks of 16 positions, all 255 other values of each octet
                for blk in range(0, 20 if c["v"] == 3 else 12):
                    out.append({"conf": ci, "op": op, "reply": ri, "block": blk})
    return out


def run_flips(lib, case):
    conf = CONFS[case["conf"]]
    sess = Session(lib, conf, case["op"], [1, 3])
    try:
        t, enc = reply_tree(sess, RICH[case["reply"]])
        keys = sess.agent.keys if conf["v"] == 3 else None
        good = tree.resign(tree.encode(t, enc), conf, keys) if keys else tree.encode(t, enc)
        seen = set()
        n = 0
        if case.get("cuts"):
            # truncations, with the rest of the message still in the buffer
            for k in range(len(good)):
                res = []
                for dirt in (2, 3):
                    sess.dirty(dirt, good)
                    res.append(sess.inject(good[:k]))
                if res[0] != res[1]:
                    raise Violation(f"outcome depends on octets outside the datagram {good[:k].hex()}: {res}")
                seen.add(res[0][0])
                n += 1
            for tail in range(256):
                seen.add(sess.inject(good + bytes([tail]))[0])
            if conf.get("palg"):
                scoped = tree.encode(t[1][3][1]["enc"], enc)
                for k in range(len(scoped)):
                    d = sess.agent.reply_v3(sess.req, b"", scoped=scoped[:k], salt=b"\1" * 8)
                    res = []
                    for dirt in (2, 3):
                        sess.dirty(dirt, good)
                        res.append(sess.inject(d))
                    if res[0] != res[1]:
                        raise Violation(f"outcome depends on octets outside the scoped PDU {scoped[:k].hex()}: {res}")
                    seen.add(res[0][0])
                for k in range(0, 40):
                    for p in (b"", b"\0" * k):
                        seen.add(sess.inject(sess.agent.reply_v3(sess.req, b"", scoped=scoped, priv_params=p, salt=b"\0" * 8))[0])
        else:
            # for encrypted sessions replace octets of the plaintext
            inner = bool(conf.get("palg")) and case["block"] >= 8
            if inner:
                scoped = tree.encode(t[1][3][1]["enc"], enc)
                base, off = scoped, (case["block"] - 8) * 16
            else:
                base, off = good, case["block"] * 16
            for pos in range(off, min(off + 16, len(base))):
                vals = range(256) if not inner else (0, 1, 2, 0x7F, 0x80, 0x81, 0x82, 0x84, 0xFF, 0x1F, 0x30, *[base[pos] ^ (1 << b) for b in range(8)])
                for v in vals:
                    d = base[:pos] + bytes([v]) + base[pos + 1 :]
                    if inner:
                        seen.add(sess.inject(sess.agent.reply_v3(sess.req, b"", scoped=d))[0])
                    else:
                        if keys and conf["aalg"]:
                            d = tree.resign(d, conf, keys)
                        seen.add(sess.inject(d)[0])
                    n += 1
        return [f"v{conf['v']}", case["op"], *["out:" + x for x in sorted(seen)]], n > 0
    finally:
        sess.close()


# ------------------------------------------------------------------- soup
def soup_tlv(s, depth):
    tag = bytes([s.choice(tree.TAGS)]) if not s.chance(12) else s.choice(tree.TAGX)
    if depth and s.bool():
        body = b"".join(soup_tlv(s, depth - 1) for _ in range(s.int(0, 4)))
    else:
        body = s.choice(tree.BODIES) if s.bool() else s.bytes(0, 12)
    ln = s.choice(tree.LENS) if s.chance(8) else ber.enc_len(len(body), s.choice((0, 0, 0, 1, 2, 8)))
    return tag + ln + body


def soup_strategy(s):
    ci = s.below(len(CONFS))
    c = CONFS[ci]
    op = s.choice(OPS if c["v"] == 3 else OPS[:4])
    if c["v"] == 1 and op == "bulk":
        op = "next"

    def one(s):
        k = s.below(4)
        if k == 0:
            return s.bytes(0, 40)
        if k == 1:
            return soup_tlv(s, 5)
        if k == 2:
            head = b"\x02\x01" + bytes([(0, 1, 3)[c["v"] - 1] if s.bool() else s.below(5)])
            body = head + b"".join(soup_tlv(s, 4) for _ in range(s.int(0, 5)))
            return ber.tlv(0x30, body, s.choice((0, 0, 1, 3)))
        return ber.tlv(0x30, s.bytes(3000, 5000))

    return {"conf": ci, "op": op, "data": s.list(one, 1, 6), "dirt": s.below(4), "scoped": s.bool()}


def run_soup(lib, case):
    conf = CONFS[case["conf"]]
    sess = Session(lib, conf, case["op"], [1, 3])
    try:
        labels = [f"v{conf['v']}", case["op"]]
        deep = False
        for d in case["data"]:
            if conf["v"] == 3 and case["scoped"]:
                # the soup in place of the scoped PDU of an authentic message
                d = sess.agent.reply_v3(sess.req, b"", scoped=d[:3000])
            out = []
            for k in (case["dirt"], (case["dirt"] + 1) % 4):
                sess.dirty(k, d or b"\x30\x03")
                out.append(sess.inject(d))
            if out[0] != out[1]:
                raise Violation(f"outcome depends on octets outside the datagram {d.hex()}: {out[0]} / {out[1]}")
            labels.append("out:" + out[0][0])
            deep = deep or "incomplete" not in out[0][1]
        return labels, deep
    finally:
        sess.close()


# ------------------------------------------- extreme field lengths of v3
V3CONFS = [i for i, c in enumerate(CONFS) if c["v"] == 3]
ALENS = (*range(15), 16, 20, 24, 31, 32, 100, 127, 128, 255, 256, 1000, 3900)
PLENS = (*range(10), 12, 16, 64, 127, 128, 1000)


def lengths_explicit(tier):
    out = []
    for ci in V3CONFS:
        for flags in (0, 1, 2, 3, 4, 5, 6, 7, 0x83, 0xFF):
            for op in ("get", "refresh") if tier == "quick" else OPS:
                out.append({"conf": ci, "op": op, "flags": flags, "alens": ALENS, "plens": PLENS, "tight": flags & 1})
    return out


def lengths_strategy(s):
    n = lambda: s.choice(ALENS) if s.bool() else s.choice((s.below(40), s.below(300), s.below(4200)))  # noqa: E731
    return {"conf": s.choice(V3CONFS), "op": s.choice(OPS), "flags": s.choice((0, 1, 2, 3, 4, 7, s.below(256))),
            "alens": [n() for _ in range(4)], "plens": [n() for _ in range(4)], "ulens": [n() for _ in range(2)], "elens": [n() for _ in range(2)],
            "fill": s.below(256), "max": s.below(9)}


def run_lengths(lib, case):
    """Every field of the security parameters, and the data, may have any
    length: the datagram as a whole may be too short for what the flags say."""
    conf = CONFS[case["conf"]]
    sess = Session(lib, conf, case["op"], [1, 3])
    try:
        a, req = sess.agent, sess.req
        f = bytes([case.get("fill", 0)])
        users = [conf["user"].encode(), b"", *(f * n for n in case.get("ulens", ()))]
        engines = [a.engine_id, b"", *(f * n for n in case.get("elens", ()))]
        scoped = snmp.scoped_pdu(a.engine_id, b"", snmp.pdu(snmp.RESPONSE, req["id"], []))
        datas = [b"", b"\x04\x00", b"\x30\x00", b"\x05\x00", b"\x04\x01\x00", *(snmp.octets(f * n) for n in (7, 8, 9, 15, 16, 24)), scoped, snmp.octets(scoped)]
        nums = [(a.boots, a.time), (0, 0), ((1 << 31) - 1, (1 << 31) - 1)]
        mx = (65507, 484, 0, 1, 127, 128, (1 << 31) - 1, -1, 1 << 40)[case.get("max", 0)]
        sess.dirty(case["flags"] % 4, scoped)
        seen = set()
        n = 0
        for al in case["alens"]:
            for pl in case["plens"]:
                # all combinations of the small ones, the rest in turn
                full = al < 13 and pl < 10
                for j, (u, e) in enumerate((u, e) for u in users for e in engines):
                    for i, data in enumerate(datas):
                        if not full and (i + j + al + pl) % 5:
                            continue
                        b, t = nums[(i + al) % 3 if not case.get("tight") else 0]
                        m = snmp.msg_v3(req["msg_id"], case["flags"], snmp.usm(e, b, t, u, f * al, f * pl), data, max_size=mx)
                        if al == 12 and conf["aalg"] and i % 2 == 0:
                            m = snmp.sign(m, conf["aalg"], a.keys[0])
                        seen.add(sess.inject(m[:60000])[0])
                        n += 1
        return [f"v3{'p' if conf['palg'] else 'a' if conf['aalg'] else ''}", case["op"], *["out:" + x for x in sorted(seen)]], n > 0
    finally:
        sess.close()


# -------------------------------------------------- through the two clients
def client_strategy(s):
    c = strategy(s)
    c["api"] = s.choice(("sync", "async"))
    return c


def run_client(lib, case):
    conf = dict(case["conf"])
    sent = []

    def handler(agent, raw):
        class S:
            pass

        sess = S()
        sess.agent, sess.conf = agent, conf
        sess.req = agent.open(snmp.parse(raw, strict=False))
        t, enc = reply_tree(sess, case["reply"], case["plain"])
        data = tree.encode(tree.mutate(t, case["muts"]), enc)
        if case["resign"] and conf["v"] == 3 and not case["plain"]:
            data = tree.resign(data, conf, agent.keys)
        data = data[: len(data) - case["cut"]] + case["tail"]
        sent.append(data)
        return [data[:60000]]

    ok = allowed(lib)
    base = snmp.dotted(case["base"])
    try:
        with Driver(lib, conf, case["api"], handler, timeout=0.02) as d:
            if case["op"] == "get":
                k, v = d.get(base)
            elif case["op"] == "many":
                k, v = d.get_many([base])
            elif case["op"] == "refresh":
                k, v = d.refresh()
            else:
                items, v = d.walk(case["op"], base, 5)
                k = "exc" if isinstance(v, BaseException) else "ok"
    except BaseException as e:  # noqa: BLE001
        if type(e).__name__ != "PanicException":
            raise
        k, v = "exc", e
    if k == "exc" and not isinstance(v, ok):
        raise Violation(f"{case['api']} {case['op']} raised {type(v).__name__} ({str(v)[:200]}) on {[x.hex() for x in sent]}")
    return [case["api"], f"v{conf['v']}", "out:" + (type(v).__name__ if k == "exc" else k)], True


HARNESS = [
    HarnessPart(
        "decoders",
        "c01",
        lambda tier: [["--shard", str(i), "--of", "8", "--random", str(300000 if tier == "quick" else 20000000)] for i in range(8)],
    ),
    HarnessPart(
        "guided",
        "c01fuzz",
        lambda tier: [["--random", str(60000 if tier == "quick" else 15000000)] for i in range(8)],
    ),
]

PARTS = [
    Part("flips", None, run_flips, quick=0, thorough=0, explicit=flips_explicit),
    Part("mutated", strategy, run, quick=60000, thorough=3000000),
    Part("lengths", lengths_strategy, run_lengths, quick=1500, thorough=100000, explicit=lengths_explicit),
    Part("soup", soup_strategy, run_soup, quick=16000, thorough=800000),
    Part("clients", client_strategy, run_client, quick=4000, thorough=60000),
]
