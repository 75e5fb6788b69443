"""C12: USM keys are derived exactly as RFC 3414 A.2 prescribes."""

import random

from vlib import ber, crypt, gen, history, snmp
from vlib.drive import Driver, expect_ok
from vlib.runner import Part, Violation
from vlib.snmp import code

crypt.selftest()

ID = "C12"
RULE = (
    "derive: a password (every length 1-256 and random, around divisors of 2^20 and multiples of 64, up to beyond 2^20; any "
    "octets), an engine id of 0-64 octets and a digest: the four public key functions against hashlib. session: a session of every "
    "digest x cipher x key types, built by the constructor or set_keys (repeatedly, with refused material between), engine "
    "id given or discovered, through raw/sync/async: MAC and ciphertext of its requests under independently derived keys. "
    "users: key objects shared by users and users shared by sessions, in any order of creation. refuse: every entry taking key material x wrong sizes 0-64 and beyond x unknown codes: an exception, never a panic. "
    "Non-trivial: a key derived and compared, or material refused."
)
ASSUMPTIONS = [
    "gufo.snmp.user pads and truncates master and localized keys before the library core sees them (existing tests demand it); wrong sizes are judged below that layer",
    "get_master_key/get_localized_key take an algorithm code without key type bits",
]
MB = 1 << 20


# ------------------------------------------------------------- passwords
def expand(p):
    """A password from its description."""
    if p[0] == "raw":
        return p[1]
    _, seed, n, kind = p
    if kind == 0:
        return random.Random(seed).randbytes(n)
    unit = random.Random(seed).randbytes(1 + seed % 7)
    return (unit * (n // len(unit) + 1))[:n]


def pw_len(s):
    k = s.below(6)
    if k == 0:
        return s.int(1, 32)
    if k == 1:
        return s.int(1, 300)
    if k == 2:
        return max(1, 64 * s.int(1, 80) + s.int(0, 4) - 2)
    if k == 3:
        return max(1, (1 << s.int(0, 20)) + s.int(0, 4) - 2)
    if k == 4:
        return s.int(300, 70000)
    return s.choice((MB - 1, MB, MB + 1, MB + 63, 2 * MB, MB // 2, MB // 2 + 1, MB // 3, MB // 3 + 1, s.int(MB // 2, 3 * MB)))


def password(s):
    n = pw_len(s)
    if n <= 64 and s.bool():
        return ["raw", s.bytes(n)]
    return ["gen", s.below(1 << 16), n, s.below(2)]


def engine(s, lo=0):
    if s.chance(3):
        return s.bytes(lo, 64)
    return gen.engine(s)


# ---------------------------------------------------------------- derive
def derive_strategy(s):
    return {"alg": s.choice((1, 2)), "pw": password(s), "engines": s.list(engine, 1, 6), "master": s.bytes(20)}


def ref_master(alg, pw):
    """RFC 3414 A.2.1/A.2.2, in the manner of its own code: the password
    repeated into 64-octet blocks until 2^20 octets have been digested."""
    h = crypt.HASH[alg]()
    rep = pw * (MB // len(pw) + 1)
    h.update(rep[:MB])
    return h.digest()


def same(what, got, want):
    if bytes(got) != want:
        raise Violation(f"{what} is {bytes(got).hex()}, should be {want.hex()}")


def run_derive(lib, case):
    alg = case["alg"]
    pw = expand(case["pw"])
    cls = {1: lib.user.Md5Key, 2: lib.user.Sha1Key}[alg]
    master = ref_master(alg, pw)
    what = f"{cls.__name__} master key of a {len(pw)}-octet password {pw[:40].hex()}"
    same(what, lib.fast.get_master_key(alg, pw), master)
    if len(pw) < 2000:
        same(what + " (class method)", cls.get_master_key(pw), master)
    for eid in case["engines"]:
        for m in (master, case["master"][: crypt.KEYLEN[alg]]):
            want = crypt.HASH[alg](m + eid + m).digest()
            what = f"{cls.__name__} localized key of master {m.hex()}, engine {eid.hex()}"
            same(what, lib.fast.get_localized_key(alg, m, eid), want)
            same(what + " (class method)", cls.get_localized_key(m, eid), want)
    n = len(pw)
    return ["len:" + ("<=64" if n <= 64 else "<=300" if n <= 300 else "<2^20" if n < MB else ">=2^20"), "divides" if MB % n == 0 else "remainder"], True


def derive_explicit(tier):
    top = 256 if tier == "quick" else 5000
    out = []
    for n in list(range(1, top + 1)) + [1 << k for k in range(9, 22)] + [MB - 1, MB + 1, MB // 2 + 1, MB // 2 - 1, MB // 3]:
        for alg in (1, 2):
            out.append({"alg": alg, "pw": ["gen", n, n, 0], "engines": [bytes(range(n % 65))], "master": bytes(range(n % 50, n % 50 + 20))})
    for alg in (1, 2):
        out.append({"alg": alg, "pw": ["raw", b"maplesyrup"], "engines": [bytes(range(k)) for k in range(130)], "master": b"m" * 20})
        for b in range(256):
            out.append({"alg": alg, "pw": ["raw", bytes([b])], "engines": [bytes([b]) * 12], "master": bytes([b]) * 20})
    return out


# --------------------------------------------------------------- session
def key(s, alg, kt):
    if kt == 0:
        return password(s) if s.chance(4) else ["raw", gen.password(s)]
    return ["raw", s.bytes(crypt.KEYLEN[alg])]


def keys(s):
    a = s.choice((1, 2))
    p = s.choice((0, 1, 2))
    akt, pkt = s.below(3), s.below(3)
    return {"aalg": a, "akt": akt, "akey": key(s, a, akt), "palg": p, "pkt": pkt if p else 0, "pkey": key(s, a, pkt) if p else ["raw", b""], "user": gen.user(s)}


def session_strategy(s):
    api = s.choice(("raw", "raw", "sync", "async"))
    return {
        "api": api,
        "discover": s.bool(),
        "engine": engine(s, 1),
        # the raw socket may be given keys again and again
        "keys": s.list(keys, 1, 4 if api == "raw" else 1),
        # refused material before the n-th keys
        "refuse": s.list(lambda s: [s.below(4), s.int(0, 40), s.below(2)], 0, 2) if api == "raw" else [],
        "boots": history.num(s),
        "time": history.num(s),
    }


def check_msg(conf, p, eid, what):
    akey, pkey = snmp.conf_keys(conf, eid)
    if p["engine_id"] != eid:
        raise Violation(f"{what}: engine id {p['engine_id'].hex()}, should be {eid.hex()}")
    if not p["flags"] & 1 or not snmp.mac_ok(p, conf["aalg"], akey):
        raise Violation(f"{what}: request {p['raw'].hex()} is not signed with {akey.hex()}")
    if bool(p["flags"] & 2) != bool(conf["palg"]):
        raise Violation(f"{what}: request {p['raw'].hex()} has flags {p['flags']}")
    if conf["palg"]:
        plain = crypt.priv_decrypt(conf["palg"], pkey, p["boots"], p["time"], p["priv"], p["cipher"])
        try:
            r = ber.Reader(plain)
            q = snmp.parse_scoped(r)
        except ber.BerError as e:
            raise Violation(f"{what}: request {p['raw'].hex()} is not encrypted with {pkey.hex()}: {plain.hex()}") from e
        if q["ctx_engine"] != eid or not q["vars"] and q["pdu"] != snmp.GET:
            raise Violation(f"{what}: request decrypts to {plain.hex()}")


def mk_conf(case, k):
    c = {"v": 3, "engine_id": case["engine"], **k}
    c["akey"], c["pkey"] = expand(k["akey"]), expand(k["pkey"])
    return c


def run_session(lib, case):
    eid = case["engine"]
    confs = [mk_conf(case, k) for k in case["keys"]]
    cur = {"c": confs[0], "n": 0}
    labels = [case["api"], "discover" if case["discover"] else "engine-given", f"keys:{len(confs)}"]

    def handler(agent, raw):
        p = snmp.parse(raw, strict=False)
        if p["engine_id"] == b"" and case["discover"]:
            return [agent.report(p, user=p["user"])]
        c = cur["c"]
        check_msg(c, p, eid, f"a{c['aalg']}t{c['akt']} p{c['palg']}t{c['pkt']}, password/keys {c['akey'][:40].hex()} {c['pkey'][:40].hex()}")
        cur["n"] += 1
        agent.conf, agent._keys = c, None
        agent.open(p)
        if not p["vars"]:
            return [agent.report(p, plain=False)]
        return [agent.response(p, [snmp.varbind(p["vars"][0][0], ber.enc_int(cur["n"]))])]

    kw = {"discover": True} if case["discover"] else {}
    with Driver(lib, confs[0], case["api"], handler, boots=case["boots"], time=case["time"], **kw) as d:
        if case["discover"]:
            expect_ok(d.discover(), "discovery")
        elif case["api"] != "raw":
            expect_ok(d.refresh(), "refresh")
        for i, c in enumerate(confs):
            cur["c"] = c
            if i:
                for where, n, alg in case["refuse"]:
                    try_refuse(lib, d.sock, where, n, alg)
                    labels.append("refused")
                d.sock.set_keys(c["user"], code(c["aalg"], c["akt"]), c["akey"], code(c["palg"], c["pkt"]), c["pkey"])
            labels.append(f"a{c['aalg']}t{c['akt']}p{c['palg']}t{c['pkt']}")
            v = expect_ok(d.get("1.3.6.1"), "get")
            if v != cur["n"]:
                raise Violation(f"get: {cur['n']} sent, {v!r} delivered")
        if not cur["n"]:
            raise Violation("no request was sent")
    return labels, True


# ----------------------------------------------------------------- users
def object_strategy(s):
    """Key and user objects, shared between users and sessions."""

    def one(s):
        kt = s.below(3)
        return {"alg": s.choice((1, 2)), "kt": kt, "key": key(s, 1, 0) if kt == 0 else ["raw", s.bytes(s.choice((16, 20, 16, 20, s.int(1, 40))))]}

    auth, priv = s.list(one, 1, 3), s.list(one, 1, 2)
    users = s.list(lambda s: {"a": s.below(len(auth)), "p": s.below(len(priv)) if s.chance(4) or s.bool() else -1, "name": gen.user(s)}, 1, 4)
    return {
        "auth": auth,
        "priv": priv,
        "users": users,
        "sessions": s.list(
            lambda s: {"u": s.below(len(users)), "engine": engine(s, 1), "discover": s.bool(), "api": s.choice(("sync", "async")), "late": s.bool()}, 1, 5
        ),
    }


def aligned(k, n):
    """Key material as the user gave it; fixed-size keys are padded or cut."""
    v = expand(k["key"])
    return v if k["kt"] == 0 else v[:n] + bytes(n - len(v[:n]))


def run_objects(lib, case):
    kt = lib.user.KeyType
    auth = [(lib.user.Md5Key, lib.user.Sha1Key)[k["alg"] - 1](expand(k["key"]), key_type=kt(k["kt"])) for k in case["auth"]]
    priv = [(lib.user.DesKey, lib.user.Aes128Key)[k["alg"] - 1](expand(k["key"]), key_type=kt(k["kt"])) for k in case["priv"]]
    made = {}

    def user(i):
        if i not in made:
            u = case["users"][i]
            made[i] = lib.user.User(u["name"], auth_key=auth[u["a"]], priv_key=priv[u["p"]] if u["p"] >= 0 else None)
        return made[i]

    for x in case["sessions"]:
        if not x["late"]:
            user(x["u"])
    was = snmp.make_user
    try:
        for x in case["sessions"]:
            u = case["users"][x["u"]]
            a = case["auth"][u["a"]]
            n = crypt.KEYLEN[a["alg"]]
            c = {"v": 3, "engine_id": x["engine"], "user": u["name"], "aalg": a["alg"], "akt": a["kt"], "akey": aligned(a, n), "palg": 0, "pkt": 0, "pkey": b""}
            if u["p"] >= 0:
                p = case["priv"][u["p"]]
                c.update(palg=p["alg"], pkt=p["kt"], pkey=aligned(p, n))
            obj = user(x["u"])
            snmp.make_user = lambda lib, conf, obj=obj: obj
            count = [0]

            def handler(agent, raw, c=c, count=count):
                p = snmp.parse(raw, strict=False)
                if p["engine_id"] == b"":
                    return [agent.report(p, user=p["user"])]
                check_msg(c, p, c["engine_id"], f"user {u} of {case['users']}, keys {case['auth']} {case['priv']}")
                count[0] += 1
                agent.open(p)
                if not p["vars"]:
                    return [agent.report(p, plain=False)]
                return [agent.response(p, [snmp.varbind(p["vars"][0][0], ber.enc_int(7))])]

            kw = {"discover": True} if x["discover"] else {}
            try:
                with Driver(lib, c, x["api"], handler, **kw) as d:
                    expect_ok(d.discover() if x["discover"] else d.refresh(), "refresh")
                    if expect_ok(d.get("1.3.6.1"), "get") != 7:
                        raise Violation("wrong value")
            except ValueError as e:
                raise Violation(f"the key material of user {u['name']!r} is refused: {e}") from e
            if not count[0]:
                raise Violation("no request was sent")
    finally:
        snmp.make_user = was
    shared = len({u["p"] for u in case["users"]} - {-1}) < sum(u["p"] >= 0 for u in case["users"])
    return [f"users:{len(made)}", f"sessions:{len(case['sessions'])}", "key shared" if shared else "key not shared"], True


def try_refuse(lib, sock, where, n, alg):
    a = 1 + alg
    size = crypt.KEYLEN[a]
    if n == size:
        n += 1
    good = b"k" * size
    args = [
        (a | 0x40, b"k" * n, 0, b""),
        (a | 0x80, b"k" * n, 0, b""),
        (a | 0x80, good, 1 | 0x40, b"k" * n),
        (a | 0x80, good, 2 | 0x80, b"k" * n),
    ][where]
    refused(f"set_keys{args}", lambda: sock.set_keys("user", *args))


def session_explicit(tier):
    out = []
    for a in (1, 2):
        n = crypt.KEYLEN[a]
        for akt in (0, 1, 2):
            for p in (0, 1, 2):
                for pkt in (0, 1, 2) if p else (0,):
                    for api in ("raw", "sync", "async"):
                        for disc in (False, True):
                            k = {"aalg": a, "akt": akt, "akey": ["raw", bytes(range(n))], "palg": p, "pkt": pkt,
                                 "pkey": ["raw", bytes(range(60, 60 + n)) if p else b""], "user": "user"}
                            out.append({"api": api, "discover": disc, "engine": b"\x80\x00\x1f\x88\x04abc", "keys": [k], "refuse": [], "boots": 1, "time": 2})
    return out


# ---------------------------------------------------------------- refuse
ENTRIES = ("ctor-auth", "ctor-priv", "set-auth", "set-priv", "localize")


def refuse_strategy(s):
    k = s.below(3)
    if k == 0:
        return {"kind": "size", "entry": s.choice(ENTRIES), "alg": s.choice((1, 2)), "kt": s.choice((1, 2)), "palg": s.choice((1, 2)),
                "key": s.bytes(0, 64) if s.bool() else bytes(s.int(0, 2000)), "engine": engine(s)}
    if k == 1:
        return {"kind": "code", "entry": s.choice(ENTRIES + ("master",)), "code": s.int(0, 255), "alg": s.choice((1, 2)), "key": s.bytes(0, 24), "engine": engine(s)}
    return {"kind": "empty", "entry": s.choice(("ctor-auth", "ctor-priv", "set-auth", "set-priv", "master", "class", "sync", "async", "sync-disc", "async-disc")),
            "alg": s.choice((1, 2)), "palg": s.choice((0, 1, 2)), "engine": engine(s)}


def refused(what, fn):
    try:
        r = fn()
    except Exception as e:  # noqa: BLE001
        return e
    raise Violation(f"{what} is accepted: {r!r}")


def material(lib, entry, eid, acode, akey, pcode, pkey):
    """Give key material to the library at one of its entries."""
    if entry.startswith("ctor"):
        return lib.fast.SnmpV3ClientSocket("127.0.0.1:9", eid, "user", acode, akey, pcode, pkey, 0, 0, 0, 0)
    s = lib.fast.SnmpV3ClientSocket("127.0.0.1:9", eid, "user", 0, b"", 0, b"", 0, 0, 0, 0)
    return s.set_keys("user", acode, akey, pcode, pkey)


def run_refuse(lib, case):
    kind, entry, alg, eid = case["kind"], case["entry"], case["alg"], case["engine"]
    size = crypt.KEYLEN[alg]
    good = bytes(range(size))
    labels = [kind, f"{kind}:{entry}"]
    if kind == "size":
        key = case["key"]
        if len(key) == size:
            key += b"+"
        what = f"{entry}: {len(key)}-octet key for digest {alg}, key type {case['kt']}"
        if entry == "localize":
            refused(what, lambda: lib.fast.get_localized_key(alg, key, eid))
        elif entry.endswith("auth"):
            refused(what, lambda: material(lib, entry, eid, code(alg, case["kt"]), key, 0, b""))
        else:
            refused(what, lambda: material(lib, entry, eid, code(alg, 2), good, code(case["palg"], case["kt"]), key))
        return labels, True
    if kind == "code":
        c, key = case["code"], case["key"]
        bad = (c & 0x3F) > 2
        # nothing is said about code 0 or about type bits here: no panic
        if entry in ("master", "localize"):
            fn = (lambda: lib.fast.get_master_key(c, key or b"x")) if entry == "master" else (lambda: lib.fast.get_localized_key(c, key, eid))
        else:
            bad = bad or ((c & 0x3F) != 0 and c & 0xC0 == 0xC0)
            if entry.endswith("auth"):
                fn = lambda: material(lib, entry, eid, c, key, 0, b"")  # noqa: E731
            else:
                fn = lambda: material(lib, entry, eid, code(alg, 2), good, c, key)  # noqa: E731
        what = f"{entry}: algorithm code {c:#x}"
        if bad:
            refused(what, fn)
        else:
            try:
                fn()
            except Exception:  # noqa: BLE001
                labels.append("code:known-refused")
        return labels, bad
    what = f"{entry}: empty password, digest {alg}, cipher {case['palg']}"
    cls = {1: lib.user.Md5Key, 2: lib.user.Sha1Key}[alg]
    if entry == "master":
        refused(what, lambda: lib.fast.get_master_key(alg, b""))
    elif entry == "class":
        refused(what, lambda: cls.get_master_key(b""))
    elif entry.endswith("auth"):
        refused(what, lambda: material(lib, entry, eid, alg, b"", 0, b""))
    elif entry.endswith("priv"):
        refused(what, lambda: material(lib, entry, eid, code(alg, 2), good, case["palg"] or 1, b""))
    else:
        pcls = {1: lib.user.DesKey, 2: lib.user.Aes128Key}.get(case["palg"])
        user = lib.user.User("user", auth_key=cls(b"" if pcls is None else b"password"), priv_key=pcls(b"") if pcls else None)
        refused(what, lambda: session_use(lib, entry, eid or b"\x80abcd", user))
    return labels, True


def session_use(lib, entry, eid, user):
    """Create a session with `user`, and discover the engine if asked to."""
    disc = entry.endswith("disc")
    conf = {"v": 3, "engine_id": eid, "user": "user", "aalg": 0, "akt": 0, "akey": b"", "palg": 0, "pkt": 0, "pkey": b""}
    was = snmp.make_user
    snmp.make_user = lambda lib, conf: user
    try:

        def handler(agent, raw):
            p = snmp.parse(raw, strict=False)
            return [agent.report(p, user=p["user"])]

        with Driver(lib, conf, entry.split("-")[0], handler, timeout=0.5, **({"discover": True} if disc else {})) as d:
            k, v = d.discover() if disc else ("ok", "a session")
            if k == "exc" and not isinstance(v, OSError):
                raise v
            return k
    finally:
        snmp.make_user = was


def refuse_explicit(tier):
    out = []
    for entry in ENTRIES:
        for alg in (1, 2):
            for kt in (1, 2) if entry != "localize" else (1,):
                for palg in (1, 2) if entry.endswith("priv") else (1,):
                    for n in range(66):
                        out.append({"kind": "size", "entry": entry, "alg": alg, "kt": kt, "palg": palg, "key": b"k" * n, "engine": b"\x80abcde"})
    for entry in ENTRIES + ("master",):
        for alg in (1, 2):
            for c in range(256):
                for n in (0, 8, 16, 20) if tier == "thorough" or c < 8 else (crypt.KEYLEN[alg],):
                    out.append({"kind": "code", "entry": entry, "code": c, "alg": alg, "key": b"k" * n, "engine": b"\x80abcde"})
    for entry in ("ctor-auth", "ctor-priv", "set-auth", "set-priv", "master", "class", "sync", "async", "sync-disc", "async-disc"):
        for alg in (1, 2):
            for palg in (0, 1, 2):
                out.append({"kind": "empty", "entry": entry, "alg": alg, "palg": palg, "engine": b"\x80abcde"})
    return out


PARTS = [
    Part("refuse", refuse_strategy, run_refuse, quick=40000, thorough=2000000, explicit=refuse_explicit),
    Part("session", session_strategy, run_session, quick=12000, thorough=500000, explicit=session_explicit),
    Part("users", object_strategy, run_objects, quick=3000, thorough=200000),
    Part("derive", derive_strategy, run_derive, quick=20000, thorough=1000000, explicit=derive_explicit),
]
