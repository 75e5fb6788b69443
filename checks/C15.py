"""C15: everything the library encodes, it decodes back unchanged and minimally."""

from vlib import ber, crypt, gen, snmp, wire
from vlib.runner import HarnessPart, Part, Violation
from vlib.snmp import Agent, dotted, make_sock, ready

crypt.selftest()

ID = "C15"
RULE = (
    "Integers: every value in a window around 0, 4000 values around each power of two (also shifted by an octet), random "
    "of every bit length. OIDs: every first pair, every arc at its boundaries, random. Messages: v1/v2c/v3 requests "
    "(get, getnext, getbulk) with random fields of every size, encoded/decoded through the library's public types. "
    "Oracle: encoding equals that of an independent minimal encoder, decoding gives the original and leaves nothing. wire: the same through the Python extension - integers as max-repetitions "
    "(all of 1-2 octets, around every power of two, random), OIDs, ids, engine ids and texts of requests are checked by an independent strict decoder, "
    "echoed as values and names, and must come back as they were. "
    "Non-trivial: an integer outside 0..127, an OID with a multi-octet or more than 9 arcs, any message."
)
ASSUMPTIONS = ["GetBulk fields are not public: a GetBulk is decoded from independent octets and must encode to the same octets"]


def shards(tier):
    n = 200000 if tier == "quick" else 6000000
    return [["--shard", str(i), "--of", "8", "--random", str(n)] for i in range(8)]


HARNESS = [HarnessPart("roundtrip", "c15", shards)]


# ------------------------------------------------------------------ wire
def wire_strategy(s):
    c = gen.any_conf(s)
    if c["v"] == 1:
        c["v"] = 2
    if c["v"] == 3:
        for k in ("akt", "pkt"):
            if c[k] == 0:  # slow
                c.update(aalg=0, palg=0, akt=0, pkt=0, akey=b"", pkey=b"")
                break
    return {
        "conf": c,
        "ids": s.list(lambda s: s.choice((0, 1, 127, 128, 255, 256, 32767, 32768, (1 << 23) - 1, 1 << 23, (1 << 31) - 1, s.below(1 << 31))), 0, 10),
        "ints": s.list(gen.i64, 1, 8),
        "oids": s.list(lambda s: gen.oid(s, 2, s.choice((4, 12, 40, 120))), 1, 8),
        "boots": s.choice((0, 127, 128, 32768, (1 << 31) - 1, s.below(1 << 31))),
        "time": s.choice((0, 127, 128, 32768, (1 << 31) - 1, s.below(1 << 31))),
    }


def run_wire(lib, case):
    c = case["conf"]
    if case["ids"] and lib.rng.active:
        lib.rng.seed(len(case["ids"]), u64=[x for i in case["ids"] for x in (i, i)])
    agent = Agent(c, boots=case["boots"], time=case["time"])
    st = {"engine_id": c.get("engine_id"), "boots": 0, "time": 0, "user": c.get("user")}
    keys = agent.keys if c["v"] == 3 else None
    try:
        sock = make_sock(lib, c, agent.port)

        def recv(fn, what):
            if not ready(sock):
                raise snmp.Harness("the reply does not arrive")
            try:
                return fn()
            except BlockingIOError:
                raise Violation(f"{what}: the echo is not recognized as its answer", soft=True) from None
            except Exception as e:  # noqa: BLE001
                raise Violation(f"{what}: its echo is refused: {type(e).__name__}: {e}") from e

        def check(tag, oids, b, what):
            raw = agent.recv()
            try:
                p = wire.check_request(raw, c, st, tag, oids, 0, b, keys)
            except ber.BerError as e:
                raise Violation(f"{what} is not minimal definite-length BER ({e}): {raw.hex()}") from e
            return p

        def send(fn, what, *a):
            try:
                fn(*a)
            except Exception as e:  # noqa: BLE001
                raise Violation(f"{what}: {type(e).__name__}: {e}") from e

        for i, v in enumerate(case["ints"]):
            o = case["oids"][i % len(case["oids"])][:100]
            what = f"GetBulk of {dotted(o)} with max-repetitions {v}"
            it = lib.fast.GetIter(dotted(o), v)
            send(sock.send_get_bulk, what, it)
            p = check(snmp.GETBULK, [o], v, what)
            agent.send(agent.response(p, [snmp.varbind(list(o) + [1], ber.enc_int(p["b"]))]))
            st["boots"], st["time"] = agent.boots, agent.time
            got = recv(lambda it=it: sock.recv_get_bulk(it), what)
            want = [(dotted(o) + ".1", v)]
            if got != want:
                raise Violation(f"{what}: echoed as {got!r}, {want!r} expected")
        small = [o for o in case["oids"] if len(o) <= 40]
        oids = [list(x) for x in {tuple(o): 1 for o in small}]
        if oids:
            what = f"Get of {[dotted(o) for o in oids]}"
            send(sock.send_get_many, what, [dotted(o) for o in oids])
            p = check(snmp.GET, oids, 0, what)
            agent.send(agent.response(p, [snmp.varbind(o, ber.enc_oid(o)) for o in oids]))
            got = recv(sock.recv_get_many, what)
            want = {dotted(o): dotted(o) for o in oids}
            if got != want:
                raise Violation(f"{what}: echoed as {got!r}")
        return [f"v{c['v']}", f"oids:{min(len(oids), 5)}"] + (["negative"] if min(case["ints"]) < 0 else []), True
    finally:
        agent.close()


def wire_explicit(tier):
    out = []
    conf = {"v": 2, "community": "public"}
    base = {"conf": conf, "ids": [], "oids": [[1, 3, 6, 1]], "boots": 0, "time": 0}
    step = 512
    for a in range(-33000, 33000, step):
        out.append({**base, "ints": list(range(a, a + step))})
    edges = sorted({x + d for k in range(7, 64) for x in (1 << k, -(1 << k)) for d in range(-3, 4)} | {(1 << 63) - 1 - d for d in range(5)})
    edges = [x for x in edges if -(1 << 63) <= x < 1 << 63]
    out += [{**base, "ints": edges[i : i + 100]} for i in range(0, len(edges), 100)]
    if tier == "thorough":
        for k in range(1, 9):
            for m in (1 << (8 * k - 1), -(1 << (8 * k - 1)), 1 << (8 * k), -(1 << (8 * k))):
                for a in range(m - 65536, m + 65536, 4096):
                    ints = [x for x in range(a, a + 4096) if -(1 << 63) <= x < 1 << 63]
                    if ints:
                        out.append({**base, "ints": ints})
    for n in range(2, 129):
        for a in (1, 127, 128, (1 << 32) - 1):
            out.append({**base, "ints": [n], "oids": [[1, 3] + [a] * (n - 2)]})
    return out


PARTS = [Part("wire", wire_strategy, run_wire, quick=60000, thorough=1000000, explicit=wire_explicit)]
