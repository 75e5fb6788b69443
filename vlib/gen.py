"""Generators (functions of a mini.Source) and value models."""

import math
from fractions import Fraction

from . import ber
from .ber import tlv

U32 = (1 << 32) - 1
EDGE_ARCS = [0, 1, 2, 39, 40, 127, 128, 129, 255, 256, 16383, 16384, 16385, (1 << 21) - 1, 1 << 21,
             (1 << 28) - 1, 1 << 28, (1 << 31) - 1, 1 << 31, U32 - 1, U32]


def arc(s):
    k = s.below(4)
    if k == 0:
        return s.int(0, 3)
    if k == 1:
        return s.int(0, 200)
    if k == 2:
        return s.choice(EDGE_ARCS)
    return s.int(0, U32)


def oid(s, min_len=2, max_len=16):
    """Arcs the client must accept and any agent may send."""
    a = s.choice((1, 1, 1, 0, 2))
    b = 3 if s.bool() else s.int(0, 39)
    return [a, b] + s.list(arc, max(0, min_len - 2), max(0, max_len - 2))


def recv_oid(s, max_len=16):
    """Arcs an agent may send: the second arc is free under first arc 2."""
    o = oid(s, 2, max_len)
    if s.chance(6):
        o[0] = 2
        o[1] = min(arc(s), U32 - 80)
    return o


def deep_oid(s):
    """An OID of up to 128 arcs, whose encoding mostly needs long length forms."""
    o = oid(s, 2, 3)
    n = s.choice((128, 128, 127, 64, 40, 30)) if s.bool() else s.int(20, 128)
    k = s.below(4)
    v = (U32, 1 << 28, 128, 1)[k]
    o += [v] * (n - len(o))
    for a in s.list(arc, 0, 6):
        o[s.int(2, n - 1)] = a
    return o


def small_oid(s):
    return oid(s, 3, 8)


PRINT = [chr(c) for c in range(33, 127)]
UNI = PRINT + list("\u00e9\u00fc\u0416\u4e2d\u20ac \U0001f600")


def text(s, a=1, b=12):
    return s.text(PRINT, a, b)


def community(s):
    k = s.below(5)
    if k == 0:
        return "public"
    if k == 1:
        return text(s)
    if k == 2:
        return ""
    if k == 3:
        return s.text(UNI, 0, 20)
    return "c" * s.int(120, 140)


def user(s):
    k = s.below(6)
    if k == 0:
        return "user" if s.below(3) else ""
    if k == 1:
        return text(s)
    if k == 2:
        return s.text(UNI, 1, 16)
    if k == 3:
        return "u" * 32
    if k == 4:
        # looks like other parts of a message
        return patterned(s, 0, 32, 128).decode("latin-1").encode()[:32].decode(errors="ignore") or "u"
    return s.text(UNI, 1, 16)[:8] + "\0" * s.int(1, 20)


PATTERNS = (b"\0" * 12, b"\0" * 12, b"\x04\x0c" + b"\0" * 12, b"\x04\x0c", b"\0" * 8, b"\x04\x08" + b"\0" * 8, b"\x30\x82", b"\xff" * 12,
            b"\x04\0", b"\0", b"\x02\x01\x03", b"\xff", b"\x80")


def patterned(s, a, b, limit=256):
    """Octets made of pieces that also occur elsewhere in messages: zero
    placeholders, BER headers, all-ones."""
    out = b""
    while len(out) < b:
        k = s.below(3)
        if k == 2:
            out += bytes(s.below(limit) for _ in range(s.int(1, 4)))
        else:
            out += bytes(x % limit for x in s.choice(PATTERNS))
        if len(out) >= a and s.chance(3):
            break
    return out[:b]


def engine(s):
    k = s.below(6)
    if k == 0:
        return bytes.fromhex("8000000001020304")
    if k == 1:
        return b"\x80" + b"\0" * 10
    if k == 2:
        return patterned(s, 5, 32)
    if k == 3:
        return s.choice((b"\0", b"\xff", b"\x80")) * s.choice((5, 12, 31, 32))
    return s.bytes(5, 32)


PASSWORDS = [b"maplesyrup", b"authpass12", b"privpass12", b"a" * 8, b"0123456789abcdef", b"x" * 64, b"p" * 65] + [b"password%d" % i for i in range(10)]


def password(s):
    return s.choice(PASSWORDS)


def style(s):
    """Length forms of the agent's messages, see ber.restyle."""
    k = s.below(3)
    if k == 0:
        return [-2]  # as net-snmp does
    if k == 1:
        return [s.int(1, 4)]
    return [s.choice((0, 0, 1, 2, 3, 4, 5, 8, 9, -1, -3)) for _ in range(s.int(2, 5))]


def net(s):
    """Address family and socket options."""
    n = {}
    if s.bool():
        n["v6"] = True
    if s.bool():
        n["tos"] = s.choice((4, 16, 184, 255))
    if s.bool():
        n["sb"] = s.choice((65536, 1 << 18, 1 << 30))
    if s.bool():
        n["rb"] = s.choice((65536, 1 << 18, 1 << 30))
    return n


def conf_v12(s, versions=(1, 2)):
    c = {"v": s.choice(versions), "community": community(s)}
    if c["v"] == 2 and s.chance(3):
        # the defaults: v2c, public
        c["implicit"] = True
    if s.chance(8):
        c["style"] = style(s)
    if s.chance(8):
        c["net"] = net(s)
    return c


def conf_v3(s, levels=("no", "auth", "priv"), engine=engine, types=(0, 1, 2)):
    lvl = s.choice(levels)
    c = {
        "v": 3, "engine_id": engine(s), "user": user(s),
        "aalg": 0, "akt": 0, "akey": b"", "palg": 0, "pkt": 0, "pkey": b"",
    }

    def key(alg, kt):
        if kt == 0:
            return password(s)
        return s.bytes({1: 16, 2: 20}[alg])

    if lvl != "no":
        c["aalg"] = s.choice((1, 2))
        c["akt"] = s.choice(types)
        c["akey"] = key(c["aalg"], c["akt"])
    if lvl == "priv":
        c["palg"] = s.choice((1, 2))
        c["pkt"] = s.choice(types)
        c["pkey"] = key(c["aalg"], c["pkt"])
    if s.chance(8):
        c["style"] = style(s)
    if s.chance(3):
        c["explicit"] = True
    if s.chance(8):
        c["net"] = net(s)
    if s.chance(20):
        # msgMaxSize of the agent
        c["mms"] = s.choice((484, 1472, 2048, 65535, 65536, 1 << 24, (1 << 31) - 1))
    return c


def any_conf(s):
    k = s.below(4)
    if k == 0:
        return conf_v12(s, (2,))
    if k == 1:
        return conf_v12(s)
    if k == 2:
        return conf_v3(s)
    return conf_v3(s, levels=("auth", "priv"))


# ------------------------------------------------------------------ values
def i64(s):
    k = s.below(3)
    if k == 0:
        return s.choice((1, -1)) * s.int(0, 130)
    if k == 1:
        v = (1 << s.int(0, 63)) + s.int(0, 6) - 3
        if s.bool():
            v = -v
    else:
        v = s.below(1 << 64) - (1 << 63)
    return max(-(1 << 63), min((1 << 63) - 1, v))


def unsigned(s, bits):
    k = s.below(3)
    top = (1 << bits) - 1
    if k == 0:
        return s.int(0, 300)
    if k == 1:
        return max(0, min(top, (1 << s.int(0, bits)) + s.int(0, 6) - 3))
    return s.below(top + 1)


def octets(s):
    if s.chance(3):
        n = s.choice((126, 127, 128, 129, 255, 256, 257, 300))
        return bytes(i & 255 for i in range(n))
    return s.bytes(0, 20)


def real(s):
    k = s.choice(("bin", "bin", "bin", "dec", "dec", "special", "zero"))
    if k == "zero":
        return ["real_zero"]
    if k == "special":
        return ["real_special", s.choice((0x40, 0x41, 0x42, 0x43))]
    if k == "bin":
        base = s.choice((2, 2, 8, 16))
        j = s.below(4)
        if j == 0:
            e = s.int(0, 10) - 5
        elif j == 1:
            e = s.int(0, 260) - 130
        elif j == 2:
            e = s.int(0, 2400) - 1200
        else:
            e = s.choice((-1075, -1074, -1023, -1022, -128, 127, 128, -129, 1023, 1024, 32767, -32768, 32768, 8388607, -8388608))
        j = s.below(4)
        if j == 0:
            m = s.int(0, 300)
        elif j == 1:
            m = s.below(1 << 53)
        elif j == 2:
            m = s.below(1 << 64)
        else:
            m = s.choice((1, 255, 256, (1 << 32) - 1, 1 << 32, (1 << 53) - 1, 1 << 53, (1 << 64) - 1, 1 << 64, (1 << 80) + 1))
        return ["real_bin", s.below(2), base, s.below(4), s.below(4), e, m, s.choice((0, 0, 0, 1, 2))]
    nr = s.choice((1, 2, 3))
    sign = s.choice(("", "-", "+"))
    sp = s.choice(("", "", " ", "   "))
    ip = str(s.below(10**6) if s.bool() else s.below(10**19))
    if s.chance(5):
        ip = "00" + ip
    if nr == 1:
        return ["real_dec", 1, sp + sign + ip]
    mark = s.choice((".", ","))
    fp = s.text("0123456789", 1, 12)
    if nr == 2:
        return ["real_dec", 2, sp + sign + ip + mark + fp]
    e = s.int(0, 40) - 20 if s.bool() else s.int(0, 650) - 330
    return ["real_dec", 3, sp + sign + ip + mark + fp + s.choice("Ee") + (s.choice(("", "+")) if e >= 0 else "") + str(e)]


KINDS = ("int", "int", "oct", "c32", "g32", "tt", "u32", "c64", "opaque", "odesc", "ip", "oid", "bool")


def value(s, reals=True):
    if reals and s.chance(5):
        return real(s)
    k = s.choice(KINDS)
    if k == "int":
        return [k, i64(s)]
    if k in ("c32", "g32", "tt", "u32"):
        return [k, unsigned(s, 32)]
    if k == "c64":
        return [k, unsigned(s, 64)]
    if k in ("oct", "opaque", "odesc"):
        return [k, octets(s)]
    if k == "ip":
        return [k, s.bytes(4)]
    if k == "oid":
        return [k, recv_oid(s)]
    return [k, s.choice((0, 1, 2, 127, 128, 255))]


TAGS = {"int": 0x02, "c32": 0x41, "g32": 0x42, "tt": 0x43, "u32": 0x47, "c64": 0x46, "oct": 0x04, "opaque": 0x44, "odesc": 0x07,
        "ip": 0x40, "oid": 0x06, "bool": 0x01, "null": 0x05, "noobj": 0x80, "noinst": 0x81, "eomv": 0x82}


def value_body(v):
    k = v[0]
    if k in ("int", "c32", "g32", "tt", "u32", "c64"):
        return ber.int_body(v[1])
    if k in ("oct", "opaque", "odesc", "ip"):
        return bytes(v[1])
    if k == "oid":
        return ber.oid_body(v[1])
    if k == "bool":
        return bytes([v[1]])
    if k == "real_zero":
        return b""
    if k == "real_special":
        return bytes([v[1]])
    if k == "real_bin":
        return ber.real_binary(*v[1:])
    if k == "real_dec":
        return bytes([v[1]]) + v[2].encode()
    if k in ("null", "noobj", "noinst", "eomv"):
        return b""
    raise ValueError(v)


def value_tlv(v, form=0):
    return tlv(TAGS.get(v[0], 0x09), value_body(v), form)


def same_value(v, got):
    """Is `got` the Python value the specification gives for value v?
    Returns None, or what is wrong."""
    k = v[0]
    if k in ("int", "c32", "g32", "tt", "u32", "c64"):
        want = v[1]
        ok = type(got) is int and got == want
    elif k in ("oct", "opaque", "odesc"):
        want = bytes(v[1])
        ok = type(got) is bytes and got == want
    elif k == "ip":
        want = ".".join(str(b) for b in v[1])
        ok = type(got) is str and got == want
    elif k == "oid":
        want = ".".join(str(a) for a in v[1])
        ok = type(got) is str and got == want
    elif k == "bool":
        want = v[1] != 0
        ok = type(got) is bool and got == want
    elif k == "real_zero":
        want = 0.0
        ok = type(got) is float and got == 0.0 and math.copysign(1, got) > 0
    elif k == "real_special":
        want = {0x40: math.inf, 0x41: -math.inf, 0x42: math.nan, 0x43: -0.0}[v[1]]
        ok = type(got) is float and (
            (math.isnan(want) and math.isnan(got)) or (want == got and math.copysign(1, want) == math.copysign(1, got))
        )
    elif k in ("real_bin", "real_dec"):
        return _same_real(v, got)
    else:
        raise ValueError(v)
    return None if ok else f"{v[0]} value: expected {want!r}, got {got!r}"


def _same_real(v, got):
    if type(got) is not float:
        return f"REAL handed over as {got!r}"
    if v[0] == "real_bin":
        _, s, base, f, _, e, m, _ = v
        bits = {2: 1, 8: 3, 16: 4}[base] * e + f
        if m == 0:
            return None if got == 0 else f"REAL {v}: expected 0, got {got!r}"
        top = m.bit_length() + bits
        sg = -1.0 if s else 1.0
        if top > 1100:
            return None if got == sg * math.inf else f"REAL {v}: expected overflow, got {got!r}"
        if top < -1200:
            return None if abs(got) <= 5e-324 else f"REAL {v}: expected underflow, got {got!r}"
        x = Fraction(m) * (Fraction(2) ** bits) * (-1 if s else 1)
    else:
        t = v[2].strip(" ").replace(",", ".")
        x = Fraction(t)
    try:
        want = float(x)
    except OverflowError:
        want = math.inf if x > 0 else -math.inf
    if math.isinf(want):
        ok = got == want or abs(got) == 1.7976931348623157e308
        return None if ok else f"REAL {v}: expected {want!r}, got {got!r}"
    if Fraction(want) == x:
        return None if got == want else f"REAL {v}: expected exactly {want!r}, got {got!r}"
    if math.isinf(got) or math.isnan(got) or abs(got - want) > math.ulp(want):
        return f"REAL {v}: expected {want!r}, got {got!r}"
    return None
