"""An independent BER codec (X.690), written for the checks.

Encoding: minimal definite form unless a length form is asked for.
Decoding: strict (minimal, definite) or plain TLV splitting.
"""

from fractions import Fraction


class BerError(Exception):
    pass


# --------------------------------------------------------------- encoding
def enc_len(n, form=0):
    """form 0: minimal; k>0: long form with k length octets."""
    if form == 0:
        if n < 128:
            return bytes([n])
        b = n.to_bytes((n.bit_length() + 7) // 8, "big")
        return bytes([0x80 | len(b)]) + b
    need = max(1, (n.bit_length() + 7) // 8)
    k = max(form, need)
    return bytes([0x80 | k]) + n.to_bytes(k, "big")


def tlv(tag, body, form=0):
    return bytes([tag]) + enc_len(len(body), form) + body


def int_body(v):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)):
        n += 1
    return v.to_bytes(n, "big", signed=True)


def uint_body(v):
    """Unsigned value as X.690 wants it: leading zero when the high bit is set."""
    return int_body(v)


def enc_int(v, form=0):
    return tlv(0x02, int_body(v), form)


def base128(a):
    out = [a & 0x7F]
    a >>= 7
    while a:
        out.append(0x80 | (a & 0x7F))
        a >>= 7
    return bytes(reversed(out))


def oid_body(arcs):
    """X.690 8.19."""
    if len(arcs) < 2 or arcs[0] > 2 or (arcs[0] < 2 and arcs[1] > 39):
        raise BerError(f"not an OID: {arcs}")
    return base128(arcs[0] * 40 + arcs[1]) + b"".join(base128(a) for a in arcs[2:])


def enc_oid(arcs, form=0):
    return tlv(0x06, oid_body(arcs), form)


def seq(*items, form=0, tag=0x30):
    return tlv(tag, b"".join(items), form)


def octets(b, form=0):
    return tlv(0x04, b, form)


NULL = b"\x05\x00"


def restyle(data, style):
    """The same elements with other length forms: `style` gives the forms of
    the elements in turn; a negative one applies to constructed ones only."""
    out, _ = _restyle(data, style, 0)
    return out


def _restyle(data, style, i):
    out = b""
    pos = 0
    while pos < len(data):
        tag, a, b = header(data, pos, False)
        f = style[i % len(style)]
        i += 1
        body = data[a:b]
        if tag & 0x20:
            body, i = _restyle(body, style, i)
            f = abs(f)
        out += tlv(tag, body, max(f, 0))
        pos = b
    return out, i


# --------------------------------------------------------------- decoding
def header(data, pos, strict=True):
    """Return (tag octet, content start, content end)."""
    if pos + 2 > len(data):
        raise BerError("short header")
    tag = data[pos]
    if tag & 0x1F == 0x1F:
        raise BerError("multi-octet tag")
    ln = data[pos + 1]
    p = pos + 2
    if ln == 0x80:
        raise BerError("indefinite length")
    if ln & 0x80:
        k = ln & 0x7F
        if p + k > len(data):
            raise BerError("short length")
        n = int.from_bytes(data[p : p + k], "big")
        if strict and (n < 128 or data[p] == 0):
            raise BerError("length not minimal")
        p += k
    else:
        n = ln
    if p + n > len(data):
        raise BerError("content runs past the end")
    return tag, p, p + n


def take(data, pos, end, tag, strict=True):
    """Expect `tag` at pos; return (content start, content end)."""
    t, a, b = header(data, pos, strict)
    if t != tag:
        raise BerError(f"tag {t:#x} where {tag:#x} was expected")
    if b > end:
        raise BerError("element runs past its parent")
    return a, b


def dec_int_body(b, strict=True):
    if not b:
        raise BerError("empty INTEGER")
    if strict and len(b) > 1:
        if (b[0] == 0 and b[1] < 0x80) or (b[0] == 0xFF and b[1] >= 0x80):
            raise BerError("INTEGER not minimal")
    return int.from_bytes(b, "big", signed=True)


def dec_oid_body(b):
    if not b:
        raise BerError("empty OID")
    subs = []
    cur = 0
    start = True
    for c in b:
        if start and c == 0x80:
            raise BerError("subidentifier not minimal")
        start = False
        cur = (cur << 7) | (c & 0x7F)
        if not c & 0x80:
            subs.append(cur)
            cur = 0
            start = True
    if not start:
        raise BerError("truncated subidentifier")
    f = subs[0]
    x = min(f // 40, 2)
    return (x, f - 40 * x, *subs[1:])


class Reader:
    """Sequential strict reader over data[pos:end]."""

    def __init__(self, data, pos=0, end=None, strict=True):
        self.d = data
        self.p = pos
        self.e = len(data) if end is None else end
        self.strict = strict

    def peek(self):
        if self.p >= self.e:
            raise BerError("nothing left")
        return self.d[self.p]

    def element(self, tag):
        a, b = take(self.d, self.p, self.e, tag, self.strict)
        self.p = b
        return a, b

    def body(self, tag):
        a, b = self.element(tag)
        return self.d[a:b]

    def sub(self, tag):
        a, b = self.element(tag)
        return Reader(self.d, a, b, self.strict)

    def int(self):
        return dec_int_body(self.body(0x02), self.strict)

    def octets(self):
        return self.body(0x04)

    def oid(self):
        return dec_oid_body(self.body(0x06))

    def null(self):
        if self.body(0x05):
            raise BerError("NULL with content")

    def more(self):
        return self.p < self.e

    def done(self):
        if self.p != self.e:
            raise BerError("trailing octets")


# ------------------------------------------------------------------- REAL
def real_denotes(body):
    """The exact number an X.690 8.5 REAL denotes: Fraction, or a special
    float.  Raises BerError when the encoding is not a valid one."""
    if not body:
        return Fraction(0)
    f = body[0]
    if f & 0x80:
        sign = -1 if f & 0x40 else 1
        base = {0: 2, 1: 8, 2: 16}.get((f >> 4) & 3)
        if base is None:
            raise BerError("reserved base")
        scale = (f >> 2) & 3
        el = f & 3
        p = 1
        if el == 3:
            if len(body) < 2:
                raise BerError("no exponent length")
            n = body[1]
            p = 2
            if n == 0:
                raise BerError("empty exponent")
        else:
            n = el + 1
        if len(body) < p + n:
            raise BerError("short exponent")
        e = int.from_bytes(body[p : p + n], "big", signed=True)
        m = int.from_bytes(body[p + n :], "big")
        if len(body) == p + n:
            raise BerError("no mantissa")
        v = Fraction(m) * (1 << scale)
        return sign * v * (Fraction(base) ** e)
    if f & 0x40:
        if len(body) != 1:
            raise BerError("special with content")
        return {0x40: float("inf"), 0x41: float("-inf"), 0x42: float("nan"), 0x43: -0.0}[f]
    raise BerError("decimal form: use the text")


def real_binary(sign, base, scale, exp_len_form, e, m, m_pad=0):
    """Build a binary REAL body. exp_len_form: 0..2 => 1..3 octets, 3 => long."""
    n = 1
    while not -(1 << (8 * n - 1)) <= e < (1 << (8 * n - 1)):
        n += 1
    bb = {2: 0, 8: 1, 16: 2}[base]
    first = 0x80 | (0x40 if sign else 0) | (bb << 4) | (scale << 2)
    mb = m.to_bytes(max(1, (m.bit_length() + 7) // 8), "big")
    mb = b"\0" * m_pad + mb
    if exp_len_form == 3:
        return bytes([first | 3, n]) + e.to_bytes(n, "big", signed=True) + mb
    n = max(n, exp_len_form + 1)
    if n > 3:
        return bytes([first | 3, n]) + e.to_bytes(n, "big", signed=True) + mb
    return bytes([first | (n - 1)]) + e.to_bytes(n, "big", signed=True) + mb
