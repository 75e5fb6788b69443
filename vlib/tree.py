"""BER messages as mutable trees, for structure-aware mutation.

node = [tag, body] with body bytes, a list of nodes, or {"enc": node} (the
octets of an encrypted node).  Mutations address nodes in preorder.
"""

from . import ber, crypt, snmp
from .ber import int_body


def I(v):
    return [0x02, int_body(v)]


def O(b):
    return [0x04, bytes(b)]


def pdu_tree(tag, rid, varbinds, err=0, idx=0):
    """varbinds: list of (oid node, value node)."""
    return [tag, [I(rid), I(err), I(idx), [0x30, [[0x30, [o, v]] for o, v in varbinds]]]]


def community_tree(version, community, pdu):
    return [0x30, [I(version), O(community), pdu]]


def v3_tree(msg_id, flags, engine_id, boots, time, user, auth, priv, scoped, encrypted, max_size=65507):
    usm = [0x30, [O(engine_id), I(boots), I(time), O(user), O(auth), O(priv)]]
    return [
        0x30,
        [I(3), [0x30, [I(msg_id), I(max_size), O(bytes([flags])), I(3)]], [0x04, [usm]], [0x04, {"enc": scoped}] if encrypted else scoped],
    ]


def flatten(node, out=None, parent=None):
    if out is None:
        out = []
    out.append((node, parent))
    body = node[1]
    if isinstance(body, list):
        for c in list(body):
            flatten(c, out, node)
    elif isinstance(body, dict):
        flatten(body["enc"], out, node)
    return out


def copy(node):
    body = node[1]
    if isinstance(body, list):
        body = [copy(c) for c in body]
    elif isinstance(body, dict):
        body = {"enc": copy(body["enc"])}
    return [node[0], body, *[dict(x) if isinstance(x, dict) else x for x in node[2:]]]


def encode(node, encrypt):
    """node may carry a third item: a dict of overrides."""
    o = node[2] if len(node) > 2 else {}
    body = node[1]
    if isinstance(body, list):
        b = b"".join(encode(c, encrypt) for c in body)
    elif isinstance(body, dict):
        b = encrypt(encode(body["enc"], encrypt))
    else:
        b = body
    if "xor" in o and b:
        i, x = o["xor"]
        i %= len(b)
        b = b[:i] + bytes([b[i] ^ x]) + b[i + 1 :]
    if "cut" in o:
        b = b[: max(0, len(b) - o["cut"])]
    b += o.get("app", b"")
    ln = o["len"] if "len" in o else ber.enc_len(len(b), o.get("form", 0))
    tag = o.get("tagx") or bytes([node[0]])
    return o.get("pre", b"") + tag + ln + b


BODIES = [b"", b"\x00", b"\xff", b"\x80", b"\x7f" * 8, b"\xff" * 8, b"\x00" + b"\xff" * 8, b"\x80" + b"\x00" * 8, b"\x01" * 9, b"\x00" * 20,
          b"\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x01", b"\x2b\x80", b"\x2b\x06\x8f\xff\xff\xff\x7f", b"\xff" * 12, b"\x03\xff\xff\xff\xff\x01", b"\x83", b"\x80\x01",
          b"\x8b\x04\x7f\xff\xff\xff\x01", b"\x43\x00", b"\x01abc", b"\x02\xff\xfe", b"\x031.5E9999", b"\xb0\x01\x01", b"\x88" + b"\x88" * 30]
TAGS = [0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x09, 0x0D, 0x24, 0x26, 0x29, 0x30, 0x31, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x60, 0x80, 0x81,
        0x82, 0x83, 0xA0, 0xA1, 0xA2, 0xA3, 0xA4, 0xA5, 0xA6, 0xA7, 0xA8, 0xA9, 0x1F, 0x3F, 0x5F, 0x7F, 0xBF, 0xFF, 0x00, 0xC0]
LENS = [b"\x00", b"\x01", b"\x7f", b"\x80", b"\x81", b"\x81\x00", b"\x81\x7f", b"\x81\xff", b"\x82\x00\x01", b"\x82\xff\xff", b"\x83\x00\x00\x02", b"\x84\x7f\xff\xff\xff",
        b"\x84\xff\xff\xff\xff", b"\x88\xff\xff\xff\xff\xff\xff\xff\xff", b"\x88\x00\x00\x00\x00\x00\x00\x00\x03", b"\x88\x7f\xff\xff\xff\xff\xff\xff\xff",
        b"\x89\x01\x00\x00\x00\x00\x00\x00\x00\x01", b"\xff" + b"\x00" * 126 + b"\x05", b"\x8f" + b"\xff" * 15, b"\xfe"]
TAGX = [b"\x1f", b"\x1f\x81", b"\x1f\x04", b"\x3f\x81\x00", b"\x1f\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f", b"\xbf\x22", b"\x5f\x01", b"\x1f\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x02", b"\xff\xff"]


def gen_mutation(s):
    """One mutation of some node; node index is reduced modulo their number."""
    k = s.choice(("body", "rbody", "tag", "len", "del", "dup", "app", "cut", "tagx", "swap", "xor", "form", "pre", "rlen", "prim"))
    m = {"n": s.below(64), "k": k}
    if k == "body":
        m["v"] = s.choice(BODIES)
    elif k == "rbody":
        m["v"] = s.bytes(0, 14)
    elif k == "tag":
        m["v"] = s.choice(TAGS) if s.chance(4) is False else s.below(256)
    elif k == "len":
        m["v"] = s.choice(LENS)
    elif k == "rlen":
        m["v"] = s.below(256)
    elif k in ("app", "pre"):
        m["v"] = s.bytes(1, 6)
    elif k == "cut":
        m["v"] = s.int(1, 12)
    elif k == "tagx":
        m["v"] = s.choice(TAGX)
    elif k == "xor":
        m["v"] = [s.below(64), 1 + s.below(255)]
    elif k == "form":
        m["v"] = s.int(1, 9)
    elif k == "prim":
        m["v"] = s.bytes(0, 3)
    return m


def mutate(root, muts):
    for m in muts:
        nodes = flatten(root)
        node, parent = nodes[m["n"] % len(nodes)]
        k = m["k"]
        if len(node) < 3:
            node.append({})
        o = node[2]
        if k in ("body", "rbody", "prim"):
            node[1] = bytes(m["v"])
        elif k == "tag":
            node[0] = m["v"]
        elif k == "rlen":
            o["len"] = bytes([m["v"]])
        elif k in ("len", "app", "cut", "tagx", "form", "pre"):
            o[k] = m["v"]
        elif k == "xor":
            o["xor"] = m["v"]
        elif parent is not None and isinstance(parent[1], list):
            i = next((i for i, c in enumerate(parent[1]) if c is node), None)
            if i is None:
                continue
            if k == "del":
                del parent[1][i]
            elif k == "dup":
                parent[1].insert(i, copy(node))
            elif k == "swap" and i + 1 < len(parent[1]):
                parent[1][i], parent[1][i + 1] = parent[1][i + 1], parent[1][i]
    return root


def encrypter(conf, keys, boots, time, salt, pad=b""):
    if not conf.get("palg"):
        return lambda b: b
    return lambda b: crypt.priv_encrypt(conf["palg"], keys[1], boots, time, salt, b + pad)


def resign(data, conf, keys):
    """Recompute the MAC if the message still has a 12-octet field for it."""
    if not conf.get("aalg"):
        return data
    try:
        a, b = snmp.find_auth(data)
    except Exception:  # noqa: BLE001
        return data
    if b - a != 12:
        return data
    return snmp.sign(data, conf["aalg"], keys[0])
