"""Independent SNMP message building/parsing and a scripted UDP agent."""

import functools
import select
import socket

from . import ber, crypt
from .ber import BerError, Reader, enc_int, enc_oid, octets, seq, tlv

GET, GETNEXT, RESPONSE, SET, TRAP, GETBULK, INFORM, TRAP2, REPORT = range(0xA0, 0xA9)

T_INT, T_BITS, T_OCT, T_NULL, T_OID = 0x02, 0x03, 0x04, 0x05, 0x06
T_IP, T_C32, T_G32, T_TT, T_OPAQUE, T_C64, T_U32 = 0x40, 0x41, 0x42, 0x43, 0x44, 0x46, 0x47
NO_OBJECT, NO_INSTANCE, END_OF_MIB = b"\x80\x00", b"\x81\x00", b"\x82\x00"


class Harness(Exception):
    """The check's own machinery failed (never a violation)."""


# ---------------------------------------------------------------- parsing
def parse_pdu(r, strict=True):
    """Read one request/response-shaped PDU from Reader r."""
    tag = r.peek()
    if tag & 0xE0 != 0xA0:
        raise BerError(f"PDU tag {tag:#x}")
    p = r.sub(tag)
    out = {"pdu": tag, "id": p.int(), "a": p.int(), "b": p.int(), "vars": []}
    vb = p.sub(0x30)
    p.done()
    while vb.more():
        v = vb.sub(0x30)
        oid = v.oid()
        a, b = ber.take(v.d, v.p, v.e, v.peek(), strict)
        out["vars"].append((oid, v.peek(), bytes(v.d[a:b])))
        v.p = b
        v.done()
    return out


def parse(data, strict=True):
    """Parse a whole message; strict: minimal definite X.690 form."""
    top = Reader(data, strict=strict)
    r = top.sub(0x30)
    top.done()
    ver = r.int()
    out = {"version": ver, "raw": bytes(data)}
    if ver in (0, 1):
        out["community"] = r.octets()
        out.update(parse_pdu(r, strict))
        r.done()
        return out
    if ver != 3:
        raise BerError(f"version {ver}")
    g = r.sub(0x30)
    out["msg_id"] = g.int()
    out["max_size"] = g.int()
    fl = g.octets()
    if len(fl) != 1:
        raise BerError("msgFlags size")
    out["flags"] = fl[0]
    out["model"] = g.int()
    g.done()
    a, b = r.element(0x04)
    u0 = Reader(data, a, b, strict)
    u = u0.sub(0x30)
    u0.done()
    a = u.p
    out["engine_id"] = u.octets()
    out["engine_at"] = (a, u.p)
    out["boots"] = u.int()
    out["time"] = u.int()
    a = u.p
    out["user"] = u.octets()
    out["user_at"] = (a, u.p)
    a, b = u.element(0x04)
    out["auth"] = bytes(data[a:b])
    out["auth_at"] = a
    a = u.p
    out["priv"] = u.octets()
    out["priv_at"] = (a, u.p)
    u.done()
    if r.peek() == 0x04:
        out["cipher"] = r.octets()
        out["data_at"] = r.e - len(out["cipher"])
    else:
        out["cipher"] = None
        out["data_at"] = r.p
        out.update(parse_scoped(r, strict))
    r.done()
    return out


def parse_scoped(r, strict=True):
    a0 = r.p
    s = r.sub(0x30)
    out = {"scoped": bytes(r.d[a0 : r.p])}
    out["ctx_engine"] = s.octets()
    out["ctx_name"] = s.octets()
    out.update(parse_pdu(s, strict))
    s.done()
    return out


# --------------------------------------------------------------- building
def varbind(arcs, value, form=0):
    return seq(enc_oid(arcs), value, form=form)


def pdu(tag, rid, vbs, err=0, idx=0):
    return tlv(tag, enc_int(rid) + enc_int(err) + enc_int(idx) + seq(*vbs))


def msg_community(version, community, body):
    return seq(enc_int(version), octets(community), body)


def scoped_pdu(engine_id, ctx_name, body):
    return seq(octets(engine_id), octets(ctx_name), body)


def usm(engine_id, boots, time, user, auth, priv):
    return seq(octets(engine_id), enc_int(boots), enc_int(time), octets(user), octets(auth), octets(priv))


def msg_v3(msg_id, flags, usm_bytes, data, max_size=65507, model=3, version=3):
    return seq(
        enc_int(version),
        seq(enc_int(msg_id), enc_int(max_size), octets(bytes([flags])), enc_int(model)),
        octets(usm_bytes),
        data,
    )


def find_auth(data):
    """Offset and size of msgAuthenticationParameters (lenient lengths)."""
    top = Reader(data, strict=False)
    r = top.sub(0x30)
    r.int()
    r.sub(0x30)
    a, b = r.element(0x04)
    u = Reader(data, a, b, False).sub(0x30)
    u.octets()
    u.int()
    u.int()
    u.octets()
    a, b = u.element(0x04)
    return a, b


def sign(data, alg, key):
    """Fill in the MAC of a message whose auth field holds 12 octets."""
    a, b = find_auth(data)
    zero = data[:a] + b"\0" * (b - a) + data[b:]
    return data[:a] + crypt.mac96(alg, key, zero) + data[b:]


def mac_ok(p, alg, key):
    """Does parsed message p carry the right HMAC-96?"""
    if len(p["auth"]) != 12:
        return False
    a = p["auth_at"]
    raw = p["raw"]
    return p["auth"] == crypt.mac96(alg, key, raw[:a] + b"\0" * 12 + raw[a + 12 :])


# ----------------------------------------------------------- session confs
def conf_keys(conf, engine_id=None):
    """(auth localized key, priv localized key) of a v3 conf."""
    eid = conf["engine_id"] if engine_id is None else engine_id
    a = p = None
    if conf["aalg"]:
        a = crypt.localized_from(conf["aalg"], conf["akt"], conf["akey"], eid)
    if conf["palg"]:
        p = crypt.localized_from(conf["aalg"], conf["pkt"], conf["pkey"], eid)
    return a, p


@functools.cache
def has_v6():
    try:
        with socket.socket(socket.AF_INET6, socket.SOCK_DGRAM) as s:
            s.bind(("::1", 0))
            return True
    except OSError:
        return False


def v6(conf):
    """Does the session speak over IPv6?"""
    return bool(conf.get("net", {}).get("v6")) and has_v6()


def host(conf):
    return "[::1]" if v6(conf) else "127.0.0.1"


def sock_opts(conf):
    """(tos, send buffer, receive buffer)"""
    n = conf.get("net", {})
    return 0 if v6(conf) else n.get("tos", 0), n.get("sb", 0), n.get("rb", 0)


class Agent:
    """The peer of one client session: a UDP socket on loopback plus the
    knowledge of the session's configuration."""

    def __init__(self, conf, boots=0, time=0, engine_id=None):
        self.sock = socket.socket(socket.AF_INET6 if v6(conf) else socket.AF_INET, socket.SOCK_DGRAM)
        self.sock.bind(("::1" if v6(conf) else "127.0.0.1", 0))
        self.sock.settimeout(20.0)
        self.port = self.sock.getsockname()[1]
        self.client = None
        self.conf = conf
        self.boots = boots
        self.time = time
        self.salt = 1
        self._keys = None
        self.engine_id = conf.get("engine_id", b"") if engine_id is None else engine_id

    def close(self):
        self.sock.close()

    @property
    def keys(self):
        if self._keys is None:
            self._keys = conf_keys(self.conf, self.engine_id)
        return self._keys

    # -- I/O
    def recv(self):
        try:
            data, self.client = self.sock.recvfrom(65536)
        except TimeoutError as e:
            raise Harness("no request arrived at the agent") from e
        return data

    def pending(self, wait=0.0):
        return bool(select.select([self.sock], [], [], wait)[0])

    def drain(self):
        n = []
        while self.pending():
            n.append(self.recv())
        return n

    def send(self, data):
        self.sock.sendto(data, self.client)

    # -- messages
    def open(self, req):
        """Decrypt a parsed request in place, if it is encrypted."""
        if req.get("cipher") is not None and "pdu" not in req:
            plain = crypt.priv_decrypt(
                self.conf["palg"], self.keys[1], req["boots"], req["time"], req["priv"], req["cipher"]
            )
            r = Reader(plain)
            req.update(parse_scoped(r))
            req["pad"] = len(plain) - r.p
        return req

    def request(self, strict=True):
        return self.open(parse(self.recv(), strict))

    def reply(self, req, body, **over):
        m = self._reply(req, body, **over)
        if self.conf.get("style") and len(m) > 4000:
            # what fits with minimal lengths has to stay receivable
            conf = self.conf
            self.conf = {**conf, "style": None}
            m = self._reply(req, body, **over)
            self.conf = conf
        return m

    def _reply(self, req, body, **over):
        """A message carrying PDU `body` in answer to `req`, at the security
        level of the session.  `over` overrides single fields."""
        c = self.conf
        if c["v"] in (1, 2):
            com = over.get("community", c["community"].encode())
            return self.styled(msg_community(over.get("version", c["v"] - 1), com, body))
        return self.reply_v3(req, body, **over)

    def styled(self, data):
        """The agent's way of writing lengths (e.g. net-snmp: always two
        octets for sequences)."""
        style = self.conf.get("style")
        try:
            return ber.restyle(data, style) if style else data
        except BerError:
            return data  # crafted octets go out as they are

    def next_salt(self):
        self.salt += 1
        return (0x5A5A000000000000 + self.salt).to_bytes(8, "big")

    def reply_v3(self, req, body, **o):
        c = self.conf
        auth = o.get("auth_on", bool(c["aalg"]) and not o.get("plain"))
        priv = o.get("priv_on", bool(c["palg"]) and not o.get("plain"))
        eid = o.get("engine_id", self.engine_id)
        boots = o.get("boots", self.boots)
        time = o.get("time", self.time)
        user = o.get("user", c["user"].encode())
        scoped = o.get("scoped")
        if scoped is None:
            scoped = scoped_pdu(o.get("ctx_engine", eid), o.get("ctx_name", b""), body)
        scoped = self.styled(scoped)
        salt = b""
        data = scoped
        if priv:
            salt = o.get("salt") if o.get("salt") is not None else self.next_salt()
            data = octets(
                crypt.priv_encrypt(c["palg"], self.keys[1], boots, time, salt, scoped + o.get("pad", b""))
            )
        flags = o.get("flags", (1 if auth else 0) | (2 if priv else 0))
        aparam = o.get("auth_params", b"\0" * 12 if auth else b"")
        u = self.styled(usm(eid, boots, time, user, aparam, o.get("priv_params", salt)))
        m = msg_v3(
            o.get("msg_id", req["msg_id"]),
            flags,
            o.get("usm", u),
            data,
            model=o.get("model", 3),
            version=o.get("version", 3),
            max_size=o.get("max_size", c.get("mms", 65507)),
        )
        m = self.styled(m)
        if auth and "auth_params" not in o:
            m = sign(m, c["aalg"], self.keys[0])
        return m

    def response(self, req, vbs, **over):
        return self.reply(
            req,
            pdu(over.pop("tag", RESPONSE), over.pop("rid", req["id"]), vbs, over.pop("err", 0), over.pop("idx", 0)),
            **over,
        )

    def report(self, req, counter=(1, 3, 6, 1, 6, 3, 15, 1, 1, 4, 0), n=1, rid=None, **over):
        """An unauthenticated plaintext Report, as in discovery."""
        over.setdefault("plain", True)
        return self.reply_v3(
            req,
            pdu(REPORT, req.get("id", 0) if rid is None else rid, [varbind(counter, tlv(T_C32, ber.uint_body(n)))]),
            **over,
        )


# ------------------------------------------------------------ library side
def code(alg, kt):
    return (alg | (kt << 6)) if alg else 0


def make_sock(lib, conf, port, timeout_ns=0, engine_id=None):
    """A raw library socket (non-blocking by default)."""
    addr = f"{host(conf)}:{port}"
    if conf["v"] == 1:
        return lib.fast.SnmpV1ClientSocket(addr, conf["community"], *sock_opts(conf), timeout_ns)
    if conf["v"] == 2:
        return lib.fast.SnmpV2cClientSocket(addr, conf["community"], *sock_opts(conf), timeout_ns)
    return lib.fast.SnmpV3ClientSocket(
        addr,
        conf["engine_id"] if engine_id is None else engine_id,
        conf["user"],
        code(conf["aalg"], conf["akt"]),
        conf["akey"],
        code(conf["palg"], conf["pkt"]),
        conf["pkey"],
        *sock_opts(conf),
        timeout_ns,
    )


def ready(sock, wait=2.0):
    """Wait until a datagram has reached the library's socket."""
    p = select.poll()
    p.register(sock.get_fd(), select.POLLIN)
    return bool(p.poll(int(wait * 1000)))


def session_args(lib, conf, port, kw):
    """What an application passes to either SnmpSession."""
    v = lib.SnmpVersion
    args = {"port": port, **kw}
    for k, x in zip(("tos", "send_buffer", "recv_buffer"), sock_opts(conf)):
        if x:
            args[k] = x
    if conf["v"] in (1, 2):
        if not conf.get("implicit"):
            args["version"] = v.v1 if conf["v"] == 1 else v.v2c
        if not (conf.get("implicit") and conf["community"] == "public"):
            args["community"] = conf["community"]
        return args
    args.setdefault("engine_id", conf["engine_id"])
    args["user"] = make_user(lib, conf)
    if conf.get("explicit"):
        args["version"] = v.v3
    return args


def sync_session(lib, conf, port, **kw):
    return lib.SyncSession(host(conf), **session_args(lib, conf, port, kw))


def async_session(lib, conf, port, **kw):
    return lib.AsyncSession(host(conf), **session_args(lib, conf, port, kw))


def make_user(lib, conf):
    kt = lib.user.KeyType
    a = p = None
    if conf["aalg"]:
        a = {1: lib.user.Md5Key, 2: lib.user.Sha1Key}[conf["aalg"]](conf["akey"], key_type=kt(conf["akt"]))
    if conf["palg"]:
        p = {1: lib.user.DesKey, 2: lib.user.Aes128Key}[conf["palg"]](conf["pkey"], key_type=kt(conf["pkt"]))
    return lib.user.User(conf["user"], auth_key=a, priv_key=p)


def dotted(arcs):
    return ".".join(str(a) for a in arcs)
