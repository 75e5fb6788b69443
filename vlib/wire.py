"""What a request must look like on the wire (C03), against a decoded one."""

from . import crypt, snmp
from .runner import Violation
from .snmp import dotted

I31 = (1 << 31) - 1


def check_request(raw, conf, state, tag, oids, a=0, b=0, keys=None):
    """Strictly decode `raw`; compare with what was asked for.

    state: {'engine_id', 'boots', 'time', 'user'} for v3.
    Returns the parsed message.  BerError (not minimal, not definite, trailing
    octets, ...) is left to the caller, who reports it as a violation."""
    p = snmp.parse(raw, strict=True)

    def bad(what, want, got):
        raise Violation(f"request {raw.hex()}: {what}: expected {want!r}, got {got!r}")

    if p["version"] != {1: 0, 2: 1, 3: 3}[conf["v"]]:
        bad("version", conf["v"], p["version"])
    if conf["v"] != 3:
        if p["community"] != conf["community"].encode():
            bad("community", conf["community"].encode(), p["community"])
    else:
        if p["model"] != 3:
            bad("msgSecurityModel", 3, p["model"])
        if not 0 <= p["msg_id"] <= I31:
            bad("msgID", "0..2^31-1", p["msg_id"])
        if not 484 <= p["max_size"] <= I31:
            bad("msgMaxSize", ">=484", p["max_size"])
        if p["flags"] & ~7:
            bad("msgFlags", "reserved bits clear", p["flags"])
        want = (1 if conf["aalg"] else 0) | (2 if conf["palg"] else 0)
        if p["flags"] & 3 != want:
            bad("msgFlags auth/priv", want, p["flags"] & 3)
        for k, name in (("engine_id", "msgAuthoritativeEngineID"), ("boots", "boots"), ("time", "time")):
            if p[k] != state[k]:
                bad(name, state[k], p[k])
        if p["user"] != state["user"].encode():
            bad("user", state["user"].encode(), p["user"])
        if len(p["auth"]) != (12 if conf["aalg"] else 0):
            bad("msgAuthenticationParameters size", 12 if conf["aalg"] else 0, len(p["auth"]))
        if len(p["priv"]) != (8 if conf["palg"] else 0):
            bad("msgPrivacyParameters size", 8 if conf["palg"] else 0, len(p["priv"]))
        if bool(conf["palg"]) != (p["cipher"] is not None):
            bad("encryption", bool(conf["palg"]), p["cipher"] is not None)
        if conf["palg"]:
            plain = crypt.priv_decrypt(conf["palg"], keys[1], p["boots"], p["time"], p["priv"], p["cipher"])
            r = snmp.Reader(plain)
            p.update(snmp.parse_scoped(r))
            p["pad"] = len(plain) - r.p
            if p["pad"] >= (8 if conf["palg"] == 1 else 16):
                bad("padding", "less than a block", p["pad"])
        if p["ctx_engine"] != state["engine_id"]:
            bad("contextEngineID", state["engine_id"], p["ctx_engine"])
        if p["ctx_name"] != b"":
            bad("contextName", b"", p["ctx_name"])
        if conf["aalg"] and not snmp.mac_ok(p, conf["aalg"], keys[0]):
            bad("MAC", "HMAC-96 under the localized key", p["auth"])
    if p["pdu"] != tag:
        bad("PDU type", hex(tag), hex(p["pdu"]))
    if not 0 <= p["id"] <= I31:
        bad("request-id", "0..2^31-1", p["id"])
    if p["a"] != a:
        bad("error-status/non-repeaters", a, p["a"])
    if p["b"] != b:
        bad("error-index/max-repetitions", b, p["b"])
    if [list(o) for o, _, _ in p["vars"]] != [list(o) for o in oids]:
        bad("OIDs", [dotted(o) for o in oids], [dotted(o) for o, _, _ in p["vars"]])
    for o, t, body in p["vars"]:
        if t != 0x05 or body:
            bad(f"value bound to {dotted(o)}", "NULL", (t, body))
    return p
