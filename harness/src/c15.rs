//! C15: what the library encodes is minimal and decodes back unchanged.

use crate::{Args, Out, Rng, guard, hex, ind, unhex};
use gufo_snmp::ber::*;
use gufo_snmp::buf::Buffer;
use gufo_snmp::snmp::get::SnmpGet;
use gufo_snmp::snmp::getbulk::SnmpGetBulk;
use gufo_snmp::snmp::msg::v3::{MsgData, ScopedPdu, SnmpV3Message, UsmParameters};
use gufo_snmp::snmp::msg::{SnmpPdu, SnmpV1Message, SnmpV2cMessage};

fn encode<T: BerEncoder>(buf: &mut Buffer, v: &T, what: &str) -> Result<Vec<u8>, String> {
    buf.reset();
    v.push_ber(buf).map_err(|e| format!("{what}: encoding fails: {e:?}"))?;
    Ok(buf.data().to_vec())
}

fn same(what: &str, want: &[u8], got: &[u8]) -> Result<(), String> {
    if want != got {
        return Err(format!("{what}: encoded as {}, the minimal encoding is {}", hex(got), hex(want)));
    }
    Ok(())
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, want: T, got: T) -> Result<(), String> {
    if want != got {
        return Err(format!("{what}: {want:?} comes back as {got:?}"));
    }
    Ok(())
}

fn int(buf: &mut Buffer, v: i64) -> Result<(), String> {
    crate::safely(|| int_(buf, v))
}

fn int_(buf: &mut Buffer, v: i64) -> Result<(), String> {
    buf.reset();
    SnmpInt::from(v).push_ber(buf).map_err(|e| format!("INTEGER {v}: encoding fails: {e:?}"))?;
    let b = buf.data();
    let mut w = [0u8; 16];
    let n = int_min(v, &mut w);
    if b != &w[..n] {
        same(&format!("INTEGER {v}"), &w[..n], b)?;
    }
    match SnmpInt::from_ber(b) {
        Ok((t, x)) => {
            if !t.is_empty() {
                return Err(format!("INTEGER {v}: octets left over"));
            }
            let x = i64::from(x);
            if x != v {
                eq("INTEGER", v, x)?;
            }
            Ok(())
        }
        Err(e) => Err(format!("INTEGER {v}: its encoding is not decoded: {e:?}")),
    }
}

fn int_min(v: i64, w: &mut [u8; 16]) -> usize {
    let b = v.to_be_bytes();
    let mut i = 0;
    while i < 7 && ((b[i] == 0 && b[i + 1] < 128) || (b[i] == 255 && b[i + 1] >= 128)) {
        i += 1;
    }
    w[0] = 2;
    w[1] = (8 - i) as u8;
    w[2..10 - i].copy_from_slice(&b[i..]);
    10 - i
}

fn oid(buf: &mut Buffer, a: &[u32]) -> Result<(), String> {
    crate::safely(|| oid_(buf, a))
}

fn oid_(buf: &mut Buffer, a: &[u32]) -> Result<(), String> {
    let t = ind::dotted(a);
    let o = SnmpOid::try_from(t.as_str()).map_err(|e| format!("OID {t} is refused: {e:?}"))?;
    let b = encode(buf, &o, &t)?;
    same(&t, &ind::tlv(6, &ind::oid_body(a)), &b)?;
    let (rest, x) = SnmpOid::from_ber(&b).map_err(|e| format!("OID {t}: its encoding is not decoded: {e:?}"))?;
    if !rest.is_empty() {
        return Err(format!("OID {t}: octets left over"));
    }
    if x != o {
        return Err(format!("OID {t}: decoded as another value"));
    }
    let p = String::try_from(&x).map_err(|e| format!("OID {t}: not printable: {e:?}"))?;
    eq("OID text", t, p)
}

#[derive(Clone)]
struct Msg {
    ver: u8,
    pdu: u8,
    id: i64,
    a: i64,
    b: i64,
    oids: Vec<Vec<u32>>,
    community: Vec<u8>,
    msg_id: i64,
    flags: u8,
    engine: Vec<u8>,
    ctx: Vec<u8>,
    boots: i64,
    time: i64,
    user: Vec<u8>,
    auth: Vec<u8>,
    privp: Vec<u8>,
    cipher: Option<Vec<u8>>,
}

fn soid(a: &[u32]) -> Result<SnmpOid<'static>, String> {
    SnmpOid::try_from(ind::dotted(a).as_str()).map_err(|e| format!("OID {} is refused: {e:?}", ind::dotted(a)))
}

fn mk_pdu<'a>(m: &Msg, body: &'a [u8]) -> Result<SnmpPdu<'a>, String> {
    let vars = || m.oids.iter().map(|a| soid(a)).collect::<Result<Vec<_>, _>>();
    Ok(match m.pdu {
        0 => SnmpPdu::GetRequest(SnmpGet { request_id: m.id, vars: vars()? }),
        1 => SnmpPdu::GetNextRequest(SnmpGet { request_id: m.id, vars: vars()? }),
        // The fields of GetBulk are the library's own; read them from a body
        // encoded independently
        _ => SnmpPdu::GetBulkRequest(
            SnmpGetBulk::try_from(body).map_err(|e| format!("GetBulk body {} is not decoded: {e:?}", hex(body)))?,
        ),
    })
}

fn check_pdu(buf: &mut Buffer, m: &Msg, p: &SnmpPdu, body: &[u8]) -> Result<(), String> {
    match (m.pdu, p) {
        (0, SnmpPdu::GetRequest(g)) | (1, SnmpPdu::GetNextRequest(g)) => {
            eq("request-id", m.id, g.request_id)?;
            let want: Vec<String> = m.oids.iter().map(|a| ind::dotted(a)).collect();
            let got: Result<Vec<String>, _> = g.vars.iter().map(String::try_from).collect();
            eq("OIDs", want, got.map_err(|e| format!("OID not printable: {e:?}"))?)
        }
        (5, SnmpPdu::GetBulkRequest(g)) => same("GetBulk decoded and encoded", body, &encode(buf, g, "GetBulk")?),
        _ => Err("decoded as another PDU type".into()),
    }
}

fn message(buf: &mut Buffer, m: &Msg) -> Result<usize, String> {
    crate::safely(|| message_(buf, m))
}

fn message_(buf: &mut Buffer, m: &Msg) -> Result<usize, String> {
    let (a, b) = if m.pdu == 5 { (m.a, m.b) } else { (0, 0) };
    let body = ind::pdu_body(m.id, a, b, &m.oids);
    let pdu_ber = ind::tlv(0xa0 | m.pdu, &body);
    let pdu = mk_pdu(m, &body)?;
    if m.ver != 3 {
        let want = ind::tlv(0x30, &ind::cat(&[&ind::int(m.ver as i64 - 1), &ind::tlv(4, &m.community), &pdu_ber]));
        if want.len() > 4000 {
            return Ok(0);
        }
        let what = format!("v{} message", m.ver);
        let (got, com, p2);
        if m.ver == 1 {
            got = encode(buf, &SnmpV1Message { community: &m.community, pdu }, &what)?;
            same(&what, &want, &got)?;
            let x = SnmpV1Message::try_from(&got[..]).map_err(|e| format!("{what} {}: not decoded: {e:?}", hex(&got)))?;
            com = x.community.to_vec();
            p2 = x.pdu;
        } else {
            got = encode(buf, &SnmpV2cMessage { community: &m.community, pdu }, &what)?;
            same(&what, &want, &got)?;
            let x = SnmpV2cMessage::try_from(&got[..]).map_err(|e| format!("{what} {}: not decoded: {e:?}", hex(&got)))?;
            com = x.community.to_vec();
            p2 = x.pdu;
        }
        eq("community", m.community.clone(), com)?;
        check_pdu(buf, m, &p2, &body)?;
        return Ok(want.len());
    }
    let scoped_ber = ind::tlv(0x30, &ind::cat(&[&ind::tlv(4, &m.ctx), &[4, 0], &pdu_ber]));
    let usm_ber = ind::tlv(
        0x30,
        &ind::cat(&[
            &ind::tlv(4, &m.engine),
            &ind::int(m.boots),
            &ind::int(m.time),
            &ind::tlv(4, &m.user),
            &ind::tlv(4, &m.auth),
            &ind::tlv(4, &m.privp),
        ]),
    );
    let data_ber = match &m.cipher {
        Some(c) => ind::tlv(4, c),
        None => scoped_ber,
    };
    let tail = ind::cat(&[&ind::tlv(4, &usm_ber), &data_ber]);
    if tail.len() > 3900 {
        return Ok(0);
    }
    let usm = || UsmParameters {
        engine_id: &m.engine,
        engine_boots: m.boots,
        engine_time: m.time,
        user_name: &m.user,
        auth_params: &m.auth,
        privacy_params: &m.privp,
    };
    same("USM parameters", &usm_ber, &encode(buf, &usm(), "USM parameters")?)?;
    let x = SnmpV3Message {
        msg_id: m.msg_id,
        flag_auth: m.flags & 1 != 0,
        flag_priv: m.flags & 2 != 0,
        flag_report: m.flags & 4 != 0,
        usm: usm(),
        data: match &m.cipher {
            Some(c) => MsgData::Encrypted(c),
            None => MsgData::Plaintext(ScopedPdu { engine_id: &m.ctx, pdu }),
        },
    };
    let got = encode(buf, &x, "v3 message")?;
    // msgMaxSize is the library's choice: read it from the message
    let ms = max_size(&got).ok_or_else(|| format!("v3 message {}: no msgMaxSize found", hex(&got)))?;
    let head = ind::tlv(0x30, &ind::cat(&[&ind::int(m.msg_id), &ind::int(ms), &[4, 1, m.flags], &ind::int(3)]));
    same("v3 message", &ind::tlv(0x30, &ind::cat(&[&ind::int(3), &head, &tail])), &got)?;
    let y = SnmpV3Message::try_from(&got[..]).map_err(|e| format!("v3 message {}: not decoded: {e:?}", hex(&got)))?;
    eq("msgID", m.msg_id, y.msg_id)?;
    eq("msgFlags", (m.flags & 1 != 0, m.flags & 2 != 0, m.flags & 4 != 0), (y.flag_auth, y.flag_priv, y.flag_report))?;
    eq("engine id", &m.engine[..], y.usm.engine_id)?;
    eq("boots", m.boots, y.usm.engine_boots)?;
    eq("time", m.time, y.usm.engine_time)?;
    eq("user", &m.user[..], y.usm.user_name)?;
    eq("auth parameters", &m.auth[..], y.usm.auth_params)?;
    eq("privacy parameters", &m.privp[..], y.usm.privacy_params)?;
    match (&m.cipher, &y.data) {
        (Some(c), MsgData::Encrypted(d)) => eq("msgData", &c[..], *d)?,
        (None, MsgData::Plaintext(s)) => {
            eq("contextEngineID", &m.ctx[..], s.engine_id)?;
            check_pdu(buf, m, &s.pdu, &body)?;
        }
        _ => return Err("msgData decoded as the other kind".into()),
    }
    Ok(got.len())
}

fn skip_head(b: &[u8]) -> Option<(usize, usize)> {
    let n = *b.get(1)? as usize;
    if n < 128 {
        return Some((2, n));
    }
    let k = n & 127;
    let mut v = 0;
    for i in 0..k {
        v = v * 256 + *b.get(2 + i)? as usize;
    }
    Some((2 + k, v))
}

fn max_size(b: &[u8]) -> Option<i64> {
    let (h, _) = skip_head(b)?;
    let b = &b[h..];
    let (h, n) = skip_head(b)?;
    let b = b.get(h + n..)?; // after the version
    let (h, _) = skip_head(b)?;
    let b = &b[h..];
    let (h, n) = skip_head(b)?;
    let b = b.get(h + n..)?; // after msgID
    let (h, n) = skip_head(b)?;
    let c = b.get(h..h + n)?;
    if c.is_empty() || n > 8 {
        return None;
    }
    Some(c.iter().fold(if c[0] & 128 != 0 { -1 } else { 0 }, |a: i64, x| (a << 8) | *x as i64))
}

// ---------------------------------------------------------------- generation
fn g_i64(r: &mut Rng) -> i64 {
    match r.below(4) {
        0 => r.below(300) as i64 - 150,
        1 => (1i64 << r.below(63)).wrapping_add(r.below(7) as i64 - 3),
        2 => (1i64 << r.below(63)).wrapping_add(r.below(7) as i64 - 3).wrapping_neg(),
        _ => r.next() as i64 >> r.below(64),
    }
}

const EDGES: &[u32] = &[
    0, 1, 39, 40, 127, 128, 129, 16383, 16384, 16385, 2097151, 2097152, 268435455, 268435456, 268435457, 2147483647, 2147483648, 4294967294, 4294967295,
];

fn g_arc(r: &mut Rng) -> u32 {
    match r.below(3) {
        0 => r.below(130) as u32,
        1 => *r.pick(EDGES),
        _ => (r.next() as u32) >> r.below(32),
    }
}

fn g_oid(r: &mut Rng) -> Vec<u32> {
    let mut a = vec![r.below(3) as u32, r.below(40) as u32];
    let n = if r.chance(10) { r.below(60) } else { r.below(14) };
    for _ in 0..n {
        a.push(g_arc(r));
    }
    a
}

fn g_bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(5) {
        0 => 0,
        1 => *r.pick(&[1, 8, 12, 126, 127, 128, 129, 254, 255, 256, 257, 300]),
        _ => r.below(40),
    };
    r.bytes(n)
}

fn g_msg(r: &mut Rng) -> Msg {
    let n = match r.below(6) {
        0 => 0,
        1 => r.below(60),
        _ => 1 + r.below(4),
    };
    Msg {
        ver: 1 + r.below(3) as u8,
        pdu: *r.pick(&[0, 1, 5]),
        id: g_i64(r),
        a: g_i64(r),
        b: g_i64(r),
        oids: (0..n).map(|_| g_oid(r)).collect(),
        community: g_bytes(r),
        msg_id: g_i64(r),
        flags: r.below(8) as u8,
        engine: g_bytes(r),
        ctx: g_bytes(r),
        boots: g_i64(r),
        time: g_i64(r),
        user: g_bytes(r),
        auth: if r.chance(2) { r.bytes(12) } else { g_bytes(r) },
        privp: if r.chance(2) { r.bytes(8) } else { g_bytes(r) },
        cipher: if r.chance(3) { Some(g_bytes(r)) } else { None },
    }
}

/// A message is named by the seed it is generated from and by how many of
/// its OIDs are kept.
fn shrink(buf: &mut Buffer, m: Msg, msg: String) -> (Msg, String) {
    let (mut m, mut msg) = (m, msg);
    loop {
        let mut cands = Vec::new();
        for i in 0..m.oids.len() {
            let mut c = m.clone();
            c.oids.remove(i);
            cands.push(c);
        }
        macro_rules! simpler {
            ($f:ident, $v:expr) => {
                if m.$f != $v {
                    let mut c = m.clone();
                    c.$f = $v;
                    cands.push(c);
                }
            };
        }
        simpler!(id, 0);
        simpler!(a, 0);
        simpler!(b, 0);
        simpler!(community, Vec::<u8>::new());
        simpler!(msg_id, 0);
        simpler!(flags, 0);
        simpler!(engine, Vec::<u8>::new());
        simpler!(ctx, Vec::<u8>::new());
        simpler!(boots, 0);
        simpler!(time, 0);
        simpler!(user, Vec::<u8>::new());
        simpler!(auth, Vec::<u8>::new());
        simpler!(privp, Vec::<u8>::new());
        simpler!(cipher, None::<Vec<u8>>);
        for i in 0..m.oids.len() {
            if m.oids[i].len() > 2 {
                let mut c = m.clone();
                c.oids[i].pop();
                cands.push(c);
            }
        }
        match cands.into_iter().find_map(|c| message(buf, &c).err().map(|e| (c, e))) {
            Some((c, e)) => {
                m = c;
                msg = e;
            }
            None => return (m, msg),
        }
    }
}

fn show(m: &Msg) -> String {
    let o: Vec<String> = m.oids.iter().map(|a| ind::dotted(a)).collect();
    format!(
        "msg:{}:{}:{}:{}:{}:{}:{}:{}:{}:{}:{}:{}:{}:{}:{}:{}:{}",
        m.ver,
        m.pdu,
        m.id,
        m.a,
        m.b,
        o.join(","),
        hex(&m.community),
        m.msg_id,
        m.flags,
        hex(&m.engine),
        hex(&m.ctx),
        m.boots,
        m.time,
        hex(&m.user),
        hex(&m.auth),
        hex(&m.privp),
        m.cipher.as_ref().map(|c| hex(c)).unwrap_or("-".into())
    )
}

fn parse_arcs(s: &str) -> Vec<u32> {
    s.split('.').map(|x| x.parse().unwrap()).collect()
}

pub fn replay(c: &str) -> Result<(), String> {
    let mut buf = Buffer::default();
    guard::current(c);
    let f: Vec<&str> = c.split(':').collect();
    match f[0] {
        "int" => int(&mut buf, f[1].parse().unwrap()),
        "oid" => oid(&mut buf, &parse_arcs(f[1])),
        _ => {
            let m = Msg {
                ver: f[1].parse().unwrap(),
                pdu: f[2].parse().unwrap(),
                id: f[3].parse().unwrap(),
                a: f[4].parse().unwrap(),
                b: f[5].parse().unwrap(),
                oids: if f[6].is_empty() { vec![] } else { f[6].split(',').map(parse_arcs).collect() },
                community: unhex(f[7]),
                msg_id: f[8].parse().unwrap(),
                flags: f[9].parse().unwrap(),
                engine: unhex(f[10]),
                ctx: unhex(f[11]),
                boots: f[12].parse().unwrap(),
                time: f[13].parse().unwrap(),
                user: unhex(f[14]),
                auth: unhex(f[15]),
                privp: unhex(f[16]),
                cipher: if f[17] == "-" { None } else { Some(unhex(f[17])) },
            };
            message(&mut buf, &m).map(|_| ())
        }
    }
}

pub fn search(args: &Args, out: &mut Out) {
    let mut buf = Buffer::default();
    let mut name;
    macro_rules! tryint {
        ($v:expr) => {
            let v = $v;
            out.enumerated(!(0..128).contains(&v));
            name = format!("int:{v}");
            guard::current(&name);
            if let Err(m) = int(&mut buf, v) {
                out.violation = Some((format!("int:{v}"), m));
                return;
            }
        };
    }
    // all integers near 0 and near every power of two and octet pattern
    let w = (args.random as i64 * 4).clamp(1 << 18, 1 << 26);
    let (i, n) = (args.shard as i64, args.of as i64);
    let mut v = -w + i;
    while v < w {
        tryint!(v);
        v += n;
    }
    for k in 17..64 {
        for s in [1i64, -1] {
            for d in -2000..2000i64 {
                if d.rem_euclid(n) != i {
                    continue;
                }
                let p = (1i64 << k).wrapping_mul(s);
                tryint!(p.wrapping_add(d));
                // values whose octets from some position on are 00 or ff
                tryint!(p.wrapping_add(d << 8));
            }
        }
    }
    let mut r = Rng::new(args.seed);
    for _ in 0..args.random * 4 {
        let v = g_i64(&mut r);
        name = format!("int:{v}");
        guard::current(&name);
        out.case(|| format!("int:{v}"), &v.to_be_bytes(), !(0..128).contains(&v));
        if let Err(m) = int(&mut buf, v) {
            out.violation = Some((format!("int:{v}"), m));
            return;
        }
    }
    // every first pair, every arc at its edges and length
    let mut oids: Vec<Vec<u32>> = Vec::new();
    for a in 0..3 {
        for b in 0..40 {
            oids.push(vec![a, b]);
            for e in EDGES {
                oids.push(vec![a, b, *e]);
                oids.push(vec![a, b, *e, 7]);
            }
        }
    }
    for k in 0..32 {
        for d in -2i64..3 {
            oids.push(vec![1, 3, 6, ((1i64 << k) + d).clamp(0, u32::MAX as i64) as u32, 5]);
        }
    }
    if args.shard != 0 {
        oids.clear();
    }
    for _ in 0..args.random {
        guard::tick();
        oids.push(g_oid(&mut r));
        let a = &oids[oids.len() - 1];
        out.case(|| format!("oid:{}", ind::dotted(a)), ind::dotted(a).as_bytes(), a.iter().any(|x| *x > 127) || a.len() > 9);
    }
    for a in &oids {
        name = format!("oid:{}", ind::dotted(a));
        guard::current(&name);
        if let Err(m) = oid(&mut buf, a) {
            // shrink: drop arcs, simplify arcs
            let mut best = (a.clone(), m);
            loop {
                let mut c: Vec<Vec<u32>> = Vec::new();
                for i in 2..best.0.len() {
                    let mut x = best.0.clone();
                    x.remove(i);
                    c.push(x);
                }
                for i in 0..best.0.len() {
                    for y in [0, best.0[i] / 2, best.0[i].saturating_sub(1)] {
                        if y < best.0[i] {
                            let mut x = best.0.clone();
                            x[i] = y;
                            c.push(x);
                        }
                    }
                }
                match c.into_iter().find_map(|x| oid(&mut buf, &x).err().map(|e| (x, e))) {
                    Some(x) => best = x,
                    None => break,
                }
            }
            out.violation = Some((format!("oid:{}", ind::dotted(&best.0)), best.1));
            return;
        }
    }
    for _ in 0..args.random {
        let m = g_msg(&mut r);
        name = show(&m);
        guard::current(&name);
        match message(&mut buf, &m) {
            Ok(n) => {
                let s = show(&m);
                out.case(|| s.clone(), s.as_bytes(), n > 0);
                out.label(&format!("v{} pdu {}", m.ver, m.pdu));
                if n >= 128 {
                    out.label("message of 128 octets or more");
                }
                if n >= 256 {
                    out.label("message of 256 octets or more");
                }
            }
            Err(e) => {
                let (m, e) = shrink(&mut buf, m, e);
                out.violation = Some((show(&m), e));
                return;
            }
        }
    }
}
