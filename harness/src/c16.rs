//! C16: an element is decoded from exactly its declared extent.

use crate::c01::{TAGS, message, tlv};
use crate::decoders;
use crate::decoders::ELEMENTS;
use crate::guard::{self, Arena};
use crate::{Args, Out, Rng, hex, ind, unhex};

/// Offset of the contents and declared length, read independently; None when
/// the header itself is incomplete or its length does not fit.
pub fn header(b: &[u8]) -> Option<(usize, usize)> {
    let mut p = 1;
    if *b.first()? & 0x1f == 0x1f {
        loop {
            let t = *b.get(p)?;
            p += 1;
            if t & 128 == 0 {
                break;
            }
        }
    }
    let n = *b.get(p)?;
    p += 1;
    if n & 128 == 0 {
        return Some((p, n as usize));
    }
    let mut v = 0usize;
    for _ in 0..n & 127 {
        v = v.checked_mul(256)?.checked_add(*b.get(p)? as usize)?;
        p += 1;
    }
    Some((p, v))
}

/// A decoder that panics (a matter of C01) has decoded nothing.
fn element(d: &str, i: &[u8]) -> Option<(usize, String)> {
    crate::safely(|| Ok(decoders::element(d, i))).unwrap_or(None)
}

fn whole(d: &str, i: &[u8]) -> Option<String> {
    crate::safely(|| Ok(decoders::whole(d, i))).unwrap_or(None)
}

/// Element x, followed by s.
fn relation(a: &Arena, x: &[u8], s: &[u8]) -> Result<u32, String> {
    let xs = [x, s].concat();
    let mut n = 0;
    let whole = header(x).and_then(|(h, l)| h.checked_add(l));
    for d in ELEMENTS {
        let alone = element(d, a.at_end(x));
        if whole.is_none_or(|w| w > x.len()) {
            if let Some((_, v)) = alone {
                return Err(format!("{d}: element {} declares more octets than there are, yet is decoded as {v}", hex(x)));
            }
            continue;
        }
        let w = whole.unwrap_or(0);
        // what follows the header is the remaining input for BerHeader
        let keep = if *d == "header" { w - header(x).map(|h| h.0).unwrap_or(0) } else { 0 };
        let got = element(d, a.at_end(&xs));
        match (&alone, &got) {
            (Some((r0, v0)), Some((r1, v1))) => {
                n += 1;
                if v0 != v1 {
                    return Err(format!("{d}: element {} is decoded as {v0}, but followed by {} as {v1}", hex(x), hex(s)));
                }
                if *r0 != x.len() - w + keep || *r1 != xs.len() - w + keep {
                    return Err(format!(
                        "{d}: element {} followed by {}: {r1} octets are left ({r0} without), expected {}",
                        hex(x),
                        hex(s),
                        xs.len() - w + keep
                    ));
                }
            }
            (None, None) => {}
            // an empty constructed element of 2 octets is too short for a
            // PDU whatever follows; nothing is decoded from it
            (None, Some((_, _))) if *d == "option" && x.len() < 3 => {}
            (a, b) => {
                return Err(format!("{d}: element {} alone: {a:?}; followed by {}: {b:?}", hex(x), hex(s)));
            }
        }
    }
    Ok(n)
}

/// Octets after a whole message are rejected.
fn trailing(a: &Arena, m: &[u8], s: &[u8]) -> Result<u32, String> {
    let mut n = 0;
    let ext = header(m).and_then(|(h, l)| h.checked_add(l));
    for d in ["v1", "v2c", "v3"] {
        let alone = whole(d, a.at_end(m));
        if let Some(v) = alone {
            n += 1;
            if ext != Some(m.len()) {
                return Err(format!("{d}: {} is not one element, yet accepted as {v}", hex(m)));
            }
            if whole(d, a.at_end(&[m, s].concat())).is_some() {
                return Err(format!("{d}: message {} is accepted with {} after it", hex(m), hex(s)));
            }
        }
    }
    Ok(n)
}

/// A nested element, as (offset of its header, offset of its end, end of the
/// enclosing element, whether its length is one octet).
fn nodes(b: &[u8], p: usize, end: usize, depth: usize, o: &mut Vec<(usize, usize, usize)>) {
    let mut p = p;
    while p < end {
        let Some((h, l)) = header(&b[p..end]) else { return };
        if h + l > end - p {
            return;
        }
        o.push((p, p + h + l, end));
        let t = b[p];
        // the security parameters are an OCTET STRING holding a SEQUENCE
        if t & 0x20 != 0 || (depth == 1 && t == 4 && l > 2 && b[p + h] == 0x30) {
            nodes(b, p + h, p + h + l, depth + 1, o);
        }
        p += h + l;
    }
}

/// Let one inner element of a well-formed message declare a length beyond its
/// enclosing element; the octets there exist (they belong to others).
fn overrun(a: &Arena, m: &[u8], k: usize, extra: usize) -> Result<bool, String> {
    let mut v = Vec::new();
    nodes(m, 0, m.len(), 0, &mut v);
    if v.len() < 2 {
        return Ok(false);
    }
    let (p, e, end) = v[1 + k % (v.len() - 1)];
    let Some((h, l)) = header(&m[p..]) else { return Ok(false) };
    if h != 2 || e > end {
        return Ok(false);
    }
    let n = end - (p + h) + extra;
    let _ = l;
    if n > 127 {
        return Ok(false);
    }
    let mut x = m.to_vec();
    x[p + 1] = n as u8;
    for d in ["v1", "v2c", "v3"] {
        if whole(d, a.at_end(m)).is_some() {
            if let Some(t) = whole(d, a.at_end(&x)) {
                return Err(format!("{d}: in {} the element at {p} runs past its enclosing element, yet the message is accepted as {t}", hex(&x)));
            }
            return Ok(true);
        }
    }
    Ok(false)
}

/// A well-formed message in which every element is one that is decoded.
pub fn good(r: &mut Rng) -> Vec<u8> {
    let mut vbs = Vec::new();
    let tag = *r.pick(&[0xa0u8, 0xa1, 0xa2, 0xa2, 0xa5]);
    for _ in 0..r.below(4) {
        let n = r.below(4);
        let mut arcs = vec![1, 3];
        for _ in 0..n {
            arcs.push(r.next() as u32 >> r.below(32));
        }
        let v = if tag == 0xa2 {
            let n = r.below(6);
            match r.below(6) {
                0 => ind::int(r.next() as i64 >> r.below(64)),
                1 => ind::tlv(4, &r.bytes(n)),
                2 => ind::tlv(0x40, &r.bytes(4)),
                3 => ind::tlv(0x41, &[1, 2]),
                4 => ind::tlv(9, b"\x031.E0"),
                _ => vec![5, 0],
            }
        } else {
            vec![5, 0]
        };
        vbs.extend(ind::tlv(0x30, &ind::cat(&[&ind::tlv(6, &ind::oid_body(&arcs)), &v])));
    }
    let p = ind::tlv(tag, &ind::cat(&[&ind::int(r.next() as i64 >> 33), &ind::int(0), &ind::int(0), &ind::tlv(0x30, &vbs)]));
    match r.below(3) {
        k @ (0 | 1) => ind::tlv(0x30, &ind::cat(&[&ind::int(k as i64), &ind::tlv(4, b"com"), &p])),
        _ => {
            let u = ind::tlv(0x30, &ind::cat(&[&ind::tlv(4, b"eng"), &ind::int(1), &ind::int(300), &ind::tlv(4, b"u"), &[4, 0], &[4, 0]]));
            let h = ind::tlv(0x30, &ind::cat(&[&ind::int(7), &ind::int(2048), &[4, 1, 0], &ind::int(3)]));
            let s = ind::tlv(0x30, &ind::cat(&[&ind::tlv(4, b"eng"), &[4, 0], &p]));
            ind::tlv(0x30, &ind::cat(&[&ind::int(3), &h, &ind::tlv(4, &u), &s]))
        }
    }
}

const SUFFIX: &[&[u8]] = &[&[0], &[0xff, 0xff, 0xff], b"1234567890", &[5, 0], &[4, 3, 1, 2, 3], b".5E7 ", &[0x80; 12]];

pub fn search(args: &Args, out: &mut Out) {
    let a = Arena::new(16);
    let mut r = Rng::new(args.seed);
    let mut name = String::new();
    // every element with a body of up to two octets, of every type
    for (k, t) in TAGS.iter().enumerate() {
        if k as u64 % args.of != args.shard {
            continue;
        }
        for n in 0..3usize {
            for w in 0..1usize << (8 * n) {
                let body: Vec<u8> = w.to_be_bytes()[8 - n..].to_vec();
                let x = ind::tlv(*t, &body);
                let s = SUFFIX[(w + n) % SUFFIX.len()];
                name = format!("rel:{}:{}", hex(&x), hex(s));
                guard::current(&name);
                match relation(&a, &x, s) {
                    Ok(n) => out.enumerated(n > 0),
                    Err(m) => {
                        out.violation = Some((name, m));
                        return;
                    }
                }
            }
        }
    }
    for n in 0..args.random {
        let (kind, x, s): (_, Vec<u8>, Vec<u8>) = match n % 4 {
            0 | 1 => {
                let x = tlv(&mut r, (n % 4) as usize * 2);
                let s = match r.below(4) {
                    0 => r.pick(SUFFIX).to_vec(),
                    1 => tlv(&mut r, 1),
                    2 => {
                        let n = 1 + r.below(30);
                        let c = *r.pick(b"0159.E+-");
                        vec![c; n]
                    }
                    _ => {
                        let n = 1 + r.below(12);
                        r.bytes(n)
                    }
                };
                ("rel", x, s)
            }
            2 => {
                let x = if r.chance(2) { good(&mut r) } else { message(&mut r) };
                let n = 1 + r.below(5);
                let s = if r.chance(3) { r.bytes(n) } else { r.pick(SUFFIX).to_vec() };
                ("trail", x, s)
            }
            _ => ("over", good(&mut r), vec![r.next() as u8, 1 + r.below(3) as u8]),
        };
        if x.len() + s.len() > 60000 {
            continue;
        }
        name = format!("{kind}:{}:{}", hex(&x), hex(&s));
        guard::current(&name);
        match one(&a, kind, &x, &s) {
            Ok(n) => {
                out.case(|| name.clone(), name.as_bytes(), n);
                out.label(match (kind, n) {
                    ("rel", true) => "element decoded alone and followed",
                    ("rel", false) => "element no typed decoder accepts",
                    ("trail", true) => "message with octets after it",
                    ("trail", false) => "malformed message with octets after it",
                    (_, true) => "inner element past its enclosing one",
                    _ => "not applicable",
                });
            }
            Err(m) => {
                let mut best = (x, s, m);
                loop {
                    let mut c: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
                    for i in 0..best.1.len() {
                        if best.1.len() > 1 && kind != "over" {
                            let mut y = best.1.clone();
                            y.remove(i);
                            c.push((best.0.clone(), y));
                        }
                    }
                    if kind == "rel" {
                        if let Some((h, l)) = header(&best.0) {
                            if h == 2 && l > 0 && l < 128 && h + l == best.0.len() {
                                for i in 2..best.0.len() {
                                    let mut y = best.0.clone();
                                    y.remove(i);
                                    y[1] -= 1;
                                    c.push((y, best.1.clone()));
                                }
                            }
                        }
                    }
                    match c.into_iter().find_map(|(x, s)| one(&a, kind, &x, &s).err().map(|m| (x, s, m))) {
                        Some(b) => best = b,
                        None => break,
                    }
                }
                out.violation = Some((format!("{kind}:{}:{}", hex(&best.0), hex(&best.1)), best.2));
                return;
            }
        }
    }
    let _ = name;
}

/// What is checked of an input, and what follows it, when it is fuzzed.
fn drawn(b: &[u8], draw: u64) -> (&'static str, Vec<u8>) {
    let mut r = Rng::new(draw);
    let s = match r.below(3) {
        0 => r.pick(SUFFIX).to_vec(),
        1 => tlv(&mut r, 1),
        _ => {
            let n = 1 + r.below(12);
            r.bytes(n)
        }
    };
    (if b.len() > 20 && r.chance(2) { "trail" } else { "rel" }, s)
}

/// Coverage-guided.
pub fn fuzz(args: &Args, out: &mut Out) {
    let a = Arena::new(16);
    let name = |b: &[u8], draw: u64| {
        let (kind, s) = drawn(b, draw);
        format!("{kind}:{}:{}", hex(b), hex(&s))
    };
    crate::fuzz::search(args, out, name, &mut |b, draw| {
        let (kind, s) = drawn(b, draw);
        one(&a, kind, b, &s)
    });
}

fn one(a: &Arena, kind: &str, x: &[u8], s: &[u8]) -> Result<bool, String> {
    match kind {
        "rel" => relation(a, x, s).map(|n| n > 1),
        "trail" => trailing(a, x, s).map(|n| n > 0),
        _ => overrun(a, x, s[0] as usize, s[1] as usize),
    }
}

pub fn replay(c: &str) -> Result<(), String> {
    let f: Vec<&str> = c.split(':').collect();
    guard::current(c);
    one(&Arena::new(16), f[0], &unhex(f[1]), &unhex(f[2])).map(|_| ())
}
