//! C01: no octet string makes a decoder panic or read outside of it.

use crate::decoders::*;
use crate::guard::{self, Arena};
use crate::{Args, Out, Rng, hex, ind, unhex};
use std::panic::{AssertUnwindSafe, catch_unwind};

/// Run every decoder over the octets, at both edges of accessible memory.
fn all(a: &Arena, b: &[u8]) -> Result<u32, String> {
    let mut ok = 0;
    for edge in [true, false] {
        let i = if edge { a.at_end(b) } else { a.at_start(b) };
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut n = 0;
            for d in ELEMENTS {
                n += element(d, i).is_some() as u32;
            }
            for d in WHOLES {
                n += whole(d, i).is_some() as u32;
            }
            n
        }));
        match r {
            Ok(n) => ok = n,
            Err(_) => {
                // which one?
                for d in ELEMENTS {
                    if catch_unwind(AssertUnwindSafe(|| element(d, i))).is_err() {
                        return Err(format!("decoder {d} panics on {}", hex(b)));
                    }
                }
                for d in WHOLES {
                    if catch_unwind(AssertUnwindSafe(|| whole(d, i))).is_err() {
                        return Err(format!("decoder {d} panics on {}", hex(b)));
                    }
                }
                return Err(format!("a decoder panics on {}", hex(b)));
            }
        }
        if b.len() > 64 {
            break;
        }
    }
    Ok(ok)
}

pub const TAGS: &[u8] = &[
    0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x09, 0x0a, 0x0d, 0x30, 0x31, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x80, 0x81, 0x82, 0xa0, 0xa1,
    0xa2, 0xa3, 0xa5, 0xa7, 0xa8, 0x1f, 0x3f, 0xbf, 0xff,
];

/// A random element, nested, mostly well-formed.
pub fn tlv(r: &mut Rng, depth: usize) -> Vec<u8> {
    let tag = *r.pick(TAGS);
    let mut o = vec![tag];
    if tag & 0x1f == 0x1f {
        for _ in 0..r.below(4) {
            o.push(r.next() as u8 | 0x80);
        }
        o.push(r.next() as u8 & 0x7f);
    }
    let body = if depth > 0 && r.chance(2) {
        let mut b = Vec::new();
        for _ in 0..r.below(5) {
            b.extend(tlv(r, depth - 1));
        }
        b
    } else {
        body(r, tag)
    };
    if r.chance(10) {
        let l = r.next() as u8;
        o.push(l);
        let n = r.below(10);
        o.extend(r.bytes(n));
    } else {
        let form = if r.chance(5) { r.below(10) } else { 0 };
        let n = if r.chance(12) { (body.len() + r.below(5)).saturating_sub(2) } else { body.len() };
        o.extend(ind::len_form(n, form));
    }
    o.extend(body);
    o
}

pub fn body(r: &mut Rng, tag: u8) -> Vec<u8> {
    match (tag, r.below(3)) {
        (2, 0) => ind::int_body(r.next() as i64 >> r.below(64)),
        (6, 0) | (0x0d, 0) => {
            let mut o = vec![0x2b];
            for _ in 0..r.below(8) {
                o.extend(ind::sub(r.next() >> (32 + r.below(32))));
            }
            o
        }
        (9, 0) | (9, 1) => {
            let mut o = vec![*r.pick(&[0, 1, 2, 3, 0x40, 0x41, 0x42, 0x43, 0x80, 0x81, 0x82, 0x83, 0x90, 0xa0, 0xb0, 0xc0, 0xff])];
            let n = r.below(12);
            if r.chance(2) {
                for _ in 0..n {
                    o.push(*r.pick(b"0123456789+-.,Ee x"));
                }
            } else {
                o.extend(r.bytes(n));
            }
            o
        }
        (0x40, 0) => r.bytes(4),
        _ => {
            let n = if r.chance(20) { r.below(300) } else { r.below(12) };
            r.bytes(n)
        }
    }
}

/// A message skeleton with random elements in place of its fields.
pub fn message(r: &mut Rng) -> Vec<u8> {
    let f = |r: &mut Rng, b: Vec<u8>| if r.chance(12) { tlv(r, 2) } else { b };
    let mut vbs = Vec::new();
    for _ in 0..r.below(5) {
        let n = r.below(3);
        let o = if r.chance(4) { ind::tlv(0x0d, &r.bytes(n)) } else { ind::tlv(6, &body(r, 6)) };
        let o = f(r, o);
        let v = tlv(r, 0);
        let x = ind::tlv(0x30, &ind::cat(&[&o, &v]));
        vbs.extend(f(r, x));
    }
    let id = f(r, ind::int(5));
    let e = f(r, ind::int(0));
    let x = f(r, ind::int(0));
    let v = ind::tlv(0x30, &vbs);
    let v = f(r, v);
    let tag = *r.pick(&[0xa0u8, 0xa1, 0xa2, 0xa2, 0xa2, 0xa5, 0xa8]);
    let p = ind::tlv(tag, &ind::cat(&[&id, &e, &x, &v]));
    let p = f(r, p);
    let mut m = match r.below(3) {
        k @ (0 | 1) => {
            let c = f(r, ind::tlv(4, b"public"));
            ind::tlv(0x30, &ind::cat(&[&ind::int(k as i64), &c, &p]))
        }
        _ => {
            let n = r.below(14);
            let eng = f(r, ind::tlv(4, b"\x80\x00\x01"));
            let bo = f(r, ind::int(4));
            let ti = f(r, ind::int(400));
            let us = f(r, ind::tlv(4, b"user"));
            let au = ind::tlv(4, &r.bytes(n));
            let n = r.below(9);
            let pr = ind::tlv(4, &r.bytes(n));
            let u = ind::tlv(0x30, &ind::cat(&[&eng, &bo, &ti, &us, &au, &pr]));
            let u = f(r, u);
            let s = ind::tlv(0x30, &ind::cat(&[&eng, &[4, 0], &p]));
            let s = f(r, s);
            let fl = r.next() as u8;
            let h = ind::tlv(0x30, &ind::cat(&[&ind::int(7), &ind::int(65507), &[4, 1, fl], &ind::int(3)]));
            let h = f(r, h);
            ind::tlv(0x30, &ind::cat(&[&ind::int(3), &h, &ind::tlv(4, &u), &s]))
        }
    };
    match r.below(6) {
        0 => {
            let n = r.below(m.len());
            m.truncate(n);
        }
        1 | 2 => {
            for _ in 0..1 + r.below(3) {
                let i = r.below(m.len());
                m[i] = if r.chance(2) { r.next() as u8 } else { m[i] ^ (1 << r.below(8)) };
            }
        }
        _ => {}
    }
    m
}

pub fn search(args: &Args, out: &mut Out) {
    let a = Arena::new(16);
    let mut name = String::new();
    let mut go = |b: &[u8], out: &mut Out, enumerated: bool| -> bool {
        name.clear();
        name.push_str(&hex(b));
        guard::current(&name);
        match all(&a, b) {
            Ok(n) => {
                if enumerated {
                    out.enumerated(n > 0);
                } else {
                    out.case(|| hex(b), b, b.len() > 8);
                    out.label(match n {
                        0 => "accepted by no decoder",
                        1 => "header only",
                        _ => "accepted by a typed decoder",
                    });
                }
                true
            }
            Err(m) => {
                out.violation = Some((hex(b), m));
                false
            }
        }
    };
    // every string of up to three octets
    if args.shard == 0 && !go(&[], out, true) {
        return;
    }
    for x in 0..=255u8 {
        if x as u64 % args.of != args.shard {
            continue;
        }
        if !go(&[x], out, true) {
            return;
        }
        for y in 0..=255u8 {
            if !go(&[x, y], out, true) {
                return;
            }
            // a third octet matters only when it is contents, length or tag
            if y > 4 && y < 0x80 && x & 0x1f != 0x1f {
                continue;
            }
            for z in 0..=255u8 {
                if !go(&[x, y, z], out, true) {
                    return;
                }
            }
        }
    }
    // every two-octet body of every type
    for (k, t) in TAGS.iter().enumerate() {
        if k as u64 % args.of != args.shard {
            continue;
        }
        for w in 0..=65535u16 {
            let [p, q] = w.to_be_bytes();
            if !go(&[*t, 2, p, q], out, true) {
                return;
            }
        }
    }
    let mut r = Rng::new(args.seed);
    for n in 0..args.random {
        let b = match n % 4 {
            0 => tlv(&mut r, 4),
            1 => {
                let t = *r.pick(TAGS);
                ind::tlv(t, &body(&mut r, t))
            }
            _ => message(&mut r),
        };
        if b.len() < 60000 && !go(&b, out, false) {
            return;
        }
    }
}

/// Coverage-guided.
pub fn fuzz(args: &Args, out: &mut Out) {
    let a = Arena::new(16);
    crate::fuzz::search(args, out, |b, _| hex(b), &mut |b, _| all(&a, b).map(|n| n > 0 || b.len() > 8));
}

pub fn replay(c: &str) -> Result<(), String> {
    guard::current(c);
    all(&Arena::new(16), &unhex(c)).map(|_| ())
}
