//! C17: no sequence of buffer operations leaves the buffer or exposes octets
//! that were never written; a message that fits is encoded, another is not.

use crate::guard::{self, Arena};
use crate::{Args, Out, Rng, hex, ind, unhex};
use gufo_snmp::ber::{BerEncoder, SnmpOid};
use gufo_snmp::buf::{Buffer, get_buffer_pool};
use gufo_snmp::error::SnmpError;
use gufo_snmp::snmp::get::SnmpGet;
use gufo_snmp::snmp::msg::{SnmpPdu, SnmpV1Message, SnmpV2cMessage};
use std::mem::{MaybeUninit, align_of, size_of};

#[derive(Clone, Debug)]
enum Op {
    U8(u8),
    Push(usize, u8),
    TagLen(u8, usize),
    Tagged(u8, usize, u8),
    Skip(usize),
    Reset,
    Mark(usize),
    Ensure(usize),
    Recv(usize, u8),
    Xor,
}

fn show(ops: &[Op]) -> String {
    ops.iter()
        .map(|o| match o {
            Op::U8(v) => format!("u{v}"),
            Op::Push(n, v) => format!("p{n}.{v}"),
            Op::TagLen(t, n) => format!("l{t}.{n}"),
            Op::Tagged(t, n, v) => format!("t{t}.{n}.{v}"),
            Op::Skip(n) => format!("s{n}"),
            Op::Reset => "r0".into(),
            Op::Mark(n) => format!("m{n}"),
            Op::Ensure(n) => format!("e{n}"),
            Op::Recv(n, v) => format!("v{n}.{v}"),
            Op::Xor => "x0".into(),
        })
        .collect::<Vec<_>>()
        .join(",")
}

fn parse(s: &str) -> Vec<Op> {
    s.split(',')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let f: Vec<usize> = x[1..].split('.').map(|y| y.parse().unwrap()).collect();
            match &x[..1] {
                "u" => Op::U8(f[0] as u8),
                "p" => Op::Push(f[0], f[1] as u8),
                "l" => Op::TagLen(f[0] as u8, f[1]),
                "t" => Op::Tagged(f[0] as u8, f[1], f[2] as u8),
                "s" => Op::Skip(f[0]),
                "r" => Op::Reset,
                "m" => Op::Mark(f[0]),
                "e" => Op::Ensure(f[0]),
                "v" => Op::Recv(f[0], f[1] as u8),
                _ => Op::Xor,
            }
        })
        .collect()
}

fn chunk(n: usize, v: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(v)).collect()
}

/// Run the operations on a buffer between inaccessible pages whose memory
/// held `canary` before, against a vector.
fn history(a: &Arena, ops: &[Op], start: bool, canary: u8) -> Result<Vec<Vec<u8>>, String> {
    a.fill(canary);
    let p = if start { a.place_start() } else { a.place_end(size_of::<Buffer>(), align_of::<Buffer>()) } as *mut Buffer;
    let buf: &mut Buffer = unsafe {
        p.write(Buffer::default());
        &mut *p
    };
    // make the octets which were never written recognisable
    {
        let d: &mut [MaybeUninit<u8>] = buf.as_mut();
        for x in d.iter_mut() {
            *x = MaybeUninit::new(canary);
        }
    }
    let lo = p as usize;
    let hi = lo + size_of::<Buffer>();
    let max = buf.free();
    let mut model: Vec<Option<u8>> = Vec::new(); // front is index 0
    let mut mark: Option<usize> = None; // distance of the mark from the end
    let mut seen = Vec::new();
    let inside = |s: &[u8], what: &str| -> Result<(), String> {
        let b = s.as_ptr() as usize;
        if b < lo || b + s.len() > hi {
            return Err(format!("{what} reaches outside of the buffer"));
        }
        Ok(())
    };
    for (i, op) in ops.iter().enumerate() {
        let before = model.len();
        let w = |e: &str| format!("after {}: {e}", show(&ops[..=i]));
        let put: Option<Vec<u8>> = match op {
            Op::U8(v) => Some(vec![*v]),
            Op::Push(n, v) => Some(chunk(*n, *v)),
            Op::TagLen(t, n) => Some([vec![*t], ind::len(*n)].concat()),
            Op::Tagged(t, n, v) => Some(ind::tlv(*t, &chunk(*n, *v))),
            _ => None,
        };
        let r: Result<(), SnmpError> = match op {
            Op::U8(v) => buf.push_u8(*v),
            Op::Push(n, v) => buf.push(&chunk(*n, *v)),
            Op::TagLen(t, n) => buf.push_tag_len(*t, *n),
            Op::Tagged(t, n, v) => buf.push_tagged(*t, &chunk(*n, *v)),
            Op::Skip(n) => {
                buf.skip(*n);
                let k = (*n).min(max - before);
                model.splice(0..0, std::iter::repeat_n(None, k));
                Ok(())
            }
            Op::Reset => {
                buf.reset();
                model.clear();
                mark = None;
                Ok(())
            }
            Op::Mark(n) => {
                // within what is written
                let n = (*n).min(before);
                buf.set_bookmark(n);
                mark = Some(before - n);
                Ok(())
            }
            Op::Ensure(n) => {
                let r = buf.ensure_size(*n);
                if r.is_ok() != (*n <= max - before) {
                    return Err(w(&format!("ensure_size({n}) with {} octets free gives {r:?}", max - before)));
                }
                Ok(())
            }
            Op::Recv(n, v) => {
                // as when a datagram is received
                let n = (*n).min(max);
                buf.reset();
                model.clear();
                mark = None;
                let d: &mut [MaybeUninit<u8>] = buf.as_mut();
                if d.len() > max {
                    return Err(w("the receive area is larger than the buffer"));
                }
                let c = chunk(n, *v);
                for (x, y) in d.iter_mut().zip(&c) {
                    *x = MaybeUninit::new(*y);
                }
                let s = buf.as_slice(n);
                inside(s, "as_slice")?;
                if s != &c[..] {
                    return Err(w("as_slice() differs from what was received"));
                }
                let s = buf.as_slice(usize::MAX / 4);
                inside(s, "as_slice")?;
                Ok(())
            }
            Op::Xor => {
                for x in buf.data_mut() {
                    *x ^= 0x55;
                }
                for x in &mut model {
                    *x = x.map(|y| y ^ 0x55);
                }
                Ok(())
            }
        };
        if let Some(c) = put {
            match r {
                Ok(()) => {
                    if c.len() > max - before {
                        return Err(w(&format!("{} octets were taken with {} free", c.len(), max - before)));
                    }
                    model.splice(0..0, c.into_iter().map(Some));
                }
                Err(SnmpError::OutOfBuffer) => {
                    if c.len() <= max - before {
                        return Err(w(&format!("{} octets were refused with {} free", c.len(), max - before)));
                    }
                    // what was written before stays, a part of it may be
                    // added
                    let n = buf.len();
                    if n < before || n > max {
                        return Err(w("a refused operation changes what was written"));
                    }
                    let d = buf.data()[..n - before].to_vec();
                    model.splice(0..0, d.into_iter().map(Some));
                }
                Err(e) => return Err(w(&format!("unexpected error {e:?}"))),
            }
        }
        if buf.len() != model.len() || buf.free() != max - model.len() || buf.is_empty() != model.is_empty() || buf.is_full() != (model.len() == max) {
            return Err(w(&format!("len {} free {} for {} octets written", buf.len(), buf.free(), model.len())));
        }
        let d = buf.data();
        inside(d, "data()")?;
        if d.len() != model.len() || d.iter().zip(&model).any(|(x, y)| y.is_some_and(|y| y != *x)) {
            return Err(w("data() differs from what was written"));
        }
        if let Some(m) = mark {
            if buf.get_bookmark() != model.len() - m {
                return Err(w(&format!("the bookmark is at {} instead of {}", buf.get_bookmark(), model.len() - m)));
            }
        }
        seen.push(d.to_vec());
        inside(buf.data_mut(), "data_mut()")?;
        let m: &mut [u8] = buf.as_mut();
        inside(m, "as_mut()")?;
    }
    Ok(seen)
}

fn ops(a: &Arena, o: &[Op]) -> Result<(), String> {
    crate::safely(|| ops_(a, o))
}

fn ops_(a: &Arena, o: &[Op]) -> Result<(), String> {
    for start in [false, true] {
        let x = history(a, o, start, 0xa5)?;
        let y = history(a, o, start, 0x3c)?;
        for (i, (p, q)) in x.iter().zip(&y).enumerate() {
            if p != q {
                return Err(format!("after {}: data() exposes octets that were never written", show(&o[..=i])));
            }
        }
    }
    Ok(())
}

/// A request of exactly `size` octets.
fn fits(size: usize, ver: u8, n: usize) -> Result<bool, String> {
    crate::safely(|| fits_(size, ver, n))
}

fn fits_(size: usize, ver: u8, n: usize) -> Result<bool, String> {
    let mut h = get_buffer_pool().acquire();
    let buf = h.as_mut();
    if !buf.is_empty() {
        return Err("the pool hands out a buffer which is not empty".into());
    }
    let max = buf.free();
    let oid = [1u32, 3, 6, 1, 4, 4294967295, 4294967295, 77];
    let t = ind::dotted(&oid);
    let vars: Vec<SnmpOid> = (0..n).map(|_| SnmpOid::try_from(t.as_str()).unwrap()).collect();
    let p = ind::tlv(0xa0, &ind::pdu_body(1 << 30, 0, 0, &vec![oid.to_vec(); n]));
    let want = |c: usize| ind::tlv(0x30, &ind::cat(&[&ind::int(ver as i64 - 1), &ind::tlv(4, &vec![b'c'; c]), &p]));
    let c = (0..size).rev().find(|c| want(*c).len() <= size);
    let Some(c) = c else { return Ok(false) };
    let w = want(c);
    let com = vec![b'c'; c];
    let pdu = SnmpPdu::GetRequest(SnmpGet { request_id: 1 << 30, vars });
    let r = if ver == 1 {
        SnmpV1Message { community: &com, pdu }.push_ber(buf)
    } else {
        SnmpV2cMessage { community: &com, pdu }.push_ber(buf)
    };
    match r {
        Ok(()) => {
            if w.len() > max {
                return Err(format!("a message of {} octets is encoded into a buffer of {max}", w.len()));
            }
            if buf.data() != &w[..] {
                return Err(format!("a message of {} octets is encoded as {}", w.len(), hex(buf.data())));
            }
        }
        Err(SnmpError::OutOfBuffer) => {
            if w.len() <= max {
                return Err(format!("a message of {} octets is refused by a buffer of {max}", w.len()));
            }
        }
        Err(e) => return Err(format!("a message of {} octets: {e:?}", w.len())),
    }
    Ok(true)
}

fn g_op(r: &mut Rng, big: bool) -> Op {
    let n = match r.below(6) {
        0 => r.below(4),
        1 => *r.pick(&[126, 127, 128, 129, 254, 255, 256, 257]),
        2 if big => *r.pick(&[1000, 2040, 4000, 4070, 4075, 4076, 4077, 4078, 4079, 4080, 4081, 4082, 4090, 4096, 5000, 8192]),
        _ => r.below(60),
    };
    let v = r.next() as u8;
    match r.below(14) {
        0 | 1 => Op::U8(v),
        2..=4 => Op::Push(n, v),
        5 | 6 => Op::TagLen(v, if r.chance(5) { r.below(65536) } else { n }),
        7 | 8 => Op::Tagged(v, n, r.next() as u8),
        9 => Op::Skip(if r.chance(40) { usize::MAX - r.below(3) } else { n }),
        10 => if r.chance(2) { Op::Reset } else { Op::Xor },
        11 => Op::Mark(n),
        12 => Op::Ensure(if r.chance(10) { usize::MAX - r.below(3) } else { n }),
        _ => {
            if r.chance(4) {
                Op::Recv(n, v)
            } else {
                Op::U8(v)
            }
        }
    }
}

pub fn search(args: &Args, out: &mut Out) {
    let a = Arena::new(size_of::<Buffer>().div_ceil(4096));
    let mut name = String::new();
    for size in 3990..4100usize {
        if size as u64 % args.of != args.shard {
            continue;
        }
        for ver in [1, 2] {
            for n in [0usize, 1, 5, 50, 100, 150] {
                name = format!("fits:{size}:{ver}:{n}");
                guard::current(&name);
                match fits(size, ver, n) {
                    Ok(b) => out.enumerated(b),
                    Err(m) => {
                        out.violation = Some((name, m));
                        return;
                    }
                }
            }
        }
    }
    // filling up octet by octet, then one operation at every fill level near
    // full
    let mut r = Rng::new(args.seed);
    let mut all: Vec<Vec<Op>> = Vec::new();
    if args.shard == 0 {
        for free in 0..12usize {
            for op in [
                Op::U8(1),
                Op::Push(0, 0),
                Op::Push(1, 2),
                Op::Push(3, 2),
                Op::Push(9, 2),
                Op::TagLen(4, 5),
                Op::TagLen(4, 127),
                Op::TagLen(4, 128),
                Op::TagLen(4, 255),
                Op::TagLen(4, 256),
                Op::TagLen(4, 4080),
                Op::Tagged(4, 0, 1),
                Op::Tagged(4, 5, 1),
                Op::Skip(1),
                Op::Skip(5),
                Op::Skip(5000),
                Op::Ensure(4),
            ] {
                all.push(vec![Op::Push(4080 - free, 9), op.clone(), Op::U8(7), op]);
            }
        }
    }
    for _ in 0..args.random {
        guard::tick();
        let n = 1 + r.below(30);
        let big = r.chance(2);
        let mut o: Vec<Op> = (0..n).map(|_| g_op(&mut r, big)).collect();
        if r.chance(3) {
            o.insert(0, Op::Push(4080 - r.below(300), 3));
        }
        all.push(o);
    }
    for o in all {
        name = format!("ops:{}", show(&o));
        guard::current(&name);
        out.case(|| name.clone(), name.as_bytes(), o.len() > 2);
        if let Err(m) = ops(&a, &o) {
            let mut best = (o, m);
            loop {
                let mut c = Vec::new();
                for i in 0..best.0.len() {
                    let mut x = best.0.clone();
                    x.remove(i);
                    c.push(x);
                }
                match c.into_iter().find_map(|x| ops(&a, &x).err().map(|m| (x, m))) {
                    Some(b) => best = b,
                    None => break,
                }
            }
            out.violation = Some((format!("ops:{}", show(&best.0)), best.1));
            return;
        }
    }
    let _ = name;
}

pub fn replay(c: &str) -> Result<(), String> {
    guard::current(c);
    let f: Vec<&str> = c.split(':').collect();
    let _ = unhex("");
    if f[0] == "fits" {
        return fits(f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap()).map(|_| ());
    }
    ops(&Arena::new(size_of::<Buffer>().div_ceil(4096)), &parse(f[1]))
}
