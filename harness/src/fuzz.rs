//! Coverage-guided search: inputs that reach new code (edge counters of the
//! library and of nom, compiled in by vlib/build.py) are kept and mutated
//! further; operands of the comparisons met on the way are put in place of
//! each other.  Deterministic for a seed.

use crate::c01::{TAGS, body, message, tlv};
use crate::{Args, Out, Rng, ind};
use std::cell::UnsafeCell;

struct Shared(UnsafeCell<State>);
unsafe impl Sync for Shared {}

struct State {
    ranges: [(usize, usize); 512],
    n: usize,
    cmp: [(u64, u64); 256],
    ncmp: usize,
}

static STATE: Shared = Shared(UnsafeCell::new(State { ranges: [(0, 0); 512], n: 0, cmp: [(0, 0); 256], ncmp: 0 }));

#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let s = unsafe { &mut *STATE.0.get() };
    let r = (start as usize, stop as usize);
    if s.n < s.ranges.len() && r.0 < r.1 && !s.ranges[..s.n].contains(&r) {
        s.ranges[s.n] = r;
        s.n += 1;
    }
}

#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

fn cmp(a: u64, b: u64) {
    if a != b {
        let s = unsafe { &mut *STATE.0.get() };
        let n = s.ncmp;
        if n < s.cmp.len() {
            s.cmp[n] = (a, b);
            s.ncmp = n + 1;
        }
    }
}

macro_rules! cmps {
    ($($f:ident $t:ty),*) => { $(
        #[unsafe(no_mangle)]
        extern "C" fn $f(a: $t, b: $t) {
            cmp(a as u64, b as u64);
        }
    )* };
}
cmps!(
    __sanitizer_cov_trace_cmp1 u8, __sanitizer_cov_trace_cmp2 u16, __sanitizer_cov_trace_cmp4 u32, __sanitizer_cov_trace_cmp8 u64,
    __sanitizer_cov_trace_const_cmp1 u8, __sanitizer_cov_trace_const_cmp2 u16, __sanitizer_cov_trace_const_cmp4 u32,
    __sanitizer_cov_trace_const_cmp8 u64
);

#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_trace_switch(v: u64, cases: *const u64) {
    unsafe {
        let n = *cases as usize;
        for i in 0..n.min(64) {
            cmp(v, *cases.add(2 + i));
        }
    }
}

fn bucket(c: u8) -> u8 {
    match c {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

/// Edges seen so far, by how often one input takes them.
struct Seen {
    map: Vec<Vec<u8>>,
    pub edges: usize,
}

impl Seen {
    fn ranges() -> Vec<(usize, usize)> {
        let s = unsafe { &*STATE.0.get() };
        s.ranges[..s.n].to_vec()
    }
    fn new() -> Self {
        Seen { map: Self::ranges().iter().map(|(a, b)| vec![0; b - a]).collect(), edges: 0 }
    }
    fn clear(&self) {
        for (a, b) in Self::ranges() {
            unsafe { std::ptr::write_bytes(a as *mut u8, 0, b - a) };
        }
        unsafe { (*STATE.0.get()).ncmp = 0 };
    }
    fn update(&mut self) -> bool {
        let mut new = false;
        for (k, (a, b)) in Self::ranges().into_iter().enumerate() {
            let c = unsafe { std::slice::from_raw_parts(a as *const u8, b - a) };
            let m = &mut self.map[k];
            for (i, &x) in c.iter().enumerate() {
                if x != 0 {
                    let v = bucket(x);
                    if m[i] & v == 0 {
                        self.edges += (m[i] == 0) as usize;
                        m[i] |= v;
                        new = true;
                    }
                }
            }
        }
        new
    }
}

fn pairs() -> Vec<(u64, u64)> {
    let s = unsafe { &*STATE.0.get() };
    s.cmp[..s.ncmp].to_vec()
}

// ------------------------------------------------------------- mutation
#[derive(Clone)]
enum Node {
    Leaf(Vec<u8>, Vec<u8>),
    Tree(Vec<u8>, Vec<Node>),
    Raw(Vec<u8>),
}

fn parse(b: &[u8], depth: usize) -> Vec<Node> {
    let mut o = Vec::new();
    let mut p = 0;
    while p < b.len() {
        let Some((h, l)) = crate::c16::header(&b[p..]) else { break };
        if l > b.len() - p - h.min(b.len() - p) {
            break;
        }
        let mut t = 1;
        if b[p] & 0x1f == 0x1f {
            while b[p + t] & 0x80 != 0 {
                t += 1;
            }
            t += 1;
        }
        let (tag, c) = (b[p..p + t].to_vec(), &b[p + h..p + h + l]);
        let nest = b[p] & 0x20 != 0 || (b[p] == 4 && l > 2 && c[0] == 0x30);
        o.push(if nest && depth < 12 { Node::Tree(tag, parse(c, depth + 1)) } else { Node::Leaf(tag, c.to_vec()) });
        p += h + l;
    }
    if p < b.len() {
        o.push(Node::Raw(b[p..].to_vec()));
    }
    o
}

fn encode(v: &[Node]) -> Vec<u8> {
    let mut o = Vec::new();
    for n in v {
        match n {
            Node::Raw(b) => o.extend(b),
            Node::Leaf(t, b) => {
                o.extend(t);
                o.extend(ind::len_form(b.len(), 0));
                o.extend(b);
            }
            Node::Tree(t, c) => {
                let b = encode(c);
                o.extend(t);
                o.extend(ind::len_form(b.len(), 0));
                o.extend(b);
            }
        }
    }
    o
}

fn count(v: &[Node]) -> usize {
    v.iter().map(|n| 1 + if let Node::Tree(_, c) = n { count(c) } else { 0 }).sum()
}

/// Change the k-th node, wherever it is.
fn at(v: &mut Vec<Node>, k: &mut usize, r: &mut Rng, other: &[Node]) -> bool {
    for i in 0..v.len() {
        if *k == 0 {
            match r.below(7) {
                0 => {
                    v.remove(i);
                }
                1 => {
                    let n = v[i].clone();
                    v.insert(i, n);
                }
                2 => {
                    let j = r.below(v.len());
                    v.swap(i, j);
                }
                3 if !other.is_empty() => v[i] = r.pick(other).clone(),
                4 => match &mut v[i] {
                    Node::Leaf(t, _) | Node::Tree(t, _) => *t = vec![*r.pick(TAGS)],
                    Node::Raw(b) => b.clear(),
                },
                5 => v.insert(i, Node::Raw(tlv(r, 2))),
                _ => match &mut v[i] {
                    Node::Leaf(t, b) => {
                        if r.chance(2) {
                            *b = body(r, t[0]);
                        } else {
                            octets(b, r);
                        }
                    }
                    _ => v[i] = Node::Raw(tlv(r, 2)),
                },
            }
            return true;
        }
        *k -= 1;
        if let Node::Tree(_, c) = &mut v[i] {
            if at(c, k, r, other) {
                return true;
            }
        }
    }
    false
}

fn leaves(v: &[Node], o: &mut Vec<Node>) {
    for n in v {
        if let Node::Tree(_, c) = n {
            leaves(c, o);
        }
        o.push(n.clone());
    }
}

const OCTETS: &[u8] = &[0, 1, 2, 3, 4, 5, 7, 8, 0x0f, 0x10, 0x1f, 0x20, 0x30, 0x40, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x88, 0xbf, 0xc0, 0xfe, 0xff];

fn octets(b: &mut Vec<u8>, r: &mut Rng) {
    for _ in 0..1 + r.below(3) {
        let i = r.below(b.len() + 1);
        match r.below(6) {
            0 if i < b.len() => b[i] ^= 1 << r.below(8),
            1 if i < b.len() => b[i] = *r.pick(OCTETS),
            2 if i < b.len() => b[i] = b[i].wrapping_add(*r.pick(&[1, 255, 2, 254, 16])),
            3 if i < b.len() => {
                b.remove(i);
            }
            4 => {
                let n = 1 + r.below(4);
                let x = if r.chance(2) { vec![*r.pick(OCTETS); n] } else { r.bytes(n) };
                b.splice(i..i, x);
            }
            _ if i < b.len() => b[i] = r.next() as u8,
            _ => b.push(*r.pick(OCTETS)),
        }
    }
}

/// Put one operand of a comparison where the other one is found.
fn operand(b: &mut [u8], r: &mut Rng, p: &[(u64, u64)]) -> bool {
    if p.is_empty() {
        return false;
    }
    for _ in 0..4 {
        let (mut x, mut y) = *r.pick(p);
        if r.chance(2) {
            std::mem::swap(&mut x, &mut y);
        }
        y = y.wrapping_add(*r.pick(&[0, 0, 0, 1, u64::MAX]));
        let n = match x.max(y) {
            0..=0xff => 1,
            0x100..=0xffff => 2,
            0x1_0000..=0xffff_ffff => 4,
            _ => 8,
        };
        let (x, y) = (&x.to_be_bytes()[8 - n..], &y.to_be_bytes()[8 - n..]);
        if b.len() < n {
            continue;
        }
        let s = r.below(b.len());
        for i in 0..b.len() {
            let i = (i + s) % b.len();
            if b[i..].starts_with(x) {
                b[i..i + n].copy_from_slice(y);
                return true;
            }
        }
    }
    false
}

fn mutate(b: &[u8], r: &mut Rng, other: &[u8], p: &[(u64, u64)]) -> Vec<u8> {
    let mut o = b.to_vec();
    for _ in 0..1 + r.below(3) {
        match r.below(8) {
            0 | 1 => octets(&mut o, r),
            2 if operand(&mut o, r, p) => {}
            3 => {
                let k = r.below(o.len() + 1);
                let j = r.below(other.len() + 1);
                if r.chance(2) {
                    o.truncate(k);
                    o.extend(&other[j..]);
                } else {
                    let e = j + r.below(other.len() - j + 1).min(64);
                    o.splice(k..k, other[j..e].iter().copied());
                }
            }
            _ => {
                let mut t = parse(&o, 0);
                let n = count(&t);
                if n > 0 {
                    let mut l = Vec::new();
                    leaves(&parse(other, 0), &mut l);
                    let mut k = r.below(n);
                    at(&mut t, &mut k, r, &l);
                    o = encode(&t);
                } else {
                    o = tlv(r, 2);
                }
            }
        }
    }
    o.truncate(5000);
    o
}

/// `run(input, draw)` decides one input; Ok(non-trivial) or what is wrong.
pub fn search(args: &Args, out: &mut Out, name: impl Fn(&[u8], u64) -> String, run: &mut dyn FnMut(&[u8], u64) -> Result<bool, String>) {
    let mut r = Rng::new(args.seed ^ 0xf022);
    let mut seen = Seen::new();
    let mut corpus: Vec<(Vec<u8>, Vec<(u64, u64)>)> = Vec::new();
    let mut current;
    for n in 0..args.random {
        let b = if n < 400 || corpus.is_empty() || n % 64 == 0 {
            match r.below(4) {
                0 => tlv(&mut r, 3),
                1 => {
                    let t = *r.pick(TAGS);
                    ind::tlv(t, &body(&mut r, t))
                }
                2 => crate::c16::good(&mut r),
                _ => message(&mut r),
            }
        } else {
            // later finds are picked more often
            let k = if r.chance(2) { corpus.len() - 1 - r.below(corpus.len().min(50)) } else { r.below(corpus.len()) };
            let j = r.below(corpus.len());
            mutate(&corpus[k].0, &mut r, &corpus[j].0, &corpus[k].1)
        };
        let draw = r.next();
        current = name(&b, draw);
        crate::guard::current(&current);
        seen.clear();
        match run(&b, draw) {
            Ok(nt) => {
                out.case(|| current.clone(), &b, nt);
                if seen.update() {
                    corpus.push((b, pairs()));
                }
            }
            Err(m) => {
                // shrink: drop runs of octets, keeping a failure
                let (mut b, mut m) = (b, m);
                let mut step = b.len() / 2;
                while step > 0 {
                    let mut i = 0;
                    while i + step <= b.len() {
                        let mut c = b.clone();
                        c.drain(i..i + step);
                        current = name(&c, draw);
                        crate::guard::current(&current);
                        match run(&c, draw) {
                            Err(e) => (b, m) = (c, e),
                            Ok(_) => i += step,
                        }
                    }
                    step /= 2;
                }
                out.violation = Some((name(&b, draw), m));
                return;
            }
        }
    }
    for _ in 0..seen.edges {
        out.label("edges of the library reached (sum over shards)");
    }
    for _ in 0..corpus.len() {
        out.label("inputs kept for new coverage");
    }
}
