//! Generated-input search below the Python API.
//!
//! `harness <mode> --seed N [--shard i --of n] [--random k]` prints one JSON
//! object; `harness <mode> --replay <case>` runs a single case.

mod c01;
mod c15;
mod c16;
mod c17;
mod decoders;
mod fuzz;
mod guard;
mod ind;

use std::collections::{BTreeMap, HashSet};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x5851_f42d_4c95_7f2d)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c)
            }
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn h64(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x1_0000_0001_b3);
    }
    h ^ (h >> 29)
}

/// What one run has covered.
#[derive(Default)]
pub struct Out {
    pub evaluations: u64,
    exact: u64,
    seen: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    pub violation: Option<(String, String)>,
}

impl Out {
    pub fn label(&mut self, l: &str) {
        if let Some(x) = self.labels.get_mut(l) {
            *x += 1;
        } else {
            self.labels.insert(l.to_string(), 1);
        }
    }
    /// A case drawn at random (duplicates are removed from the count).
    pub fn case(&mut self, case: impl FnOnce() -> String, key: &[u8], nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial && self.seen.insert(h64(key)) && self.samples.len() < 3 && self.evaluations % 97 == 1 {
            self.samples.push(case());
        }
    }
    /// A case of an enumeration (distinct by construction).
    pub fn enumerated(&mut self, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.exact += 1;
        }
    }
    fn print(&self) {
        let l: Vec<String> = self.labels.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let s: Vec<String> = self.samples.iter().map(|x| js(x)).collect();
        let v = match &self.violation {
            Some((c, m)) => format!("{{\"case\":{},\"message\":{}}}", js(c), js(m)),
            None => "null".to_string(),
        };
        println!(
            "{{\"evaluations\":{},\"distinct_nontrivial\":{},\"labels\":{{{}}},\"samples\":[{}],\"violation\":{}}}",
            self.evaluations,
            self.exact + self.seen.len() as u64,
            l.join(","),
            s.join(","),
            v
        );
    }
}

/// A check of the library in which a panic of the library is a failure.
pub fn safely<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()));
        Err(format!("the library panics: {}", m.unwrap_or_default()))
    })
}

pub struct Args {
    pub seed: u64,
    pub shard: u64,
    pub of: u64,
    pub random: u64,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut args = Args { seed: 1, shard: 0, of: 1, random: 1000 };
    let mut replay = None;
    let mut i = 2;
    while i + 1 < a.len() {
        match a[i].as_str() {
            "--seed" => args.seed = a[i + 1].parse().unwrap(),
            "--shard" => args.shard = a[i + 1].parse().unwrap(),
            "--of" => args.of = a[i + 1].parse().unwrap(),
            "--random" => args.random = a[i + 1].parse().unwrap(),
            "--replay" => replay = Some(a[i + 1].clone()),
            x => panic!("argument {x}"),
        }
        i += 2;
    }
    std::panic::set_hook(Box::new(|_| {}));
    guard::install();
    pyo3::prepare_freethreaded_python();
    let mut out = Out::default();
    match (a[1].as_str(), replay) {
        ("c01", None) => c01::search(&args, &mut out),
        ("c15", None) => c15::search(&args, &mut out),
        ("c16", None) => c16::search(&args, &mut out),
        ("c17", None) => c17::search(&args, &mut out),
        ("c01fuzz", None) => c01::fuzz(&args, &mut out),
        ("c16fuzz", None) => c16::fuzz(&args, &mut out),
        ("c01" | "c01fuzz", Some(c)) => out.violation = c01::replay(&c).err().map(|m| (c, m)),
        ("c15", Some(c)) => out.violation = c15::replay(&c).err().map(|m| (c, m)),
        ("c16" | "c16fuzz", Some(c)) => out.violation = c16::replay(&c).err().map(|m| (c, m)),
        ("c17", Some(c)) => out.violation = c17::replay(&c).err().map(|m| (c, m)),
        (m, _) => panic!("mode {m}"),
    }
    out.print();
}
