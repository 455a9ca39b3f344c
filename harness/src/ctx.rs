//! Shared helpers.
use serde_json::Value;
use std::{cell::RefCell, collections::BTreeMap};

thread_local! { pub static PANIC_MSG: RefCell<String> = RefCell::new(String::new()); }

#[derive(Default)]
pub struct Report {
    pub checked: usize,
    pub counts: BTreeMap<String, u64>,
    pub cur: Vec<(String, String)>,
    pub violations: Vec<(String, String, Value)>,
    pub harness_errors: Vec<String>,
}

impl Report {
    pub fn violation(&mut self, prop: &str, msg: String) {
        if self.cur.len() < 200 {
            self.cur.push((prop.to_owned(), msg));
        }
    }
    pub fn check(&mut self, prop: &str, ok: bool, msg: impl FnOnce() -> String) {
        if !ok {
            self.violation(prop, msg());
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        *self.counts.entry(name.to_owned()).or_default() += n;
    }
    pub fn merge(&mut self, mut r: Report, rec: &Value) {
        self.checked += r.checked;
        for (k, v) in r.counts {
            *self.counts.entry(k).or_default() += v;
        }
        r.cur.dedup_by(|a, b| a.0 == b.0);
        for (p, m) in r.cur {
            if self.violations.iter().filter(|x| x.0 == p).count() < 20 {
                self.violations.push((p, m, rec.clone()));
            } else {
                *self.counts.entry(format!("more_violations_{p}")).or_default() += 1;
            }
        }
        if self.harness_errors.len() < 20 {
            self.harness_errors.extend(r.harness_errors);
        }
    }
}

pub fn bytes(v: &Value) -> Vec<u8> {
    let mut out = vec![];
    v.as_array()
        .unwrap_or_else(|| panic!("HARNESS: not a byte array: {v}"))
        .iter()
        .for_each(|x| put(&mut out, x.as_u64().expect("HARNESS: not a byte")));
    out
}
/// A byte, or a block of bytes (m >= 1000, spec/Bytes.tla).
pub fn put(out: &mut Vec<u8>, m: u64) {
    match m {
        0..=255 => out.push(m as u8),
        1000.. => out.extend((0..m - 1000).map(|j| b'a' + ((j * 7 + j / 251) % 26) as u8)),
        _ => panic!("HARNESS: byte {m}"),
    }
}
pub fn ints(b: &[u8]) -> Value {
    Value::from(b.to_vec())
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn show(b: &[u8]) -> String {
    if b.len() > 4000 {
        return format!("\"{}\"... ({} bytes)", b[..1000].escape_ascii(), b.len());
    }
    format!("\"{}\"", b.escape_ascii())
}
pub fn sha256(b: &[u8]) -> Vec<u8> {
    use sha2::Digest;
    sha2::Sha256::digest(b).to_vec()
}
#[cfg(feature = "pre-rfc8301")]
pub fn sha1(b: &[u8]) -> Vec<u8> {
    use sha1::Digest;
    sha1::Sha1::digest(b).to_vec()
}

/// SplitMix64: deterministic source of choices, independent of library versions.
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: &str) -> Self {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in stream.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Rng(h)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}
