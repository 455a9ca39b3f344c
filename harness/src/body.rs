//! Body canonicalization and hashing (P01-P04).
use crate::ctx::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use viadkim::{
    canonicalize::BodyCanonicalizer,
    crypto::HashAlgorithm,
    message_hash::{BodyHashError, BodyHasherBuilder, BodyHasherKey, BodyHasherStance},
    signature::CanonicalizationAlgorithm::{self, Relaxed, Simple},
};

pub fn canon_chunks(alg: CanonicalizationAlgorithm, chunks: &[&[u8]]) -> Vec<u8> {
    let mut bc = BodyCanonicalizer::new(alg);
    let mut out = vec![];
    for c in chunks {
        out.extend(bc.canonicalize_chunk(c));
    }
    out.extend(bc.finish());
    out
}

/// Chunking number m of a body: bit i set = cut after byte i.
pub fn cut(body: &[u8], m: u64) -> Vec<&[u8]> {
    let mut res = vec![];
    let mut from = 0;
    for i in 1..body.len() {
        if m >> (i - 1) & 1 == 1 {
            res.push(&body[from..i]);
            from = i;
        }
    }
    res.push(&body[from..]);
    res
}

fn chunk_show(c: &[&[u8]]) -> String {
    c.iter().map(|x| show(x)).collect::<Vec<_>>().join(" ")
}

pub struct Expect {
    pub s: Vec<u8>,
    pub r: Vec<u8>,
    pub ra: Vec<u8>,
}

/// One body with its canonical forms: all chunkings, and body hash requests around each limit.
pub fn replay_body(v: &Value, rep: &mut Report) {
    let body = bytes(&v["body"]);
    let exp = Expect { s: bytes(&v["s"]), r: bytes(&v["r"]), ra: bytes(&v["ra"]) };
    let n = body.len();
    let ncut: u64 = if n <= 1 { 1 } else { 1 << (n - 1).min(9) };
    let whole_s = canon_chunks(Simple, &[&body]);
    let whole_r = canon_chunks(Relaxed, &[&body]);
    rep.check("P01", whole_s == exp.s, || {
        format!("simple canonicalization of {} is {}, expected {}", show(&body), show(&whole_s), show(&exp.s))
    });
    rep.check("P01", whole_r == exp.r || whole_r == exp.ra, || {
        format!("relaxed canonicalization of {} is {}, expected {}", show(&body), show(&whole_r), show(&exp.r))
    });
    for m in 0..ncut {
        let mut ch = cut(&body, m);
        for variant in 0..3 {
            if variant == 1 {
                // empty chunks everywhere
                let mut x: Vec<&[u8]> = vec![b""];
                for c in &ch {
                    x.push(c);
                    x.push(b"");
                }
                ch = x;
            } else if variant == 2 {
                break;
            }
            for (alg, whole) in [(Simple, &whole_s), (Relaxed, &whole_r)] {
                let o = canon_chunks(alg, &ch);
                rep.check("P02", &o == whole, || {
                    format!("{alg:?} of {} in chunks {} gives {}, in one piece {}", show(&body), chunk_show(&ch), show(&o), show(whole))
                });
                rep.count("canonicalizations", 1);
            }
        }
    }
    hasher_limits(v, &body, &exp, rep);
}

/// Settled prefix lengths (see the specification) for every prefix of this body, if provided.
fn settled(v: &Value) -> Option<Vec<[usize; 6]>> {
    Some(
        v.get("settled")?
            .as_array()?
            .iter()
            .map(|x| {
                let g = |i: usize| x[i].as_u64().unwrap() as usize;
                [g(0), g(1), g(2), g(3), g(4), g(5)]
            })
            .collect(),
    )
}

fn kind_of(alg: CanonicalizationAlgorithm) -> usize {
    match alg {
        Simple => 0,
        Relaxed => 1,
    }
}

fn hasher_limits(v: &Value, body: &[u8], exp: &Expect, rep: &mut Report) {
    let set = match settled(v) {
        Some(s) => s,
        None => return,
    };
    let n = body.len();
    let maxl = exp.s.len().max(exp.r.len()).max(exp.ra.len()) + 1;
    let ncut: u64 = if n <= 1 { 1 } else { 1 << (n - 1).min(6) };
    let hs = HashAlgorithm::Sha256;
    let canon_r = canon_chunks(Relaxed, &[body]);
    let canon_r = if canon_r == exp.ra { &exp.ra } else { &exp.r };
    let mut reqsets: Vec<Vec<BodyHasherKey>> = vec![vec![]];
    for l in 0..=maxl {
        for alg in [Simple, Relaxed] {
            reqsets.push(vec![(Some(l), hs, alg)]);
        }
        reqsets.push(vec![(Some(l), hs, Simple), (Some(l), hs, Relaxed)]);
        reqsets.push(vec![(Some(l), hs, Simple), (None, hs, Relaxed)]);
        reqsets.push(vec![(None, hs, Simple), (Some(l), hs, Relaxed), (None, hs, Relaxed)]);
        reqsets.push(vec![(Some(l), hs, Relaxed), (Some(l + 2), hs, Relaxed), (Some(maxl - l), hs, Simple)]);
    }
    reqsets.push(vec![(None, hs, Simple)]);
    reqsets.push(vec![(None, hs, Relaxed)]);
    reqsets.push(vec![(Some(usize::MAX), hs, Relaxed), (Some(2), hs, Relaxed)]);
    for (ri, reqs) in reqsets.iter().enumerate() {
        for forbid in [false, true] {
            for m in 0..ncut {
                if n > 4 && (m as usize + ri) % 5 != 0 {
                    continue;
                }
                let ch = cut(body, m);
                for stop in [false, true] {
                    let mut b = BodyHasherBuilder::new(forbid);
                    for &(l, h, c) in reqs {
                        b.register_canonicalization(l, h, c);
                    }
                    let mut h = b.build();
                    let mut fed = 0;
                    let mut done_seen = false;
                    let mut stances = vec![];
                    for c in &ch {
                        let st = h.hash_chunk(c);
                        fed += c.len();
                        stances.push(st);
                        let done = st == BodyHasherStance::Done;
                        let covers = |l: usize, g: usize| if forbid { g > l } else { g >= l };
                        let may = reqs.iter().all(|&(l, _, c)| l.map_or(false, |l| covers(l, set[fed][kind_of(c) + if forbid { 4 } else { 0 }])));
                        let must = reqs.iter().all(|&(l, _, c)| l.map_or(false, |l| covers(l, set[fed][2 + kind_of(c)])));
                        let ctx = || format!("requests {reqs:?} forbid={forbid} body {} chunks {} after {fed} bytes", show(body), chunk_show(&ch));
                        rep.check("P04", !done || may, || format!("Done though further content matters: {}", ctx()));
                        rep.check("P04", done || !must, || format!("not Done though all requests are covered: {}", ctx()));
                        rep.check("P04", done || !done_seen, || format!("Done was taken back: {}", ctx()));
                        done_seen |= done;
                        if done && stop {
                            break;
                        }
                    }
                    let res = h.finish();
                    rep.count("hasher_sessions", 1);
                    for key @ &(l, _, c) in reqs {
                        let full = if c == Simple { &exp.s } else { canon_r };
                        let got = res.get(key);
                        let ctx = || {
                            format!("request {key:?} among {reqs:?} forbid={forbid} body {} chunks {} stop_at_done={stop}", show(body), chunk_show(&ch))
                        };
                        let prop = if done_seen && stop { "P04" } else { "P03" };
                        let want: Result<&[u8], BodyHashError> = match l {
                            None => Ok(full),
                            Some(l) if l > full.len() => Err(BodyHashError::InsufficientInput),
                            Some(l) if forbid && l < full.len() => Err(BodyHashError::InputTruncated),
                            Some(l) => Ok(&full[..l]),
                        };
                        let ok = match (got, want) {
                            (None, _) => false,
                            (Some(Ok((h, n))), Ok(w)) => *n == w.len() && h[..] == sha256(w)[..],
                            (Some(Err(e)), Err(w)) => *e == w,
                            _ => false,
                        };
                        rep.check(prop, ok, || format!("result {got:?}, expected {want:?}: {}", ctx()));
                    }
                }
            }
        }
    }
}

fn runs_bytes(v: &Value) -> Vec<u8> {
    let mut out = vec![];
    for r in v.as_array().expect("HARNESS: runs") {
        let line = bytes(&r["line"]);
        for _ in 0..r["n"].as_u64().unwrap() {
            out.extend(&line);
            out.extend(b"\r\n");
        }
    }
    out
}

/// Body given as runs of lines (possibly huge counts), canonical forms as runs too.
pub fn replay_runs(v: &Value, rep: &mut Report) {
    let mut body = runs_bytes(&v["runs"]);
    body.extend(bytes(&v["tail"]));
    let exp = [runs_bytes(&v["s"]), runs_bytes(&v["r"]), runs_bytes(&v["ra"])];
    let mut rng = Rng::new(v["id"].as_u64().unwrap_or(0), "runs");
    let brief = |b: &[u8]| if b.len() > 300 { format!("{}...({} bytes)", show(&b[..300]), b.len()) } else { show(b) };
    for (alg, e) in [(Simple, &exp[..1]), (Relaxed, &exp[1..])] {
        let whole = canon_chunks(alg, &[&body]);
        rep.check("P01", e.contains(&whole), || format!("{alg:?} of {} is {}, expected {}", brief(&body), brief(&whole), brief(&e[0])));
        let sizes: &[usize] = if body.len() > 20000 { &[256, 4096, 65536, 997] } else { &[1, 2, 3, 5, 16, 255, 256, 257, 4096] };
        for &size in sizes {
            let ch: Vec<&[u8]> = body.chunks(size).collect();
            let o = canon_chunks(alg, &ch);
            rep.check("P02", o == whole, || format!("{alg:?} of {} in chunks of {size} differs", brief(&body)));
        }
        for _ in 0..4 {
            let ch = random_chunks(&mut rng, &body);
            let o = canon_chunks(alg, &ch);
            rep.check("P02", o == whole, || format!("{alg:?} of {} in random chunks differs", brief(&body)));
        }
        rep.count("canonicalizations", 10);
        // hashing with limits around the whole length, the body with l= around 8/16/32 bit borders
        let full = &whole;
        let mut lims = vec![None, Some(0), Some(full.len()), Some(full.len() + 1), Some(full.len() / 2), Some(usize::MAX), Some(u32::MAX as usize + 1)];
        if !full.is_empty() {
            lims.push(Some(full.len() - 1));
        }
        for forbid in [false, true] {
            let mut b = BodyHasherBuilder::new(forbid);
            for &l in &lims {
                b.register_canonicalization(l, HashAlgorithm::Sha256, alg);
            }
            let mut h = b.build();
            for c in random_chunks(&mut rng, &body) {
                let _ = h.hash_chunk(c);
            }
            let res = h.finish();
            for &l in &lims {
                let want: Result<&[u8], BodyHashError> = match l {
                    None => Ok(full),
                    Some(l) if l > full.len() => Err(BodyHashError::InsufficientInput),
                    Some(l) if forbid && l < full.len() => Err(BodyHashError::InputTruncated),
                    Some(l) => Ok(&full[..l]),
                };
                let got = res.get(&(l, HashAlgorithm::Sha256, alg));
                let ok = match (got, want) {
                    (Some(Ok((h, n))), Ok(w)) => *n == w.len() && h[..] == sha256(w)[..],
                    (Some(Err(e)), Err(w)) => *e == w,
                    _ => false,
                };
                rep.check("P03", ok, || format!("{alg:?} limit {l:?} forbid={forbid} of {}: got {got:?}", brief(&body)));
                rep.count("hasher_results", 1);
            }
        }
    }
}

pub fn random_chunks<'a>(rng: &mut Rng, body: &'a [u8]) -> Vec<&'a [u8]> {
    let mut res = vec![];
    let mut rest = body;
    let max = *rng.pick(&[1usize, 2, 3, 7, 30, 300, 5000, 100000]);
    let max = if body.len() / max > 3000 { body.len() / 1000 } else { max };
    while !rest.is_empty() {
        let lo = if rng.chance(1, 6) { 0 } else { 1 };
        let n = rng.range(lo, max).min(rest.len());
        res.push(&rest[..n]);
        rest = &rest[n..];
    }
    if rng.chance(1, 4) {
        res.push(b"");
    }
    res
}

fn random_body(rng: &mut Rng) -> Vec<u8> {
    let toks: [&[u8]; 16] = [b"\r\n", b"\r\n", b"\r\n\r\n", b"\r", b"\n", b" ", b"\t", b" \t  ", b"a", b"bc", b"\xff", b"\0", b"word", b" \r\n", b".", b"\x0b\x0c"];
    let n = rng.range(0, 24);
    let mut out = vec![];
    let focus = rng.below(4);
    for _ in 0..n {
        let t = match focus {
            0 => toks[rng.below(7)],
            _ => toks[rng.below(16)],
        };
        out.extend(t);
    }
    out
}

/// Random body hasher sessions, recorded event by event for validation by TLC.
pub fn record_hasher(seed: u64, n: usize) -> Vec<Value> {
    let mut res = vec![];
    for i in 0..n {
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64), "hasher");
        let body = random_body(&mut rng);
        let forbid = rng.chance(1, 2);
        let mut reqs: Vec<(Option<usize>, CanonicalizationAlgorithm, u32)> = vec![];
        for _ in 0..rng.range(0, 4) {
            let alg = if rng.chance(1, 2) { Simple } else { Relaxed };
            let full = canon_chunks(alg, &[&body]).len();
            let lim = match rng.below(7) {
                0 => None,
                1 => Some(0),
                2 => Some(full),
                3 => Some(full + 1),
                4 => Some(full.saturating_sub(1)),
                5 => Some(rng.range(0, full + 3)),
                _ => Some(rng.range(0, full)),
            };
            let bits = if cfg!(feature = "pre-rfc8301") && rng.chance(1, 2) { 160 } else { 256 };
            if !reqs.contains(&(lim, alg, bits)) {
                reqs.push((lim, alg, bits));
            }
        }
        let stop = rng.chance(1, 2);
        let chunks = random_chunks(&mut rng, &body);
        res.push(run_hasher(&reqs, forbid, &chunks, stop));
    }
    res
}

fn alg_of(bits: u32) -> HashAlgorithm {
    match bits {
        256 => HashAlgorithm::Sha256,
        #[cfg(feature = "pre-rfc8301")]
        160 => HashAlgorithm::Sha1,
        _ => panic!("HARNESS: hash"),
    }
}

fn run_hasher(reqs: &[(Option<usize>, CanonicalizationAlgorithm, u32)], forbid: bool, chunks: &[&[u8]], stop: bool) -> Value {
    let r = std::panic::catch_unwind(|| {
        let mut ev = vec![];
        let mut b = BodyHasherBuilder::new(forbid);
        for &(l, c, h) in reqs {
            b.register_canonicalization(l, alg_of(h), c);
        }
        let mut h = b.build();
        for c in chunks {
            let st = h.hash_chunk(c);
            ev.push(json!({"d": ints(c), "done": st == BodyHasherStance::Done}));
            if stop && st == BodyHasherStance::Done {
                break;
            }
        }
        let out = h.finish();
        let results: Vec<Value> = reqs
            .iter()
            .map(|&(l, c, h)| match out.get(&(l, alg_of(h), c)) {
                None => json!({"r": "none", "n": 0, "h": ""}),
                Some(Ok((hash, n))) => json!({"r": "ok", "n": n, "h": hex(hash)}),
                Some(Err(BodyHashError::InsufficientInput)) => json!({"r": "insufficient", "n": 0, "h": ""}),
                Some(Err(BodyHashError::InputTruncated)) => json!({"r": "truncated", "n": 0, "h": ""}),
            })
            .collect();
        (ev, results)
    });
    let jr: Vec<Value> = reqs
        .iter()
        .map(|&(l, c, h)| {
            json!({"lim": l.map_or(-1, |x| x as i64), "alg": if c == Simple { "simple" } else { "relaxed" }, "bits": h})
        })
        .collect();
    let rest: Vec<u8> = chunks.concat();
    match r {
        Ok((ev, results)) => json!({"forbid": forbid, "reqs": jr, "ev": ev, "res": results, "all": ints(&rest), "panic": ""}),
        Err(_) => {
            let m = PANIC_MSG.with(|p| p.borrow().clone());
            json!({"forbid": forbid, "reqs": jr, "ev": [], "res": [], "all": ints(&rest), "panic": m})
        }
    }
}

#[allow(dead_code)]
pub type Prefixes = HashMap<Vec<u8>, [usize; 4]>;
