//! Hostile input (P28): each case is made from (seed, number); its outcome is judged by spec/Shape.tla.
use crate::{body::random_chunks, ctx::*, keys, ver};
use serde_json::{json, Value};
use std::{
    collections::HashSet,
    fmt::Debug,
    future::Future,
    hint::black_box,
    io::{self, ErrorKind},
    panic::{self, AssertUnwindSafe},
    pin::Pin,
    str::FromStr,
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
    task::{Context, Poll, Wake, Waker},
    time::{Duration, Instant, SystemTime},
};
use viadkim::{
    crypto::{HashAlgorithm, SigningKey},
    header::{FieldBody, FieldName, HeaderFields},
    message_hash::{body_hasher_key, BodyHashError, BodyHasherBuilder, BodyHasherStance},
    quoted_printable,
    record::DkimKeyRecord,
    signature::{
        Canonicalization, CanonicalizationAlgorithm, DkimSignature, DomainName, Identity, Selector, SigningAlgorithm,
    },
    signer::{BodyLength, HeaderSelection, OutputFormat, SignRequest, Timestamp},
    verifier::{Config, LookupTxt},
    Signer, Verifier,
};

// ------------------------------------------------------------------ hostile text

const PIECES: &[&str] = &[
    "v=1", "a=rsa-sha256", "a=ed25519-sha256", "a=rsa-sha1", "a=", "b=", "bh=", "c=relaxed/simple", "c=/", "d=", "d=xn--", "h=from:to", "h=:", "h=From",
    "i=@", "i=\"a b\"@a.example", "i=a@b@c", "l=", "l=0", "l=18446744073709551615", "l=18446744073709551616", "l=-1", "q=dns/txt", "q=:", "s=", "t=0",
    "t=99999999999", "x=0", "x=18446744073709551615", "x=184467440737095516150000000", "z=From:x|", "z==", "z=|", "z=a:=FF|b:=0D=0A", "=", ";", ";;", ":", "::", "|",
    " ", "\t", "\r", "\n", "\r\n", "\r\n ", "\r\n\t", "\r\n \r\n ", "\0", "\u{7f}", "\u{80}", "\u{a0}", "\u{2028}", "\u{feff}", "ä", "例え", "\u{10ffff}", "ß", "İ", "K",
    "=0D=0A", "=3", "=", "=ZZ", "=3d", "=3D", "=\r\n", "==", "====", "A", "AA", "AAA", "AAAA", "AA==", "AAA=", "+/", "-_", "%", "\\", "\"", "'", "@", ".", "..",
    "xn--", "xn--a", "xn--zzzzzzz", "xn--mgbh0fb", "_domainkey", "k=rsa", "k=", "p=", "p=AAAA", "n=", "n==41", "s=email", "s=*", "s=:", "t=s", "t=y:s", "t=:", "h=sha256", "h=sha1:x",
    "v=DKIM1", "v=DKIM2", "g=*", "From", "from", "DKIM-Signature", "a.example", "1", "0", "123", "x-", "--", "\u{ad}",
];
const LONG: &[usize] = &[2, 3, 10, 63, 64, 70, 78, 253, 255, 256, 998, 1000, 4096, 20000];

fn piece(rng: &mut Rng) -> Vec<u8> {
    match rng.below(12) {
        0 => vec![rng.below(256) as u8],
        1 => (0..rng.range(1, 8)).map(|_| rng.below(256) as u8).collect(),
        2 => {
            let p = rng.pick(PIECES).as_bytes().to_vec();
            let n = *rng.pick(LONG);
            p.repeat(n.min(40000 / p.len()))
        }
        3 => "a".repeat(*rng.pick(LONG)).into_bytes(),
        _ => rng.pick(PIECES).as_bytes().to_vec(),
    }
}

fn spoil(rng: &mut Rng, mut t: Vec<u8>, n: usize) -> Vec<u8> {
    for _ in 0..n {
        let at = rng.below(t.len() + 1);
        let to = (at + rng.range(1, 12)).min(t.len());
        match rng.below(8) {
            0 => drop(t.drain(at..to)),
            1 => t.truncate(at),
            2 => {
                let d: Vec<u8> = t[at..to].repeat(rng.range(1, 3));
                t.splice(at..at, d);
            }
            3 if at < t.len() => t[at] ^= 1 << rng.below(8),
            4 if at < t.len() => t[at] = rng.below(256) as u8,
            5 if at < to => {
                let d: Vec<u8> = t[at..to].repeat(*rng.pick(LONG));
                t.splice(at..at, d);
            }
            _ => {
                let p = piece(rng);
                t.splice(at..at, p);
            }
        }
    }
    t.truncate(200_000);
    t
}

fn text(rng: &mut Rng) -> Vec<u8> {
    let mut t = vec![];
    for _ in 0..rng.below(8) {
        t.extend(piece(rng));
    }
    t.truncate(200_000);
    t
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn domain(rng: &mut Rng) -> String {
    let names = ["a.example", "b.example", "sub.a.example", "例え.jp", "xn--r8jz45g.jp", "A.EXAMPLE", "com", "1.2.3", "x--y.z"];
    match rng.below(6) {
        0 => lossy(&text(rng)),
        1 => {
            let l = "a".repeat(rng.range(1, 64));
            [&l[..]; 5][..rng.range(1, 5)].join(".")
        }
        _ => rng.pick(&names).to_string(),
    }
}

fn signature_text(rng: &mut Rng) -> Vec<u8> {
    let a = *rng.pick(&["rsa-sha256", "ed25519-sha256", "rsa-sha256", "ed25519-sha256", "rsa-sha256", "rsa-sha256", "rsa-sha256", "ed25519-sha256", "rsa-sha1", "rsa"]);
    let n = *rng.pick(&[0, 1, 32, 63, 64, 64, 64, 65, 127, 128, 128, 128, 129, 256, 512, 5000]);
    let b = keys::b64(&(0..n).map(|_| rng.below(256) as u8).collect::<Vec<_>>());
    let bh = keys::b64(&(0..*rng.pick(&[0, 1, 20, 31, 32, 32, 32, 32, 32, 32, 32, 33])).map(|_| rng.below(256) as u8).collect::<Vec<_>>());
    let d = if rng.chance(1, 5) { domain(rng) } else { "a.example".into() };
    let s = if rng.chance(1, 8) { domain(rng) } else { rng.pick(&["s1", "s2", "s3"]).to_string() };
    let mut h = rng.pick(&["From", "From:To:Subject", "from:from:from", "From:DKIM-Signature", "From:", " From : To "]).to_string();
    if rng.chance(1, 20) {
        h = format!("From{}", ":From:x".repeat(3000));
    }
    let mut tags = vec![
        "v=1".to_string(), format!("a={a}"), format!("d={d}"), format!("s={s}"), format!("h={h}"), format!("bh={bh}"),
        format!("c={}", rng.pick(&["relaxed/relaxed", "simple/simple", "simple", "relaxed"])),
    ];
    if rng.chance(1, 3) {
        tags.push(format!("l={}", rng.pick(&["0", "1", "10", "4294967296", "18446744073709551615", "9223372036854775808", "1000000"])));
    }
    if rng.chance(1, 3) {
        tags.push(format!("t={}", rng.pick(&["0", "1600000000", "18446744073709551615", "18446744073709551614"])));
    }
    if rng.chance(1, 3) {
        tags.push(format!("x={}", rng.pick(&["1", "1600000001", "18446744073709551615", "9999999999"])));
    }
    if rng.chance(1, 4) {
        tags.push(format!("i=u@{d}"));
    }
    if rng.chance(1, 4) {
        tags.push(format!("z=From:{}", "=20=FF".repeat(*rng.pick(&[0, 1, 1000]))));
    }
    for i in 0..*rng.pick(&[0, 0, 1, 3, 2000]) {
        tags.push(format!("y{i}={}", rng.pick(&["", "x", "x y"])));
    }
    let at = rng.below(tags.len() + 1);
    tags.insert(at, format!("b={b}"));
    let t = tags.join(rng.pick(&[";", "; ", ";\r\n\t"])).into_bytes();
    let n = *rng.pick(&[0, 0, 0, 0, 0, 0, 1, 2, 5]);
    spoil(rng, t, n)
}

fn der(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    match body.len() {
        n @ 0..=127 => v.push(n as u8),
        n @ 128..=255 => v.extend([0x81, n as u8]),
        n => v.extend([0x82, (n >> 8) as u8, n as u8]),
    }
    v.extend(body);
    v
}

fn key_data(rng: &mut Rng) -> Vec<u8> {
    let int = |rng: &mut Rng| -> Vec<u8> {
        let n = *rng.pick(&[0, 1, 1, 2, 3, 8, 16, 64, 127, 128, 129, 255, 256, 257, 512, 513, 1024, 2048, 8000]);
        let mut v: Vec<u8> = match rng.below(5) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            _ => (0..n).map(|_| rng.below(256) as u8).collect(),
        };
        if n > 0 && rng.chance(2, 3) {
            v[0] &= 0x7f;
            v[0] |= 0x40;
        }
        if n > 0 && rng.chance(1, 2) {
            v[n - 1] |= 1;
        }
        v
    };
    match rng.below(7) {
        0 => text(rng),
        1 => vec![*rng.pick(&[0, 1, 2, 0xed, 0xff, 0x80]); *rng.pick(&[0, 1, 31, 32, 32, 32, 33])],
        2 => (0..32).map(|_| rng.below(256) as u8).collect(),
        3 => {
            let id = *rng.pick(&["rsa512", "rsa1016", "rsa1024", "rsa2048", "rsa384"]);
            let bits = id[3..].parse().unwrap();
            let k = keys::public(id, rng.pick(&["spki", "pkcs1"]), bits);
            let n = rng.below(3);
            spoil(rng, k, n)
        }
        _ => {
            let n = int(rng);
            let e = match rng.below(4) {
                0 => int(rng),
                1 => vec![1],
                2 => vec![2],
                _ => vec![1, 0, 1],
            };
            let mut k = der(0x30, &[der(2, &n), der(2, &e)].concat());
            if rng.chance(1, 2) {
                let oid = [0x30, 13, 6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 13, 1, 1, 1, 5, 0];
                k = der(0x30, &[&oid[..], &der(3, &[&[0], &k[..]].concat())].concat());
            }
            k
        }
    }
}

fn record_text(rng: &mut Rng) -> Vec<u8> {
    if rng.chance(1, 10) {
        return text(rng);
    }
    let mut tags = vec![format!("p={}", keys::b64(&key_data(rng)))];
    for (p, t) in [(2, "v=DKIM1"), (3, "k=rsa"), (4, "k=ed25519"), (5, "h=sha256:sha1"), (5, "s=*:email"), (6, "t=s"), (6, "n==20x"), (20, "h=sha1")] {
        if rng.chance(1, p) {
            let at = if t.starts_with('v') { 0 } else { rng.below(tags.len() + 1) };
            tags.insert(at, t.into());
        }
    }
    let t = tags.join(rng.pick(&[";", "; "])).into_bytes();
    let n = *rng.pick(&[0, 0, 0, 1, 3]);
    spoil(rng, t, n)
}

fn headers(rng: &mut Rng) -> Vec<(String, Vec<u8>)> {
    let mut hs: Vec<(String, Vec<u8>)> = vec![("From".into(), b" a@a.example".to_vec()), ("To".into(), b" b".to_vec())];
    let others = *rng.pick(&[0, 0, 1, 3, 10, 2000]);
    for _ in 0..others {
        let n = rng.pick(&["Subject", "from", "Received", "X", "DKIM-Signature-", "To"]).to_string();
        let v = if others > 100 { b" x".to_vec() } else { text(rng) };
        hs.push((n, v));
    }
    if rng.chance(1, 10) {
        hs.push((lossy(&text(rng)), text(rng)));
    }
    for _ in 0..*rng.pick(&[0, 1, 1, 1, 2, 3, 8, 50]) {
        let n = rng.pick(&["DKIM-Signature", "dkim-signature", "DKIM-SIGNATURE", "Dkim-Signature"]).to_string();
        let at = rng.below(hs.len() + 1);
        let v = signature_text(rng);
        hs.insert(at, (n, v));
    }
    if rng.chance(1, 40) {
        for _ in 0..3000 {
            hs.push(("DKIM-Signature".into(), if rng.chance(1, 2) { b"".to_vec() } else { b"v=1;a=rsa-sha256;b=A;bh=".to_vec() }));
        }
    }
    hs
}

fn body(rng: &mut Rng) -> Vec<u8> {
    let mut t = text(rng);
    if rng.chance(1, 6) {
        t = rng.pick(&["\r\n", " \t", "a\r\n", "\r", "\n", "\r\n ", " \r\n", "a"]).as_bytes().repeat(rng.below(60000));
    }
    let n = rng.below(3);
    spoil(rng, t, n)
}

// ------------------------------------------------------------------ what is done

fn calls(out: &mut Vec<Value>, name: &str, r: Result<String, String>) {
    black_box(&r);
    out.push(json!([name, if r.is_ok() { "ok" } else { "err" }]));
}
fn shown<T: Debug, E: Debug>(r: Result<T, E>) -> Result<String, String> {
    r.map(|x| format!("{x:?}")).map_err(|e| format!("{e:?}"))
}

fn parse_case(rng: &mut Rng) -> Value {
    let raw = match rng.below(9) {
        0 | 1 => signature_text(rng),
        2 => record_text(rng),
        3 => domain(rng).into_bytes(),
        4 => format!("{}@{}", lossy(&text(rng)), domain(rng)).into_bytes(),
        5 => {
            let mut v = vec![];
            for (n, x) in headers(rng).into_iter().take(8) {
                v.extend(n.into_bytes());
                v.extend(b":");
                v.extend(x);
                v.extend(rng.pick(&["\r\n", "\r\n", "\r\n", "\n", "\r", ""]).as_bytes());
            }
            v
        }
        6 => {
            let k = keys::pem(rng.pick(&["rsa1024", "ed1"])).into_bytes();
            let n = rng.below(4);
            spoil(rng, k, n)
        }
        _ => text(rng),
    };
    let t = lossy(&raw);
    let mut out = vec![];
    let c = &mut out;
    calls(c, "HeaderFields", shown(HeaderFields::from_str(&t)));
    calls(c, "FieldName", shown(FieldName::new(&t[..])));
    calls(c, "FieldBody", shown(FieldBody::new(&raw[..])));
    let hs: Vec<(String, Vec<u8>)> = t.split(';').map(|x| (x.chars().take(9).collect(), x.as_bytes().to_vec())).collect();
    calls(c, "HeaderFields::from_vec", shown(HeaderFields::from_vec(hs)));
    match DkimSignature::from_str(&t) {
        Ok(s) => {
            black_box(body_hasher_key(&s));
            black_box(s.domain.to_unicode());
            calls(c, "DkimSignature", Ok(format!("{s:?}")));
        }
        Err(e) => {
            black_box((e.to_string(), e.kind.to_string()));
            calls(c, "DkimSignature", Err(format!("{e:?}")));
        }
    }
    calls(c, "DkimKeyRecord", shown(DkimKeyRecord::from_str(&t)).map_err(|e| e.to_string()));
    let d = DomainName::new(&t[..]);
    if let Ok(d) = &d {
        black_box((d.to_ascii(), d.to_unicode(), d.eq_or_subdomain_of(d), d == d));
    }
    calls(c, "DomainName", shown(d));
    let d = Selector::new(&t[..]);
    if let Ok(d) = &d {
        black_box((d.to_ascii(), d.to_unicode(), d == d));
    }
    calls(c, "Selector", shown(d));
    let d = Identity::new(&t);
    if let Ok(d) = &d {
        black_box((d.to_string(), d.domain.to_unicode()));
    }
    calls(c, "Identity", shown(d));
    calls(c, "quoted_printable", shown(quoted_printable::decode(&t)));
    calls(c, "quoted_printable::encode", Ok(quoted_printable::encode(&raw, Some('|'))));
    calls(c, "SigningKey", SigningKey::from_pkcs8_pem(&t).map(|k| format!("{k:?}")).map_err(|e| e.to_string()));
    calls(c, "CanonicalizationAlgorithm", shown(CanonicalizationAlgorithm::from_str(&t)));
    calls(c, "Canonicalization", shown(Canonicalization::from_str(&t)));
    calls(c, "SigningAlgorithm", shown(SigningAlgorithm::from_str(&t)));
    json!({"kind": "parse", "calls": out})
}

/// Resolver whose answers may fail, be huge, late, or never come.
#[derive(Clone)]
struct Hostile(Arc<HostileDns>);
struct HostileDns {
    seed: u64,
    asked: AtomicUsize,
    never: bool,
    sleeps: bool,
    wakes: bool,
}
struct Pend(usize, bool);
impl Future for Pend {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        for _ in 0..if self.1 { 3 } else { 1 } {
            cx.waker().wake_by_ref();
        }
        Poll::Pending
    }
}
impl LookupTxt for Hostile {
    type Answer = Vec<io::Result<Vec<u8>>>;
    type Query<'a> = Pin<Box<dyn Future<Output = io::Result<Self::Answer>> + Send + 'a>>;
    fn lookup_txt(&self, domain: &str) -> Self::Query<'_> {
        let mut rng = Rng::new(self.0.seed, domain);
        self.0.asked.fetch_add(1, Ordering::SeqCst);
        Box::pin(async move {
            if self.0.never && rng.chance(1, 3) {
                std::future::pending::<()>().await;
            }
            if self.0.sleeps && rng.chance(1, 2) {
                tokio::time::sleep(*rng.pick(&[Duration::ZERO, Duration::from_millis(1), Duration::from_secs(5), Duration::from_secs(10_000)])).await;
            }
            Pend(rng.below(4), self.0.wakes).await;
            let kinds = [
                ErrorKind::NotFound, ErrorKind::InvalidInput, ErrorKind::TimedOut, ErrorKind::Other, ErrorKind::ConnectionReset, ErrorKind::OutOfMemory,
                ErrorKind::InvalidData, ErrorKind::UnexpectedEof,
            ];
            if rng.chance(1, 6) {
                let k = *rng.pick(&kinds);
                return Err(if rng.chance(1, 2) { k.into() } else { io::Error::new(k, "hostile") });
            }
            let n = *rng.pick(&[0, 1, 1, 1, 2, 3, 4, 3000]);
            Ok((0..n)
                .map(|i| match rng.below(8) {
                    0 => Err((*rng.pick(&kinds)).into()),
                    1 => Ok(text(&mut rng)),
                    _ if i > 50 => Ok(b"v=DKIM1;p=".to_vec()),
                    _ => Ok(record_text(&mut rng)),
                })
                .collect())
        })
    }
}

fn duration(rng: &mut Rng) -> Duration {
    *rng.pick(&[
        Duration::ZERO, Duration::from_nanos(1), Duration::from_millis(1), Duration::from_secs(10), Duration::from_secs(600), Duration::from_secs(1 << 40),
        Duration::MAX, Duration::new(u64::MAX, 0), Duration::new(u64::MAX - 1_600_000_000, 999_999_999), Duration::from_secs(i64::MAX as u64),
    ])
}

fn config(rng: &mut Rng) -> Config {
    let names = |rng: &mut Rng| -> Vec<FieldName> {
        let n = *rng.pick(&[0, 1, 3, 500]);
        (0..n).map(|_| FieldName::new(*rng.pick(&["From", "to", "Subject", "DKIM-Signature", "x;y", "~"])).unwrap()).collect()
    };
    let mut c = Config::default();
    if rng.chance(1, 3) {
        c.lookup_timeout = duration(rng);
    }
    c.max_signatures = *rng.pick(&[0, 1, 2, 10, 10, 10, 1000, usize::MAX, usize::MAX - 1]);
    if rng.chance(1, 4) {
        c.headers_required_in_signature = names(rng);
        c.headers_forbidden_to_be_unsigned = names(rng);
    }
    c.min_key_bits = *rng.pick(&[0, 0, 512, 1024, 2048, usize::MAX]);
    c.allow_sha1 = rng.chance(1, 2);
    c.forbid_unsigned_content = rng.chance(1, 3);
    c.allow_expired = rng.chance(1, 2);
    c.allow_timestamp_in_future = rng.chance(1, 2);
    c.time_tolerance = duration(rng);
    c.fixed_system_time = match rng.below(6) {
        0 => None,
        1 => SystemTime::UNIX_EPOCH.checked_sub(Duration::from_secs(*rng.pick(&[1, 1000, 1 << 40, i64::MAX as u64]))),
        2 => SystemTime::UNIX_EPOCH.checked_add(Duration::new(*rng.pick(&[i64::MAX as u64, 1 << 40, 253402300800]), 999_999_999)),
        3 => Some(SystemTime::UNIX_EPOCH),
        _ => SystemTime::UNIX_EPOCH.checked_add(Duration::from_secs(1_600_000_000)),
    };
    c
}

struct Noop;
impl Wake for Noop {
    fn wake(self: Arc<Self>) {}
}
/// Polls at most n times, then drops.
fn poll_some<F: Future>(f: F, n: usize) -> Option<F::Output> {
    let w = Waker::from(Arc::new(Noop));
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    for _ in 0..n {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return Some(x);
        }
    }
    None
}

fn cap(n: u128) -> i64 {
    n.min(1 << 30) as i64
}

fn verify_case(rng: &mut Rng) -> Value {
    let mut hs = headers(rng);
    let mut headers = HeaderFields::from_vec(hs.clone());
    if headers.is_err() {
        // only legal fields
        hs.retain(|(n, v)| FieldName::new(&n[..]).is_ok() && FieldBody::new(&v[..]).is_ok());
        headers = HeaderFields::from_vec(hs.clone());
    }
    let Ok(headers) = headers else { return json!({"kind": "parse", "calls": [["HeaderFields::from_vec", "err"]]}) };
    let positions: Vec<usize> = (0..hs.len()).filter(|&k| hs[k].0.eq_ignore_ascii_case("dkim-signature")).collect();
    let cfg = config(rng);
    let b = body(rng);
    let chunks = random_chunks(rng, &b);
    let timed = rng.chance(2, 3);
    let finite = cfg.lookup_timeout <= Duration::from_secs(600);
    let dns = HostileDns { seed: rng.next(), asked: AtomicUsize::new(0), never: timed && finite, sleeps: timed, wakes: rng.chance(1, 2) };
    let dns = Hostile(Arc::new(dns));
    let cancel = rng.chance(1, 8);
    let polls = if cancel { rng.below(4) } else { 100_000 };
    let (v, elapsed) = if timed {
        ver::run_paused(async {
            let t = tokio::time::Instant::now();
            let f = Verifier::verify_header(&dns, &headers, &cfg);
            let v = if cancel { poll_some(f, polls) } else { Some(f.await) };
            (v, t.elapsed())
        })
    } else {
        (poll_some(Verifier::verify_header(&dns, &headers, &cfg), polls), Duration::ZERO)
    };
    let mut out = json!({
        "kind": "verify", "pos": positions, "max": cap(cfg.max_signatures as u128), "timeout": cap(cfg.lookup_timeout.as_millis()),
        "cancel": cancel, "out": "cancelled", "done": [], "idx": [], "st": [], "sig": [], "rec": [], "asked": dns.0.asked.load(Ordering::SeqCst),
        "elapsed": cap(elapsed.as_millis()), "slow": timed,
    });
    let Some(v) = v else { return out };
    let Some(mut v) = v else {
        out["out"] = json!("none");
        return out;
    };
    let mut done = vec![];
    let end = rng.below(4);
    for c in &chunks {
        done.push(v.process_body_chunk(c) == BodyHasherStance::Done);
    }
    if end == 0 {
        // more of anything
        for _ in 0..3 {
            done.push(v.process_body_chunk(&body(rng)) == BodyHasherStance::Done);
        }
    }
    done.truncate(200);
    out["done"] = json!(done);
    if end == 1 {
        drop(v);
        out["out"] = json!("dropped");
        return out;
    }
    let rs = v.finish();
    out["out"] = json!("results");
    for r in &rs {
        black_box(format!("{r:?} {}", r.status.to_dkim_result()));
        if let viadkim::VerificationStatus::Failure(e) = &r.status {
            black_box(e.to_string());
        }
    }
    out["idx"] = rs.iter().map(|r| r.index).collect();
    out["st"] = rs.iter().map(|r| ver::status_name(&r.status)).collect();
    out["sig"] = rs.iter().map(|r| r.signature.is_some()).collect();
    out["rec"] = rs.iter().map(|r| r.key_record.is_some()).collect();
    out
}

fn sign_case(rng: &mut Rng) -> Value {
    let hs: Vec<(String, Vec<u8>)> = headers(rng).into_iter().filter(|(n, v)| FieldName::new(&n[..]).is_ok() && FieldBody::new(&v[..]).is_ok()).collect();
    let size: usize = hs.iter().map(|h| h.0.len() + h.1.len()).sum();
    let Ok(headers) = HeaderFields::from_vec(hs) else { return json!({"kind": "parse", "calls": [["HeaderFields::from_vec", "err"]]}) };
    let n = *rng.pick(&[0, 1, 1, 1, 1, 1, 1, 1, 2, 2, 3, 3, 10, 11, 100]);
    let mut reqs = vec![];
    for _ in 0..n {
        let alg = *rng.pick(&[SigningAlgorithm::RsaSha256, SigningAlgorithm::Ed25519Sha256]);
        let mut id = if alg == SigningAlgorithm::Ed25519Sha256 { "ed1" } else { *rng.pick(&["rsa1024", "rsa1016", "rsa512", "rsa384", "rsa1024"]) };
        if rng.chance(1, 40) {
            id = if id == "ed1" { "rsa1024" } else { "ed1" };
        }
        let key = Arc::new(SigningKey::from_pkcs8_pem(&keys::pem(id)).expect("HARNESS: key"));
        let d = DomainName::new(domain(rng)).unwrap_or_else(|_| DomainName::new("a.example").unwrap());
        let s = Selector::new(domain(rng)).unwrap_or_else(|_| Selector::new("s").unwrap());
        let mut r = SignRequest::new(d.clone(), s, alg, key);
        r.canonicalization = Canonicalization::from((
            *rng.pick(&[CanonicalizationAlgorithm::Simple, CanonicalizationAlgorithm::Relaxed]),
            *rng.pick(&[CanonicalizationAlgorithm::Simple, CanonicalizationAlgorithm::Relaxed]),
        ));
        if rng.chance(1, 3) {
            let k = *rng.pick(&[0, 1, 5, 5000]);
            let mut l: Vec<FieldName> = (0..k)
                .map(|_| FieldName::new(*rng.pick(&["From", "to", "Subject", "DKIM-Signature", "~", "abcdefghijklmnopqrstuvwxyz-abcdefghijklmnopqrstuvwxyz-abcdefghijklmnopqrstuvwxyz"])).unwrap())
                .collect();
            if rng.chance(14, 15) {
                l.push(FieldName::new("From").unwrap());
            }
            if rng.chance(1, 10) {
                l.push(FieldName::new("x".repeat(*rng.pick(LONG))).unwrap());
            }
            r.header_selection = HeaderSelection::Manual(l);
        }
        r.identity = match rng.below(5) {
            0 => Identity::new(&format!("{}@{}", lossy(&text(rng)), d.as_ref())).ok(),
            1 => Some(Identity::from_domain(d)),
            2 => Identity::new(&format!("\"{}\"@{}", "ä ".repeat(*rng.pick(LONG)), d.as_ref())).ok(),
            _ => None,
        };
        r.body_length = match rng.below(6) {
            0 => BodyLength::MessageContent,
            1 => BodyLength::Exact(*rng.pick(&[0, 1, 10, 1 << 32, u64::MAX, u64::MAX - 1, 1 << 63])),
            _ => BodyLength::NoLimit,
        };
        r.timestamp = match rng.below(4) {
            0 => Timestamp::None,
            1 => Timestamp::Exact(*rng.pick(&[0, 1, u64::MAX, u64::MAX - 1, 1 << 63])),
            _ => Timestamp::Now,
        };
        r.valid_duration = match rng.below(3) {
            0 | 1 => None,
            _ if rng.chance(5, 6) => Some(Duration::from_secs(1 << rng.below(64))),
            _ => Some(duration(rng)),
        };
        r.copy_headers = rng.chance(1, 3) && size < 5_000;
        for i in 0..*rng.pick(&[0, 0, 0, 0, 1, 3, 1000]) {
            let name = if rng.chance(1, 100) { lossy(&text(rng)) } else { format!("y{i}") };
            let val = if rng.chance(1, 100) {
                lossy(&text(rng))
            } else {
                rng.pick(&["", "x", "x y", "x\r\n y", "ä"]).to_string()
            };
            r.ext_tags.push((name, val));
        }
        if rng.chance(1, 30) {
            r.ext_tags.push(("big".into(), "x".repeat(100_000)));
        }
        r.format = OutputFormat {
            header_name: if rng.chance(1, 40) { lossy(&text(rng)) } else { rng.pick(&["DKIM-Signature", "dkim-signature"]).to_string() },
            line_width: rng.pick(&[1, 2, 5, 15, 16, 40, 78, 998, usize::MAX, usize::MAX - 1, 1 << 31]).to_owned().try_into().unwrap(),
            indentation: if rng.chance(1, 40) { lossy(&text(rng)) } else { rng.pick(&["\t", " ", "  ", "\t\t \t"]).repeat(*rng.pick(&[1, 1, 1, 2, 20, 200])) },
            tag_order: match rng.below(5) {
                0 => Some(Box::new(|a, b| b.cmp(a))),
                1 => Some(Box::new(|_, _| std::cmp::Ordering::Equal)),
                2 => Some(Box::new(|a, b| (a == "b").cmp(&(b == "b")))),
                _ => None,
            },
            ascii_only: rng.chance(1, 2),
        };
        reqs.push(r);
    }
    let mut out = json!({"kind": "sign", "requests": n, "prep": "", "done": [], "out": "", "errs": [], "ok": []});
    let mut s = match Signer::prepare_signing(headers, reqs) {
        Ok(s) => s,
        Err(e) => {
            black_box(e.to_string());
            out["prep"] = json!(format!("{e:?}"));
            return out;
        }
    };
    let b = body(rng);
    let mut done = vec![];
    for c in random_chunks(rng, &b) {
        done.push(s.process_body_chunk(c) == BodyHasherStance::Done);
    }
    done.truncate(200);
    out["done"] = json!(done);
    match rng.below(8) {
        0 => {
            drop(s);
            out["out"] = json!("dropped");
            return out;
        }
        1 => {
            // abandoned while signing, or finished at once
            match poll_some(s.sign(), rng.below(2)) {
                None => out["out"] = json!("cancelled"),
                Some(rs) => finish(&mut out, rs),
            }
        }
        2 => {
            let rs = ver::run_paused(s.sign());
            finish(&mut out, rs);
        }
        _ => {
            let rs = ver::run_plain(s.sign());
            finish(&mut out, rs);
        }
    }
    out
}

fn finish(out: &mut Value, rs: Vec<Result<viadkim::SigningOutput, viadkim::SigningError>>) {
    out["out"] = json!("results");
    out["errs"] = rs.iter().map(|r| r.as_ref().err().map_or(String::new(), |e| format!("{e:?}"))).collect();
    out["ok"] = rs
        .iter()
        .map(|r| match r {
            // what was made can be read
            Ok(o) => {
                if o.header_value.len() < 100_000 {
                    black_box(format!("{} {o:?}", o.format_header()));
                }
                let f = o.to_header_field();
                black_box(HeaderFields::new(vec![f]).is_ok());
                DkimSignature::from_str(&o.header_value).is_ok()
            }
            Err(e) => {
                black_box(e.to_string());
                true
            }
        })
        .collect();
}

fn body_case(rng: &mut Rng) -> Value {
    let forbid = rng.chance(1, 2);
    let mut builder = BodyHasherBuilder::new(forbid);
    let mut keys = HashSet::new();
    for _ in 0..*rng.pick(&[0, 1, 2, 5, 40]) {
        let len = *rng.pick(&[None, None, Some(0), Some(1), Some(2), Some(1000), Some(100_000), Some(usize::MAX), Some(usize::MAX - 1), Some(1 << 31)]);
        let alg = *rng.pick(&[CanonicalizationAlgorithm::Simple, CanonicalizationAlgorithm::Relaxed]);
        let hash = *rng.pick(HashAlgorithm::all().as_slice());
        builder.register_canonicalization(len, hash, alg);
        keys.insert((len, hash, alg));
    }
    let mut h = builder.build();
    let b = body(rng);
    let mut done = vec![];
    for c in random_chunks(rng, &b) {
        done.push(h.hash_chunk(c) == BodyHasherStance::Done);
    }
    for _ in 0..rng.below(3) {
        done.push(h.hash_chunk(&body(rng)) == BodyHasherStance::Done);
    }
    done.truncate(200);
    let res = h.finish();
    let ans: Vec<&str> = keys
        .iter()
        .map(|k| match res.get(k) {
            None => "missing",
            Some(Ok(_)) => "ok",
            Some(Err(BodyHashError::InsufficientInput)) => "insufficient",
            Some(Err(BodyHashError::InputTruncated)) => "truncated",
        })
        .collect();
    black_box(res.get(&(Some(12345), HashAlgorithm::Sha256, CanonicalizationAlgorithm::Simple)));
    json!({"kind": "body", "forbid": forbid, "keys": keys.len(), "ans": ans, "done": done})
}

pub fn case(seed: u64, n: usize) -> Value {
    let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(n as u64), "chaos");
    let what = rng.below(8);
    let r = panic::catch_unwind(AssertUnwindSafe(|| match what {
        0..=2 => verify_case(&mut rng),
        3 | 4 => parse_case(&mut rng),
        5 | 6 => sign_case(&mut rng),
        _ => body_case(&mut rng),
    }));
    let mut v = r.unwrap_or_else(|_| {
        let m = PANIC_MSG.with(|p| p.borrow().clone());
        if m.starts_with("HARNESS") {
            eprintln!("HARNESS failure: {m}");
            std::process::exit(3);
        }
        json!({"kind": "panic", "msg": m})
    });
    v["k"] = json!("chaos");
    v["seed"] = json!(seed);
    v["n"] = json!(n);
    v
}

/// Runs n cases on eight threads; a case that takes too long ends the run and is reported as such.
pub fn record(seed: u64, n: usize) -> Vec<Value> {
    let limit: u64 = std::env::var("VH_HANG_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
    let next = Arc::new(AtomicUsize::new(0));
    let out: Arc<Vec<Mutex<Option<Value>>>> = Arc::new((0..n).map(|_| Mutex::new(None)).collect());
    let busy: Arc<Mutex<Vec<Option<(usize, Instant)>>>> = Arc::new(Mutex::new(vec![None; 8]));
    let hs: Vec<_> = (0..8)
        .map(|t| {
            let (next, out, busy) = (next.clone(), out.clone(), busy.clone());
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    busy.lock().unwrap()[t] = Some((i, Instant::now()));
                    let v = case(seed, i);
                    let took = busy.lock().unwrap()[t].take().unwrap().1.elapsed();
                    if std::env::var("VH_SLOW").is_ok() && took.as_millis() > 500 {
                        eprintln!("slow: {i} {} {took:?}", v["kind"]);
                    }
                    *out[i].lock().unwrap() = Some(v);
                })
                .unwrap()
        })
        .collect();
    while !hs.iter().all(|h| h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        let hung: Vec<usize> = busy.lock().unwrap().iter().flatten().filter(|(_, t)| t.elapsed().as_secs() > limit).map(|x| x.0).collect();
        if !hung.is_empty() {
            for i in hung {
                *out[i].lock().unwrap() = Some(json!({"k": "chaos", "seed": seed, "n": i, "kind": "hang", "msg": format!("no answer within {limit} s")}));
            }
            break;
        }
    }
    out.iter().filter_map(|o| o.lock().unwrap().take()).collect()
}

pub fn replay(v: &Value, rep: &mut Report) {
    let r = case(v["seed"].as_u64().unwrap(), ver::int(&v["n"]) as usize);
    eprintln!("{r}");
    if r["kind"] == "panic" {
        rep.violation("P28", format!("panic: {}", r["msg"]));
    }
}
