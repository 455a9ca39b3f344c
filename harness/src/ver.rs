//! Verification sessions (spec/Verify.tla) replayed on the code: P02–P09, P17–P22, P27.
use crate::{body::random_chunks, ctx::*, keys, tags};
use serde_json::{json, Value};
use std::{
    collections::{BTreeSet, HashMap},
    future::Future,
    io::{self, ErrorKind},
    pin::Pin,
    sync::{
        atomic::{AtomicIsize, Ordering},
        Arc, Mutex,
    },
    task::{Context, Poll, Wake, Waker},
    time::{Duration, SystemTime},
};
use viadkim::{
    message_hash::BodyHasherStance,
    verifier::{Config, LookupTxt, VerificationError, VerificationResult, VerificationStatus},
    FieldName, HeaderFields, Verifier,
};

/// Base64 texts the symbols stand for.
pub struct Symbols(HashMap<i64, String>);

impl Symbols {
    fn put(&mut self, sym: i64, data: &[u8]) {
        let t = keys::b64(data);
        let n = (t.len() - 1) / 8 * 4;
        self.0.insert(sym, t[..n].to_owned());
        self.0.insert(sym - 1, t[n..].to_owned());
    }
    pub fn text(&self, v: &Value) -> Vec<u8> {
        let mut out = vec![];
        for x in v.as_array().unwrap_or_else(|| panic!("HARNESS: not a text: {v}")) {
            match x.as_i64().expect("HARNESS: not a number") {
                b @ 0.. => put(&mut out, b as u64),
                s => out.extend(self.0.get(&s).unwrap_or_else(|| panic!("HARNESS: symbol {s}")).bytes()),
            }
        }
        out
    }
    fn data(&self, v: &Value) -> Value {
        let opaque = v.as_array().unwrap().iter().any(|x| x.as_i64().unwrap() < 0);
        if !opaque {
            return v.clone();
        }
        let t = self.text(v);
        let t = std::str::from_utf8(&t).unwrap();
        use base64ct::Encoding;
        ints(&base64ct::Base64::decode_vec(t).unwrap_or_else(|e| panic!("HARNESS: {t} is no Base64 ({e})")))
    }
    pub fn signature(&self, v: &Value) -> Value {
        let mut v = v.clone();
        v["b"] = self.data(&v["b"]);
        v["bh"] = self.data(&v["bh"]);
        self.ext(&mut v);
        v
    }
    pub fn record(&self, v: &Value) -> Value {
        let mut v = v.clone();
        v["data"] = self.data(&v["data"]);
        self.ext(&mut v);
        v
    }
    fn ext(&self, v: &mut Value) {
        for p in v["ext"].as_array_mut().unwrap() {
            p[1] = ints(&self.text(&p[1]));
        }
    }
    pub fn of(v: &Value) -> Self {
        let mut s = Symbols(HashMap::new());
        for k in arr(&v["keys"]) {
            let form = k["form"].as_str().unwrap();
            s.put(int(&k["sym"]), &keys::public(k["id"].as_str().unwrap(), form, int(&k["bits"]) as u64));
        }
        for k in arr(&v["bhs"]) {
            let bits = int(&k["bits"]) as u64;
            let pre = bytes(&k["pre"]);
            let d = if bits == 160 && cfg!(not(feature = "pre-rfc8301")) { sha256(&pre)[..20].to_vec() } else { keys::digest(bits, &pre) };
            s.put(int(&k["sym"]), &d);
        }
        for k in arr(&v["signs"]) {
            let bits = int(&k["bits"]) as u64;
            let pre = s.text(&k["pre"]);
            let bits = if bits == 160 && cfg!(not(feature = "pre-rfc8301")) { 256 } else { bits };
            let sig = keys::sign(k["key"].as_str().unwrap(), bits, &pre);
            s.put(int(&k["sym"]), &sig);
        }
        for k in v["spoilt"].as_array().unwrap_or(&vec![]) {
            let d = bytes(&s.data(&json!([int(&k["of"]), int(&k["of"]) - 1])));
            s.put(int(&k["sym"]), &spoil(d, k["how"].as_str().unwrap()));
        }
        s
    }
}

/// Alters data so that it is other data.
fn spoil(mut d: Vec<u8>, how: &str) -> Vec<u8> {
    let n = d.len();
    match how {
        "tail" => d.push(0),
        "tails" => d.extend([1, 2, 3]),
        "twice" => d.extend_from_within(..),
        "head" => d.insert(0, 0),
        "cut" => d.truncate(n - 1),
        "cuts" => d.truncate(n - 3),
        "half" => d.truncate(n / 2),
        "first" => drop(d.remove(0)),
        "flipfirst" => d[0] ^= 1,
        "flipmid" => d[n / 2] ^= 0x10,
        "fliplast" => d[n - 1] ^= 1,
        "hibit" => d[n - 1] ^= 0x80,
        "zeros" => d.fill(0),
        "reverse" => {
            let old = d.clone();
            d.reverse();
            if d == old {
                d[0] ^= 1;
            }
        }
        _ => panic!("HARNESS: spoil {how}"),
    }
    d
}

pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("HARNESS: not an array: {v}"))
}
pub fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("HARNESS: not a number: {v}"))
}
pub fn digits(v: &Value) -> u64 {
    String::from_utf8(bytes(v)).unwrap().parse().unwrap_or_else(|_| panic!("HARNESS: number {v}"))
}

pub fn error_kind(s: &str) -> ErrorKind {
    match s {
        "NotFound" => ErrorKind::NotFound,
        "InvalidInput" => ErrorKind::InvalidInput,
        "TimedOut" => ErrorKind::TimedOut,
        "Other" => ErrorKind::Other,
        "ConnectionRefused" => ErrorKind::ConnectionRefused,
        "InvalidData" => ErrorKind::InvalidData,
        "UnexpectedEof" => ErrorKind::UnexpectedEof,
        "PermissionDenied" => ErrorKind::PermissionDenied,
        "Unsupported" => ErrorKind::Unsupported,
        "WouldBlock" => ErrorKind::WouldBlock,
        "Interrupted" => ErrorKind::Interrupted,
        _ => panic!("HARNESS: error kind {s}"),
    }
}

#[derive(Clone)]
pub struct Entry {
    pub err: Option<ErrorKind>,
    pub recs: Vec<Result<Vec<u8>, ErrorKind>>,
    pub delay: u64,
    pub rank: usize,
}

pub struct Dns {
    pub map: HashMap<String, Entry>,
    pub timed: bool,
    /// Names asked for, and what happened: (name, 0 = asked | 1 = answered).
    pub log: Mutex<Vec<(String, u8)>>,
    /// Lookups under way.
    pub live: AtomicIsize,
    /// The same with the time (if timed); "drop" for a lookup given up.
    pub events: Mutex<Vec<(tokio::time::Instant, &'static str, String)>>,
}
impl Dns {
    fn event(&self, e: &'static str, name: &str) {
        if self.timed {
            self.events.lock().unwrap().push((tokio::time::Instant::now(), e, name.to_owned()));
        }
    }
}

struct Lookup(Arc<Dns>, String, bool);
impl Drop for Lookup {
    fn drop(&mut self) {
        self.0.live.fetch_sub(1, Ordering::SeqCst);
        self.0.event(if self.2 { "answer" } else { "drop" }, &self.1);
    }
}

#[derive(Clone)]
pub struct Resolver(pub Arc<Dns>);

struct Polls(usize);
impl Future for Polls {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

impl LookupTxt for Resolver {
    type Answer = Vec<io::Result<Vec<u8>>>;
    type Query<'a> = Pin<Box<dyn Future<Output = io::Result<Self::Answer>> + Send + 'a>>;

    fn lookup_txt(&self, domain: &str) -> Self::Query<'_> {
        let domain = domain.to_owned();
        Box::pin(async move {
            self.0.log.lock().unwrap().push((domain.clone(), 0));
            self.0.event("ask", &domain);
            self.0.live.fetch_add(1, Ordering::SeqCst);
            let mut lookup = Lookup(self.0.clone(), domain.clone(), false);
            let e = self.0.map.get(&domain).cloned();
            if let Some(e) = &e {
                if !self.0.timed {
                    Polls(e.rank).await;
                } else if e.delay > 0 {
                    tokio::time::sleep(Duration::from_millis(e.delay)).await;
                }
            }
            self.0.log.lock().unwrap().push((domain, 1));
            lookup.2 = true;
            drop(lookup);
            match e {
                None => Err(ErrorKind::NotFound.into()),
                Some(Entry { err: Some(k), .. }) => Err(k.into()),
                Some(e) => Ok(e.recs.into_iter().map(|r| r.map_err(Into::into)).collect()),
            }
        })
    }
}

pub fn dns_of(v: &Value, s: &Symbols, timed: bool) -> Resolver {
    let mut map = HashMap::new();
    let mut delays: Vec<i64> = arr(v).iter().map(|e| int(&e["delay"])).collect();
    delays.sort();
    delays.dedup();
    for e in arr(v).iter().rev() {
        let name = String::from_utf8(bytes(&e["name"])).expect("HARNESS: name");
        let kind = |v: &Value| Some(v.as_str().unwrap()).filter(|s| !s.is_empty()).map(error_kind);
        let recs = arr(&e["recs"]).iter().map(|r| kind(&r["err"]).map_or_else(|| Ok(s.text(&r["txt"])), Err)).collect();
        let delay = int(&e["delay"]);
        let rank = delays.iter().position(|&d| d == delay).unwrap();
        map.insert(name, Entry { err: kind(&e["err"]), recs, delay: delay as u64, rank });
    }
    Resolver(Arc::new(Dns { map, timed, log: Default::default(), live: Default::default(), events: Default::default() }))
}

pub fn names_of(v: &Value) -> Option<Vec<FieldName>> {
    arr(v).iter().map(|n| FieldName::new(String::from_utf8(bytes(n)).ok()?).ok()).collect()
}

/// The settings named in left are not touched.
pub fn config_of(v: &Value, now: u64, left: &Value) -> Config {
    let mut c = Config::default();
    let empty = vec![];
    let set = |n: &str| !left.as_array().unwrap_or(&empty).iter().any(|x| x == n);
    if set("timeout") {
        c.lookup_timeout = Duration::from_millis(int(&v["timeout"]) as u64);
    }
    if set("max") {
        c.max_signatures = int(&v["max"]) as usize;
    }
    if set("required") {
        c.headers_required_in_signature = names_of(&v["required"]).expect("HARNESS: names");
    }
    if set("forbidden") {
        c.headers_forbidden_to_be_unsigned = names_of(&v["forbidden"]).expect("HARNESS: names");
    }
    if set("minbits") {
        c.min_key_bits = int(&v["minbits"]) as usize;
    }
    if set("sha1") {
        c.allow_sha1 = v["sha1"].as_bool().unwrap();
    }
    if set("forbidPartial") {
        c.forbid_unsigned_content = v["forbidPartial"].as_bool().unwrap();
    }
    if set("expired") {
        c.allow_expired = v["expired"].as_bool().unwrap();
    }
    if set("future") {
        c.allow_timestamp_in_future = v["future"].as_bool().unwrap();
    }
    if set("tolerance") {
        c.time_tolerance = Duration::from_secs(digits(&v["tolerance"]));
    }
    if set("now") {
        c.fixed_system_time = Some(SystemTime::UNIX_EPOCH.checked_add(Duration::from_secs(now)).expect("HARNESS: now"));
    }
    c
}

pub fn status_name(s: &VerificationStatus) -> String {
    use VerificationError::*;
    match s {
        VerificationStatus::Success => "Success".into(),
        VerificationStatus::Failure(e) => match e {
            DkimSignatureFormat(e) => format!("SignatureFormat:{:?}", e.kind),
            KeyRecordFormat(e) => format!("KeyRecordFormat:{e:?}"),
            VerificationFailure(e) => format!("VerificationFailure:{e:?}"),
            Policy(e) => format!("Policy:{e:?}"),
            e => format!("{e:?}"),
        },
    }
}

struct Noop;
impl Wake for Noop {
    fn wake(self: Arc<Self>) {}
}
/// Runs a future without any runtime.
pub fn run_plain<F: Future>(f: F) -> F::Output {
    let w = Waker::from(Arc::new(Noop));
    let mut cx = Context::from_waker(&w);
    let mut f = std::pin::pin!(f);
    for _ in 0..100_000 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
    panic!("verification does not come to an end");
}
pub fn run_paused<F: Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("HARNESS: runtime");
    rt.block_on(f)
}
fn props_of(theme: &str, statuses: &BTreeSet<String>) -> BTreeSet<&'static str> {
    let mut p = BTreeSet::new();
    for s in statuses {
        let (a, b) = s.split_once(':').unwrap_or((s, ""));
        let l: &[&str] = match (a, b) {
            ("Success", _) => &["P09"],
            ("SignatureFormat", _) => &["P14", "P09"],
            ("Policy", "KeyTooSmall" | "Sha1HashAlgorithm") => &["P18", "P27"],
            ("Policy", "UnsignedContent") => &["P18", "P03"],
            ("Policy", _) => &["P18"],
            ("WrongKeyType" | "KeyRevoked" | "DisallowedHashAlgorithm" | "DomainMismatch", _) => &["P17", "P22"],
            ("VerificationFailure", "InvalidKey") => &["P17"],
            ("VerificationFailure", "InsufficientKeySize") => &["P17", "P27"],
            ("VerificationFailure", _) => &["P09", "P05", "P06", "P07"],
            ("KeyRecordFormat", _) => &["P16", "P17", "P22"],
            ("NoKeyFound" | "InvalidKeyDomain" | "Timeout" | "KeyLookup", _) => &["P20", "P21"],
            ("InsufficientContent" | "BodyHashMismatch", _) => &["P09", "P03"],
            _ => &["P09"],
        };
        p.extend(l);
    }
    p.extend(theme_props(theme));
    p
}
pub fn theme_props(theme: &str) -> &'static [&'static str] {
    match theme {
        "tamper" => &["P09"],
        "transit" => &["P09", "P07"],
        "policy" => &["P18"],
        "keys" => &["P17", "P22", "P27"],
        "lookup" => &["P20", "P21"],
        "multi" => &["P19"],
        "session" => &["P19", "P20", "P21"],
        "defaults" => &["P29"],
        _ => &[],
    }
}

pub struct Outcome {
    pub results: Option<Vec<VerificationResult>>,
    pub asked: Vec<String>,
    pub log: Vec<(String, u8)>,
    pub elapsed: u64,
    pub done: Vec<bool>,
}

pub fn session(headers: &HeaderFields, cfg: &Config, res: &Resolver, chunks: &[&[u8]], stop: bool) -> Outcome {
    let (verifier, elapsed) = if res.0.timed {
        run_paused(async {
            let t = tokio::time::Instant::now();
            let v = Verifier::verify_header(res, headers, cfg).await;
            (v, t.elapsed().as_millis() as u64)
        })
    } else {
        (run_plain(Verifier::verify_header(res, headers, cfg)), 0)
    };
    let mut done = vec![];
    let results = verifier.map(|mut v| {
        for c in chunks {
            let d = v.process_body_chunk(c) == BodyHasherStance::Done;
            done.push(d);
            if d && stop {
                break;
            }
        }
        v.finish()
    });
    let log = res.0.log.lock().unwrap().clone();
    let mut asked: Vec<String> = log.iter().filter(|x| x.1 == 0).map(|x| x.0.clone()).collect();
    asked.sort();
    Outcome { results, asked, log, elapsed, done }
}

fn show_headers(h: &[(String, Vec<u8>)]) -> String {
    h.iter().map(|(n, v)| format!("{n}:{}", v[..v.len().min(4000)].escape_ascii())).collect::<Vec<_>>().join(" | ")
}

pub fn replay_ver(v: &Value, rep: &mut Report) {
    let theme = v["theme"].as_str().unwrap();
    if v["legacy"].as_bool().unwrap() != cfg!(feature = "pre-rfc8301") {
        rep.count("sessions of the other configuration", 1);
        return;
    }
    let sy = Symbols::of(v);
    let hs: Vec<(String, Vec<u8>)> = arr(&v["headers"])
        .iter()
        .map(|h| (String::from_utf8(bytes(&h[0])).expect("HARNESS: header name"), sy.text(&h[1])))
        .collect();
    let Ok(headers) = HeaderFields::from_vec(hs.clone()) else {
        rep.count("sessions skipped (illegal header)", 1);
        return;
    };
    let body = bytes(&v["body"]);
    let now = digits(&v["now"]);
    let cfg = config_of(&v["cfg"], now, &v["left"]);
    let exp = &v["exp"];
    let free = exp["free"].as_bool().unwrap();
    let sigs = arr(&exp["sigs"]);
    let mut rng = Rng::new(v.to_string().len() as u64, "cuts");
    let mut cut: Vec<usize> = arr(&v["cut"]).iter().map(|x| int(x) as usize).filter(|&x| x <= body.len()).collect();
    cut.sort();
    let mut chunks: Vec<&[u8]> = vec![];
    let mut at = 0;
    for c in cut {
        chunks.push(&body[at..c]);
        at = c;
    }
    chunks.push(&body[at..]);
    let random = random_chunks(&mut rng, &body);
    let timeouts = arr(&v["dns"]).iter().any(|d| int(&d["delay"]) > int(&v["cfg"]["timeout"]));
    let whole = [&body[..]];
    let mut runs: Vec<(&str, bool, &[&[u8]], bool)> = vec![("whole", true, &whole, false), ("in chunks", true, &chunks, false)];
    if !timeouts {
        runs.push(("until done", false, &random, true));
    } else {
        runs.push(("until done", true, &random, true));
    }
    let mut first: Option<(Vec<String>, Outcome)> = None;
    for (what, timed, chunks, stop) in runs {
        let res = dns_of(&v["dns"], &sy, timed);
        let o = session(&headers, &cfg, &res, chunks, stop);
        let about = || format!("[{theme}, {what}] headers {} body {} cfg {} (left alone {}) now {now}", show_headers(&hs), show(&body), v["cfg"], v["left"]);
        if o.results.is_none() != sigs.is_empty() {
            rep.violation("P19", format!("verifier {}, expected {} results; {}", if o.results.is_some() { "returned" } else { "not returned" }, sigs.len(), about()));
            return;
        }
        let results: &[VerificationResult] = o.results.as_deref().unwrap_or(&[]);
        if results.len() != sigs.len() {
            rep.violation("P19", format!("{} results, expected {}; {}", results.len(), sigs.len(), about()));
            return;
        }
        for (k, (r, e)) in results.iter().zip(sigs).enumerate() {
            rep.check("P19", r.index as i64 == int(&e["index"]), || format!("result {k} is about header {}, expected {}; {}", r.index, e["index"], about()));
            if e["free"].as_bool().unwrap() {
                continue;
            }
            let got = status_name(&r.status);
            let want: BTreeSet<String> = arr(&e["st"]).iter().map(|s| s.as_str().unwrap().to_owned()).collect();
            if !want.contains(&got) {
                let mut all = want.clone();
                all.insert(got.clone());
                for p in props_of(theme, &all) {
                    rep.violation(p, format!("result {k} is {got}, expected {want:?}; {}", about()));
                }
            }
            rep.count(&format!("verdict {}", got.split(':').next().unwrap()), 1);
            if let Some(d) = arr(&exp["dkim"]).iter().find(|d| d[0] == got.as_str()) {
                let g = r.status.to_dkim_result();
                rep.check("P23", g.to_string() == d[1].as_str().unwrap(), || format!("{got} becomes {g}, expected {}", d[1]));
            }
            let sig_exp = e["sig"]["alg"].as_str().unwrap() != "";
            rep.check("P19", r.signature.is_some() == sig_exp, || format!("result {k}: signature present: {}; {}", r.signature.is_some(), about()));
            if let (Some(s), true) = (&r.signature, sig_exp) {
                if let Some(d) = tags::signature_differs(s, &sy.signature(&e["sig"])) {
                    for p in ["P19", "P14"] {
                        rep.violation(p, format!("result {k}: {d} of the reported signature differs: {s:?}; {}", about()));
                    }
                }
            }
            if want.contains(&got) {
                if let VerificationStatus::Failure(VerificationError::DkimSignatureFormat(x)) = &r.status {
                    for d in tags::salvage_differs(x, &e["raw"], &|t| sy.text(t)) {
                        rep.violation("P33", format!("result {k} ({got}) {d}; {}", about()));
                    }
                    rep.count("failures with something salvaged", 1);
                }
                let rec = arr(&e["rec"]).first();
                if r.key_record.is_some() != rec.is_some() {
                    for p in ["P19", "P22"] {
                        rep.violation(p, format!("result {k} ({got}): key record reported: {}; {}", r.key_record.is_some(), about()));
                    }
                } else if let (Some(g), Some(w)) = (&r.key_record, rec) {
                    if let Some(d) = tags::record_differs(g, &sy.record(w)) {
                        for p in ["P19", "P22"] {
                            rep.violation(p, format!("result {k} ({got}): {d} of the reported key record differs: {g:?}; {}", about()));
                        }
                    }
                }
            }
        }
        if !free {
            let mut want: Vec<String> = arr(&exp["queries"]).iter().map(|q| String::from_utf8(bytes(q)).unwrap()).collect();
            want.sort();
            rep.check("P20", o.asked == want, || format!("lookups {:?}, expected {want:?}; {}", o.asked, about()));
            if timed {
                let t = int(&exp["time"]) as u64;
                rep.check("P21", o.elapsed <= t + 2, || format!("verifying the header took {} ms, expected {t}; {}", o.elapsed, about()));
                rep.count("lookups", want.len() as u64);
            }
        }
        if !o.done.is_empty() && !stop {
            if let Some(i) = o.done.iter().position(|d| *d) {
                rep.check("P04", o.done[i..].iter().all(|d| *d), || format!("Done taken back: {:?}; {}", o.done, about()));
            }
        }
        let st: Vec<String> = results.iter().map(|r| format!("{:?} {} {:?} {:?}", r.status, r.index, r.signature, r.key_record)).collect();
        match &first {
            None => first = Some((st, o)),
            Some((s0, _)) => {
                let p: &[&str] = if what == "until done" { &["P02", "P04"] } else { &["P02"] };
                if *s0 != st {
                    for p in p {
                        rep.violation(p, format!("results differ from those on the whole body: {st:?} and {s0:?}; {}", about()));
                    }
                }
            }
        }
    }
}

/// Runs a session of spec/MCSession.tla and records what happens, for spec/TraceSession.tla.
pub fn record_session(v: &Value) -> Value {
    let sy = Symbols::of(v);
    let headers = arr(&v["headers"]).iter().map(|h| (String::from_utf8(bytes(&h[0])).expect("HARNESS: header name"), sy.text(&h[1]))).collect();
    let headers = HeaderFields::from_vec(headers).expect("HARNESS: headers");
    let abs = &v["abs"];
    let tick = int(&abs["tick"]) as u64;
    let cfg = config_of(&v["cfg"], digits(&v["now"]), &Value::Null);
    let res = dns_of(&v["dns"], &sy, true);
    let ticks = |ms: u128| (ms as u64 + tick / 2) / tick;
    let place = |n: &str| arr(&abs["names"]).iter().find(|x| bytes(&x["name"]) == n.as_bytes()).map_or("?", |x| x["place"].as_str().unwrap());
    let run = || {
        run_paused(async {
            let t0 = tokio::time::Instant::now();
            let v1 = Verifier::verify_header(&res, &headers, &cfg).await;
            let t1 = ticks((tokio::time::Instant::now() - t0).as_millis());
            let ev: Vec<Value> = res.0.events.lock().unwrap().iter()
                .map(|(t, e, n)| json!({"t": ticks((*t - t0).as_millis()), "e": e, "p": place(n), "res": []}))
                .chain([json!({"t": t1, "e": "headers", "p": "", "res": []})])
                .collect();
            let results = v1.map_or(vec![], |mut v1| {
                let _ = v1.process_body_chunk(&bytes(&v["body"]));
                v1.finish()
            });
            (results, t1, ev)
        })
    };
    let ev = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(run)) {
        Ok((results, t, mut ev)) => {
            let st: Vec<String> = results.iter().map(|r| status_name(&r.status)).collect();
            ev.push(json!({"t": t, "e": "end", "p": "", "res": st}));
            ev
        }
        Err(_) => vec![json!({"t": 0, "e": "panic", "p": PANIC_MSG.with(|p| p.borrow().clone()), "res": []})],
    };
    json!({"abs": abs, "ev": ev})
}

/// A verification error by its name, with its cause.
fn verification_error(a: &str, b: &str, parts: &Value) -> Option<VerificationError> {
    use viadkim::{
        crypto,
        record::DkimKeyRecordError as K,
        signature::{DkimSignatureError, DkimSignatureErrorKind as S},
        verifier::PolicyError as P,
    };
    macro_rules! pick {
        ($t:ident, $($x:ident)*) => { match b { $(stringify!($x) => $t::$x,)* _ => panic!("HARNESS: status {a}:{b}") } };
    }
    use VerificationError as V;
    match a {
        "Success" => None,
        "Overflow" => Some(V::Overflow),
        "NoKeyFound" => Some(V::NoKeyFound),
        "InvalidKeyDomain" => Some(V::InvalidKeyDomain),
        "Timeout" => Some(V::Timeout),
        "KeyLookup" => Some(V::KeyLookup),
        "WrongKeyType" => Some(V::WrongKeyType),
        "KeyRevoked" => Some(V::KeyRevoked),
        "DisallowedHashAlgorithm" => Some(V::DisallowedHashAlgorithm),
        "DomainMismatch" => Some(V::DomainMismatch),
        "InsufficientContent" => Some(V::InsufficientContent),
        "BodyHashMismatch" => Some(V::BodyHashMismatch),
        "VerificationFailure" => {
            use crypto::VerificationError as C;
            Some(V::VerificationFailure(pick!(C, InvalidKey InsufficientKeySize VerificationFailure)))
        }
        "Policy" => Some(V::Policy(pick!(P, RequiredHeaderNotSigned UnsignedHeaderOccurrence UnsignedContent SignatureExpired TimestampInFuture Sha1HashAlgorithm KeyTooSmall))),
        "KeyRecordFormat" => Some(V::KeyRecordFormat(pick!(K, RecordFormat TagListFormat IncompatibleVersion InvalidHashAlgorithm NoSupportedHashAlgorithms
            UnsupportedKeyType InvalidQuotedPrintable InvalidBase64 InvalidServiceType NoSupportedServiceTypes InvalidFlag MisplacedVersionTag MissingKeyTag))),
        "SignatureFormat" => {
            let kind = pick!(S, Utf8Encoding TagListFormat IncompatibleVersion HistoricAlgorithm UnsupportedAlgorithm InvalidBase64 EmptySignatureTag EmptyBodyHashTag
                UnsupportedCanonicalization InvalidDomain InvalidSignedHeaderName EmptySignedHeadersTag FromHeaderNotSigned InvalidIdentity InvalidBodyLength
                InvalidQueryMethod NoSupportedQueryMethods InvalidSelector InvalidTimestamp InvalidExpiration InvalidCopiedHeaderField MissingVersionTag
                MissingAlgorithmTag MissingSignatureTag MissingBodyHashTag MissingDomainTag MissingSignedHeadersTag MissingSelectorTag DomainMismatch
                ExpirationNotAfterTimestamp);
            let has = |x: &str| arr(parts).iter().any(|p| p == x);
            let part = |x: &str, val: &str| has(x).then(|| val.into());
            Some(V::DkimSignatureFormat(DkimSignatureError {
                kind,
                algorithm_str: part("a", "rsa-sha256"),
                signature_data_str: part("b", "QUJD"),
                domain_str: part("d", "a.example"),
                identity_str: part("i", "@a.example"),
                selector_str: part("s", "s"),
            }))
        }
        _ => panic!("HARNESS: status {a}:{b}"),
    }
}

/// The mapping of statuses to RFC 8601 results (spec/Status.tla).
pub fn replay_status(v: &Value, rep: &mut Report) {
    use viadkim::CanonicalStr;
    let st = v["st"].as_str().unwrap();
    let (a, b) = st.split_once(':').unwrap_or((st, ""));
    let e = verification_error(a, b, &v["parts"]);
    let status = e.map_or(VerificationStatus::Success, VerificationStatus::Failure);
    let got = status.to_dkim_result();
    let want = v["res"].as_str().unwrap();
    rep.check("P23", got.to_string() == want && got.canonical_str() == want && format!("{got:?}") == want, || format!("{status:?} becomes {got}, expected {want}"));
    rep.check("P23", status_name(&status) == st, || format!("{status:?} is not {st}"));
}

/// A member of an error type of spec/Errors.tla.
fn error_of(ty: &str, m: &str) -> Box<dyn std::error::Error> {
    use viadkim::{crypto, message_hash::BodyHashError, signer};
    macro_rules! pick {
        ($t:path, $($x:ident)*) => {{ use $t as T; match m { $(stringify!($x) => Box::new(T::$x),)* _ => panic!("HARNESS: {ty} error {m}") } }};
    }
    let inner = |outer: &str| match verification_error(outer, m, &json!([])).unwrap() {
        VerificationError::DkimSignatureFormat(e) => Box::new(e) as Box<dyn std::error::Error>,
        VerificationError::KeyRecordFormat(e) => Box::new(e),
        VerificationError::VerificationFailure(e) => Box::new(e),
        VerificationError::Policy(e) => Box::new(e),
        _ => unreachable!(),
    };
    match ty {
        "signature" => inner("SignatureFormat"),
        "key record" => inner("KeyRecordFormat"),
        "policy" => inner("Policy"),
        "crypto verification" => inner("VerificationFailure"),
        "crypto signing" => pick!(crypto::SigningError, SigningFailure),
        "verification" => {
            let some = match m {
                "SignatureFormat" => "TagListFormat",
                "KeyRecordFormat" => "RecordFormat",
                "VerificationFailure" => "InvalidKey",
                "Policy" => "KeyTooSmall",
                _ => "",
            };
            Box::new(verification_error(m, some, &json!([])).unwrap())
        }
        "request" => pick!(signer::RequestError, Overflow MissingFromHeader TooManyRequests EmptyRequests IncompatibleKeyType FromHeaderNotSigned
            InvalidSignedFieldName DomainMismatch ZeroExpirationDuration InvalidExtTags InvalidDkimSignatureHeaderName InvalidIndentationWhitespace),
        "signing" => pick!(signer::SigningError, Overflow InsufficientContent SigningFailure),
        "body hash" => pick!(BodyHashError, InsufficientInput InputTruncated),
        "signing key" => pick!(crypto::DecodeSigningKeyError, InvalidPemDocument NotAPrivateKeyInfoDocument InvalidKeyData UnsupportedKeyType),
        _ => panic!("HARNESS: error type {ty}"),
    }
}

/// What errors say (spec/Errors.tla).
pub fn replay_words(v: &Value, rep: &mut Report) {
    let s = |k: &str| v[k].as_str().unwrap().to_owned();
    let (ty, one, other) = (s("type"), s("one"), s("other"));
    let (a, b) = (error_of(&ty, &one).to_string(), error_of(&ty, &other).to_string());
    rep.check("P33", !a.trim().is_empty() && !a.chars().any(|c| c.is_control()), || format!("{ty} error {one} says {a:?}"));
    rep.check("P33", (a == b) == v["same"].as_bool().unwrap(), || format!("{ty} errors {one} and {other} say {a:?} and {b:?}"));
    if ty == "verification" {
        return;
    }
    rep.check("P33", error_of(&ty, &one).source().is_none(), || format!("{ty} error {one} has a cause"));
}

pub fn replay_cause(v: &Value, rep: &mut Report) {
    use std::error::Error;
    let m = v["error"].as_str().unwrap();
    let cause: Vec<&str> = arr(&v["cause"]).iter().map(|x| x.as_str().unwrap()).collect();
    let e = verification_error(m, cause.get(1).unwrap_or(&""), &json!([])).unwrap();
    let want = cause.first().map(|t| error_of(t, cause[1]).to_string());
    let got = e.source().map(|c| c.to_string());
    rep.check("P33", got == want, || format!("the cause of {e:?} is {got:?}, expected {want:?}"));
}
