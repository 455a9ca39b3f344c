//! Signing sessions: recorded for judgement by spec/Signing.tla; signatures verified (P08, P10–P13).
use crate::{body::random_chunks, ctx::*, keys, ver};
use serde_json::{json, Value};
use std::{
    cmp::Ordering,
    collections::HashMap,
    panic::{self, AssertUnwindSafe},
    sync::Arc,
    time::{Duration, SystemTime},
};
use viadkim::{
    crypto::SigningKey,
    header::HeaderFields,
    signature::{Canonicalization, CanonicalizationAlgorithm, DkimSignature, DomainName, Identity, Selector, SigningAlgorithm},
    signer::{BodyLength, HeaderSelection, OutputFormat, SignRequest, SigningError, SigningOutput, Timestamp},
    CanonicalStr, FieldName, Signer,
};

fn string(v: &Value) -> String {
    String::from_utf8(bytes(v)).expect("HARNESS: text")
}
fn number(v: &Value) -> u64 {
    string(v).parse().unwrap_or_else(|_| panic!("HARNESS: number {v}"))
}
fn s<'a>(v: &'a Value) -> &'a str {
    v.as_str().unwrap_or_else(|| panic!("HARNESS: not a string: {v}"))
}
fn flag(v: &Value) -> bool {
    v.as_bool().expect("HARNESS: flag")
}

fn order(name: &str) -> Option<Box<dyn Fn(&str, &str) -> Ordering + Send + Sync>> {
    match name {
        "none" => None,
        "alpha" => Some(Box::new(|a, b| a.cmp(b))),
        "reverse" => Some(Box::new(|a, b| b.cmp(a))),
        "length" => Some(Box::new(|a, b| a.len().cmp(&b.len()))),
        _ => {
            let (tag, last) = name.split_once('-').expect("HARNESS: order");
            let (tag, last) = (tag.to_owned(), last == "last");
            Some(Box::new(move |a, b| if last { (a == tag).cmp(&(b == tag)) } else { (b == tag).cmp(&(a == tag)) }))
        }
    }
}

pub type Key = Arc<SigningKey>;

/// None: the request cannot be expressed (a name that is none).  The settings named in left are not touched.
pub fn request(v: &Value, left: &Value) -> Option<SignRequest<Key>> {
    let empty = vec![];
    let set = |n: &str| !left.as_array().unwrap_or(&empty).iter().any(|x| x == n);
    let canon = |k: &str| match s(&v[k]) {
        "simple" => CanonicalizationAlgorithm::Simple,
        _ => CanonicalizationAlgorithm::Relaxed,
    };
    let key = Arc::new(SigningKey::from_pkcs8_pem(&keys::pem(s(&v["key"]["id"]))).expect("HARNESS: key"));
    let algorithm = match s(&v["alg"]) {
        "rsa-sha256" => SigningAlgorithm::RsaSha256,
        "ed25519-sha256" => SigningAlgorithm::Ed25519Sha256,
        #[cfg(feature = "pre-rfc8301")]
        "rsa-sha1" => SigningAlgorithm::RsaSha1,
        a => panic!("HARNESS: algorithm {a}"),
    };
    let mut r = SignRequest::new(DomainName::new(string(&v["d"])).ok()?, Selector::new(string(&v["s"])).ok()?, algorithm, key);
    if set("c") {
        r.canonicalization = Canonicalization::from((canon("ch"), canon("cb")));
    }
    if set("h") {
        r.header_selection = if flag(&v["auto"]) { HeaderSelection::Auto } else { HeaderSelection::Manual(ver::names_of(&v["h"])?) };
    }
    if set("i") {
        if let Some(i) = ver::arr(&v["i"]).first() {
            r.identity = Some(Identity::new(&format!("{}@{}", string(&i["local"]), string(&i["domain"]))).ok()?);
        }
    }
    if set("l") {
        r.body_length = match s(&v["bl"]) {
            "none" => BodyLength::NoLimit,
            "content" => BodyLength::MessageContent,
            _ => BodyLength::Exact(number(&v["n"])),
        };
    }
    if set("t") {
        r.timestamp = match s(&v["ts"]) {
            "none" => Timestamp::None,
            "now" => Timestamp::Now,
            _ => Timestamp::Exact(number(&v["t"])),
        };
    }
    if set("x") {
        r.valid_duration = ver::arr(&v["dur"]).first().map(|d| Duration::new(number(d), ver::int(&v["nanos"]) as u32));
    }
    if set("z") {
        r.copy_headers = flag(&v["copy"]);
    }
    if set("ext") {
        r.ext_tags = ver::arr(&v["ext"]).iter().map(|p| (string(&p[0]), string(&p[1]))).collect();
    }
    let f = &v["fmt"];
    if set("name") {
        r.format.header_name = string(&f["name"]);
    }
    if set("width") {
        r.format.line_width = (ver::int(&f["width"]) as usize).try_into().expect("HARNESS: width");
    }
    if set("indent") {
        r.format.indentation = string(&f["indent"]);
    }
    if set("order") {
        r.format.tag_order = order(s(&f["order"]));
    }
    if set("ascii") {
        r.format.ascii_only = flag(&f["ascii"]);
    }
    Some(r)
}

/// The default sets of header names, and the defaults of types of their own.
fn defaults(ss: &Value, rep: &mut Report) {
    let names = |v: Vec<FieldName>| {
        let mut x: Vec<String> = v.iter().map(|n| n.as_ref().to_ascii_lowercase()).collect();
        x.sort();
        x
    };
    for (what, got, want) in [
        ("signed", viadkim::signer::default_signed_headers(), &ss["signed"]),
        ("unsigned", viadkim::signer::default_unsigned_headers(), &ss["unsigned"]),
    ] {
        let (got, want) = (names(got), names(ver::names_of(want).expect("HARNESS: names")));
        rep.check("P29", got == want, || format!("headers {what} by default: {got:?}, expected {want:?}"));
    }
    let f = OutputFormat::default();
    rep.check("P29", f.header_name == "DKIM-Signature" && f.line_width.get() == 78 && f.indentation == "\t" && f.tag_order.is_none() && !f.ascii_only, || format!("default format {f:?}"));
    rep.check("P29", BodyLength::default() == BodyLength::NoLimit && Timestamp::default() == Timestamp::Now && HeaderSelection::default() == HeaderSelection::Auto, || "other defaults".into());
    let c = Canonicalization::default();
    rep.check("P29", c == Canonicalization::from((CanonicalizationAlgorithm::Simple, CanonicalizationAlgorithm::Simple)) && CanonicalizationAlgorithm::default() == CanonicalizationAlgorithm::Simple, || format!("default canonicalization {c:?}"));
}

pub fn signature_value(g: &DkimSignature) -> Value {
    let t = |s: &str| ints(s.as_bytes());
    let num = |n: Option<u64>| n.map_or(json!([]), |n| json!([t(&n.to_string())]));
    json!({
        "alg": g.algorithm.canonical_str(), "b": ints(&g.signature_data), "bh": ints(&g.body_hash),
        "ch": g.canonicalization.header.canonical_str(), "cb": g.canonicalization.body.canonical_str(),
        "d": t(g.domain.as_ref()), "s": t(g.selector.as_ref()),
        "h": g.signed_headers.iter().map(|n| t(n.as_ref())).collect::<Vec<_>>(),
        "i": g.identity.iter().map(|i| json!({"local": t(i.local_part.as_deref().unwrap_or("")), "domain": t(i.domain.as_ref())})).collect::<Vec<_>>(),
        "l": num(g.body_length), "t": num(g.timestamp), "x": num(g.expiration),
        "z": g.copied_headers.iter().map(|(n, v)| json!([t(n.as_ref()), ints(v)])).collect::<Vec<_>>(),
        "ext": g.ext_tags.iter().map(|(n, v)| json!([t(n), t(v)])).collect::<Vec<_>>(),
    })
}

pub fn headers_of(v: &Value) -> Option<HeaderFields> {
    let hs: Vec<(String, Vec<u8>)> = ver::arr(v).iter().map(|h| Some((String::from_utf8(bytes(&h[0])).ok()?, bytes(&h[1])))).collect::<Option<_>>()?;
    HeaderFields::from_vec(hs).ok()
}

pub fn outputs(res: Vec<Result<SigningOutput, SigningError>>) -> Vec<Value> {
    res.into_iter()
        .map(|r| match r {
            Ok(o) => {
                let text = format!("{}:{}", o.header_name, o.header_value);
                assert!(o.format_header().to_string() == text, "format_header differs");
                let f = o.to_header_field();
                assert!(f.0.as_ref() == o.header_name && f.1.as_ref() == o.header_value.as_bytes(), "to_header_field differs");
                json!({"err": "", "name": ints(o.header_name.as_bytes()), "value": ints(o.header_value.as_bytes()), "sig": signature_value(&o.signature)})
            }
            Err(e) => json!({"err": format!("{e:?}")}),
        })
        .collect()
}

/// Runs the signer; (error or "", results).
pub fn run(v: &Value, headers: &HeaderFields, chunks: &[&[u8]], until_done: bool) -> Option<(String, Vec<Value>)> {
    let reqs: Vec<_> = ver::arr(&v["reqs"]).iter().map(|r| request(r, &v["left"])).collect::<Option<_>>()?;
    let r = panic::catch_unwind(AssertUnwindSafe(|| {
        let mut signer = match Signer::prepare_signing(headers.clone(), reqs) {
            Ok(s) => s,
            Err(e) => return (format!("{e:?}"), vec![]),
        };
        for c in chunks {
            let st = signer.process_body_chunk(c);
            if until_done && st == viadkim::message_hash::BodyHasherStance::Done {
                break;
            }
        }
        let res = ver::run_plain(signer.sign());
        let res = outputs(res);
        (String::new(), res)
    }));
    Some(r.unwrap_or_else(|_| (format!("PANIC {}", PANIC_MSG.with(|p| p.borrow().clone())), vec![])))
}

fn now() -> Vec<u8> {
    SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs().to_string().into_bytes()
}

/// Completes a session with what the signer does; None if it cannot be expressed.
pub fn record(mut v: Value) -> Option<Value> {
    let headers = headers_of(&v["headers"])?;
    let body = bytes(&v["body"]);
    v["from"] = ints(&now());
    let (prep, results) = run(&v, &headers, &[&body], false)?;
    v["to"] = ints(&now());
    // the same once more, in chunks
    let mut rng = Rng::new(v.to_string().len() as u64, "sign");
    let chunks = random_chunks(&mut rng, &body);
    let mut differs = vec![];
    for done in [false, true] {
        let (prep2, results2) = run(&v, &headers, &chunks, done)?;
        let timed = ver::arr(&v["reqs"]).iter().map(|r| s(&r["ts"]) == "now" || (s(&r["ts"]) == "none" && !ver::arr(&r["dur"]).is_empty()));
        let same = prep == prep2 && results.len() == results2.len() && results.iter().zip(&results2).zip(timed).all(|((a, b), t)| a == b || t && a["err"] == b["err"] && a["sig"]["bh"] == b["sig"]["bh"]);
        if !same {
            differs.push(if done { "until done" } else { "in chunks" });
        }
    }
    v["differs"] = json!(differs);
    v["prep"] = json!(prep);
    v["results"] = json!(results);
    Some(v)
}

/// A judged session: {s: session, j: judgement}.
pub fn replay_signed(v: &Value, rep: &mut Report) {
    let (ss, j) = (&v["s"], &v["j"]);
    let reqs = ver::arr(&ss["reqs"]);
    let about = |k: usize| {
        let x = &ss["results"][k];
        let val = if x["value"].is_array() { show(&bytes(&x["value"])) } else { x.to_string() };
        format!("request {k}: {} gives {val}", describe(&reqs[k]))
    };
    for b in ver::arr(&j["bad"]) {
        rep.violation(prop(&b[0]), format!("{}; requests {}", s(&b[1]), reqs.iter().map(describe).collect::<Vec<_>>().join(" | ")));
    }
    if !ss["signed"].is_null() {
        defaults(ss, rep);
    }
    let prep = s(&ss["prep"]);
    if prep.starts_with("PANIC") {
        for p in ["P28", "P10", "P12"] {
            rep.violation(p, format!("signing panics: {prep}; requests {}", reqs.iter().map(describe).collect::<Vec<_>>().join(" | ")));
        }
    }
    for d in ver::arr(&ss["differs"]) {
        for p in if d == "in chunks" { &["P02"][..] } else { &["P02", "P04"] } {
            rep.violation(p, format!("signing {} gives other results; requests {}", s(d), reqs.iter().map(describe).collect::<Vec<_>>().join(" | ")));
        }
    }
    rep.count(&format!("preparation: {}", if prep.is_empty() { "fine" } else { prep }), 1);
    let mut good = vec![];
    for (k, x) in ver::arr(&j["results"]).iter().enumerate() {
        for b in ver::arr(&x["bad"]) {
            rep.violation(prop(&b[0]), format!("{}; {}", s(&b[1]), about(k)));
        }
        let r = &ss["results"][k];
        rep.count(&format!("signing: {}", if s(&r["err"]).is_empty() { "signed" } else { s(&r["err"]) }), 1);
        if !flag(&x["ok"]) {
            continue;
        }
        let bits = ver::int(&x["bits"]) as u64;
        let bh = bytes(&r["sig"]["bh"]);
        if !ver::arr(&x["pres"]).iter().any(|p| keys::digest(bits, &bytes(p)) == bh) {
            for p in ["P08", "P10", "P03"] {
                rep.violation(p, format!("bh= is not the hash of the canonical body; {}", about(k)));
            }
        }
        let id = s(&reqs[k]["key"]["id"]);
        if !keys::verifies(id, bits, &bytes(&x["pre"]), &bytes(&r["sig"]["b"])) {
            for p in ["P08", "P07", "P05", "P06"] {
                rep.violation(p, format!("b= is not the signature over the selected headers; {}", about(k)));
            }
        }
        good.push(k);
    }
    if !good.is_empty() {
        verify(v, &good, rep);
    }
}

fn prop(v: &Value) -> &'static str {
    match s(v) {
        "P08" => "P08",
        "P10" => "P10",
        "P11" => "P11",
        "P12" => "P12",
        "P13" => "P13",
        x => panic!("HARNESS: property {x}"),
    }
}

fn describe(r: &Value) -> String {
    let t = |v: &Value| bytes(v).escape_ascii().to_string();
    let l = |v: &Value| ver::arr(v).iter().map(t).collect::<Vec<_>>().join(":");
    let i: Vec<String> = ver::arr(&r["i"]).iter().map(|i| format!(" i={}@{}", t(&i["local"]), t(&i["domain"]))).collect();
    let ext: Vec<String> = ver::arr(&r["ext"]).iter().map(|e| format!(" {}={}", t(&e[0]), t(&e[1]))).collect();
    let f = &r["fmt"];
    format!(
        "[{} {} {}/{} d={} s={} h={} {}l={}{} t={}{} dur={}{}{} name {} width {} indent \"{}\" order {}{}]",
        s(&r["key"]["id"]), s(&r["alg"]), s(&r["ch"]), s(&r["cb"]), t(&r["d"]), t(&r["s"]), if flag(&r["auto"]) { "auto".into() } else { l(&r["h"]) }, i.concat(),
        s(&r["bl"]), t(&r["n"]), s(&r["ts"]), t(&r["t"]), l(&r["dur"]), ext.concat(), if flag(&r["copy"]) { " copied" } else { "" },
        t(&f["name"]), ver::int(&f["width"]), t(&f["indent"]), s(&f["order"]), if flag(&f["ascii"]) { " ascii" } else { "" }
    )
}

/// The library verifies what it signed (P08).
fn verify(v: &Value, good: &[usize], rep: &mut Report) {
    let (ss, j) = (&v["s"], &v["j"]);
    let mut rng = Rng::new(ss["body"].to_string().len() as u64, "verify");
    let floor = if cfg!(feature = "pre-rfc8301") { 512 } else { 1024 };
    // ours on top, in any order, among others
    let mut hs: Vec<(String, Vec<u8>)> = ver::arr(&ss["headers"]).iter().map(|h| (string(&h[0]), bytes(&h[1]))).collect();
    let mut order = good.to_vec();
    for i in (1..order.len()).rev() {
        order.swap(i, rng.below(i + 1));
    }
    let mut at: Vec<Option<usize>> = vec![None; hs.len()];
    for k in order {
        let r = &ss["results"][k];
        hs.insert(0, (string(&r["name"]), bytes(&r["value"])));
        at.insert(0, Some(k));
        while rng.chance(1, 3) {
            let (n, v): (&str, &[u8]) = *rng.pick(&[("X-Unrelated", b" 1" as &[u8]), ("Delivered-To", b" you"), ("DKIM-Signature", b" v=1; junk"), ("Authentication-Results", b" x; dkim=none")]);
            hs.insert(0, (n.into(), v.to_vec()));
            at.insert(0, None);
        }
    }
    let headers = HeaderFields::from_vec(hs).expect("HARNESS: headers");
    let mut map: HashMap<String, ver::Entry> = HashMap::new();
    for &k in good {
        let key = &ss["reqs"][k]["key"];
        let ed = s(&key["type"]) == "ed25519";
        let form = if ed { "raw" } else if rng.chance(1, 2) { "spki" } else { "pkcs1" };
        let mut txt = format!("v=DKIM1; k={}; p={}", s(&key["type"]), keys::b64(&keys::public(s(&key["id"]), form, ver::int(&key["bits"]) as u64)));
        if flag(&j["results"][k]["strict"]) && rng.chance(1, 2) {
            txt.push_str("; t=s");
        }
        map.entry(string(&j["results"][k]["query"]))
            .or_insert(ver::Entry { err: None, recs: vec![], delay: rng.below(20) as u64, rank: 0 })
            .recs
            .push(Ok(txt.into_bytes()));
    }
    let cfg = viadkim::verifier::Config {
        max_signatures: 100,
        headers_required_in_signature: vec![FieldName::new("From").unwrap()],
        headers_forbidden_to_be_unsigned: vec![],
        min_key_bits: 0,
        allow_sha1: true,
        allow_expired: true,
        allow_timestamp_in_future: true,
        ..Default::default()
    };
    let body = bytes(&ss["body"]);
    for (chunks, done) in [(vec![&body[..]], false), (random_chunks(&mut rng, &body), true)] {
        let res = ver::Resolver(Arc::new(ver::Dns { map: map.clone(), timed: true, log: Default::default(), live: Default::default(), events: Default::default() }));
        let o = ver::session(&headers, &cfg, &res, &chunks, done);
        let results = o.results.unwrap_or_default();
        for &k in good {
            let key = &ss["reqs"][k]["key"];
            let p = at.iter().position(|a| *a == Some(k)).unwrap();
            let got = results.iter().find(|r| r.index == p).map(|r| ver::status_name(&r.status)).unwrap_or("no result".into());
            let want = if s(&key["type"]) == "rsa" && ver::int(&key["bits"]) < floor { "VerificationFailure:InsufficientKeySize" } else { "Success" };
            rep.count(&format!("verified: {}", got.split(':').next().unwrap()), 1);
            rep.check(if want == "Success" { "P08" } else { "P27" }, got == want, || {
                format!("own signature verifies with {got}, expected {want}; request {} gives {}", describe(&ss["reqs"][k]), show(&bytes(&ss["results"][k]["value"])))
            });
        }
    }
}
