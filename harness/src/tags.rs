//! Encodings, tag lists, names, signatures and key records (P14, P15, P16, P24, P25).
use crate::ctx::*;
use serde_json::Value;
use std::{
    collections::HashSet,
    hash::{Hash, Hasher},
};
use viadkim::{
    crypto::{HashAlgorithm, KeyType},
    decode_base64, encode_base64, quoted_printable,
    record::{DkimKeyRecord, SelectorFlag, ServiceType},
    signature::{CanonicalizationAlgorithm, DkimSignature, DkimSignatureError, Identity},
    CanonicalStr, DomainName, FieldName, Selector,
};

fn text(v: &Value) -> Option<String> {
    String::from_utf8(bytes(v)).ok()
}
/// 0/1-element sequence of byte strings.
fn opt(v: &Value) -> Option<Vec<u8>> {
    v.as_array().expect("HARNESS: option").first().map(bytes)
}
fn pairs(v: &Value) -> Vec<(Vec<u8>, Vec<u8>)> {
    v.as_array().expect("HARNESS: pairs").iter().map(|p| (bytes(&p[0]), bytes(&p[1]))).collect()
}
fn res(v: &Value) -> Option<Vec<u8>> {
    if v["ok"].as_bool().expect("HARNESS: ok") {
        Some(bytes(&v["v"]))
    } else {
        None
    }
}
fn disp(x: &Option<Vec<u8>>) -> String {
    match x {
        Some(b) => show(b),
        None => "an error".into(),
    }
}
fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn replay_qp(v: &Value, rep: &mut Report) {
    if v["free"].as_bool().unwrap() {
        rep.count("no verdict (free)", 1);
        let Some(s) = text(&v["s"]) else { return };
        let _ = quoted_printable::decode(&s);
        let _ = quoted_printable::decode_qp_section(&s);
        return;
    }
    let Some(s) = text(&v["s"]) else { return };
    let want = res(&v["dec"]);
    let got = quoted_printable::decode(&s).ok();
    rep.check("P25", got == want, || format!("decode({s:?}) gives {}, expected {}", disp(&got), disp(&want)));
    let want = res(&v["sec"]);
    let got = quoted_printable::decode_qp_section(&s).ok();
    rep.check("P25", got == want, || format!("decode_qp_section({s:?}) gives {}, expected {}", disp(&got), disp(&want)));
}

pub fn replay_b64(v: &Value, rep: &mut Report) {
    let Some(s) = text(&v["s"]) else { return };
    if !v["free"].as_bool().unwrap() {
        let want = res(&v["raw"]);
        let got = decode_base64(&s).ok();
        rep.check("P25", got == want, || format!("decode_base64({s:?}) gives {}, expected {}", disp(&got), disp(&want)));
        let want = res(&v["tag"]);
        let rec = format!("p={s}");
        let got = rec.parse::<DkimKeyRecord>().ok().map(|r| r.key_data.to_vec());
        rep.check("P25", got == want, || format!("key record {rec:?} gives {}, expected {}", disp(&got), disp(&want)));
    }
}

pub fn replay_enc(v: &Value, rep: &mut Report) {
    let s = bytes(&v["s"]);
    let want = bytes(&v["b64"]);
    let got = encode_base64(&s);
    rep.check("P25", got.as_bytes() == &want[..], || format!("encode_base64({}) is {got}", show(&s)));
    let back = decode_base64(&got).ok();
    rep.check("P25", back.as_ref() == Some(&s), || format!("decode_base64({got}) is {}", disp(&back)));
    for o in v["out"].as_array().unwrap() {
        let sp = text(&o[0]).expect("HARNESS: special");
        let special = sp.chars().next();
        for (what, got, want) in [
            ("encode", quoted_printable::encode(&s, special), bytes(&o[1])),
            ("encode_ascii_only", quoted_printable::encode_ascii_only(&s, special), bytes(&o[2])),
        ] {
            rep.check("P25", got.as_bytes() == &want[..], || format!("{what}({}, {special:?}) is {got:?}, expected {}", show(&s), show(&want)));
            let back = quoted_printable::decode(&got).ok();
            rep.check("P25", back.as_ref() == Some(&s), || format!("decode({got:?}) is {}, not {}", disp(&back), show(&s)));
            let back = quoted_printable::decode_qp_section(&got).ok();
            rep.check("P25", back.as_ref() == Some(&s), || format!("decode_qp_section({got:?}) is {}, not {}", disp(&back), show(&s)));
        }
    }
}

fn plain_pairs(t: &[(Box<str>, Box<str>)]) -> Vec<(Vec<u8>, Vec<u8>)> {
    t.iter().map(|(a, b)| (a.as_bytes().to_vec(), b.as_bytes().to_vec())).collect()
}
fn show_pairs(t: &[(Vec<u8>, Vec<u8>)]) -> String {
    t.iter().map(|(a, b)| format!("{}={}", show(a), show(b))).collect::<Vec<_>>().join(",")
}

pub fn replay_tags(v: &Value, rep: &mut Report) {
    let Some(s) = text(&v["s"]) else { return };
    let free = v["free"].as_bool().unwrap();
    for (t, ok, tags) in [(format!("p=;{s}"), "fok", "ftags"), (format!("{s};p="), "bok", "btags")] {
        let got = t.parse::<DkimKeyRecord>();
        if free {
            continue;
        }
        let ok = v[ok].as_bool().unwrap();
        let want = pairs(&v[tags]);
        match &got {
            Ok(r) => {
                let ext = plain_pairs(&r.ext_tags);
                rep.check("P15", ok, || format!("tag list {t:?} accepted"));
                rep.check("P15", !ok || ext == want, || format!("tag list {t:?} gives {}, expected {}", show_pairs(&ext), show_pairs(&want)));
            }
            Err(e) => {
                rep.check("P15", !ok, || format!("tag list {t:?} rejected: {e:?}"));
                rep.check("P15", ok || format!("{e:?}") == "TagListFormat", || format!("tag list {t:?}: {e:?}"));
            }
        }
    }
}

pub fn replay_domain(v: &Value, rep: &mut Report) {
    let Some(s) = text(&v["s"]) else { return };
    let d = DomainName::new(s.clone());
    let e = Selector::new(s.clone());
    rep.check("P24", s.parse::<DomainName>().ok() == d.clone().ok() && s.parse::<Selector>().ok() == e.clone().ok(), || {
        format!("parse and new differ on {s:?}")
    });
    if let Ok(d) = &d {
        rep.check("P24", d.as_ref() == s && d.to_string() == s, || format!("domain {s:?} became {d}"));
        rep.check("P24", e.is_ok(), || format!("domain {s:?} is no selector"));
        for f in [d.to_ascii(), d.to_unicode()] {
            let g = DomainName::new(f.clone());
            rep.check("P24", g.as_ref().map_or(false, |g| g.eq_or_subdomain_of(d) && d.eq_or_subdomain_of(g)), || {
                format!("form {f:?} of domain {s:?} is not the same domain")
            });
            rep.check("P24", g.as_ref().map_or(false, |g| g.to_ascii() == d.to_ascii()), || format!("form {f:?} of domain {s:?} has another A-form"));
        }
        rep.check("P24", d.to_ascii().is_ascii(), || format!("to_ascii of {s:?}"));
    }
    if v["free"].as_bool().unwrap() {
        rep.count("no verdict (free)", 1);
        return;
    }
    let (dom, sel) = (v["dom"].as_bool().unwrap(), v["sel"].as_bool().unwrap());
    rep.check("P24", d.is_ok() == dom, || format!("domain {s:?} accepted: {}, expected {dom}", d.is_ok()));
    rep.check("P24", e.is_ok() == sel, || format!("selector {s:?} accepted: {}, expected {sel}", e.is_ok()));
    let (a, u) = (bytes(&v["a"]), bytes(&v["u"]));
    if let (Ok(d), true) = (&d, dom) {
        rep.check("P24", d.to_ascii().as_bytes() == &a[..], || format!("A-form of {s:?} is {:?}", d.to_ascii()));
        rep.check("P24", d.to_unicode().as_bytes() == &u[..], || format!("U-form of {s:?} is {:?}", d.to_unicode()));
    }
    if let (Ok(e), true) = (&e, sel) {
        rep.check("P24", e.as_ref() == s && e.to_string() == s, || format!("selector {s:?} became {e}"));
        rep.check("P24", e.to_ascii().as_bytes() == &a[..], || format!("A-form of {s:?} is {:?}", e.to_ascii()));
        rep.check("P24", e.to_unicode().as_bytes() == &u[..], || format!("U-form of {s:?} is {:?}", e.to_unicode()));
    }
}

pub fn replay_pair(v: &Value, rep: &mut Report) {
    let a = text(&v["a"]).expect("HARNESS: name");
    let b = text(&v["b"]).expect("HARNESS: name");
    if v["free"].as_bool().unwrap() {
        rep.count("no verdict (free)", 1);
        return;
    }
    let (eq, sub) = (v["eq"].as_bool().unwrap(), v["sub"].as_bool().unwrap());
    match (DomainName::new(a.clone()), DomainName::new(b.clone())) {
        (Ok(x), Ok(y)) => {
            rep.check("P24", x.eq_or_subdomain_of(&y) == sub, || format!("{a} within {b}: {}, expected {sub}", !sub));
            rep.check("P24", (x == y) == eq && (y == x) == eq, || format!("domain {a} equal to {b}: {}, expected {eq}", x == y));
            rep.check("P24", !eq || hash_of(&x) == hash_of(&y), || format!("equal domains {a}, {b} hash differently"));
            rep.check("P24", [x].into_iter().collect::<HashSet<_>>().contains(&y) == eq, || format!("set of {a} contains {b}: {}", !eq));
        }
        x => {
            rep.check("P24", false, || format!("valid domains {a}, {b}: {x:?}"));
        }
    }
    if let (Ok(x), Ok(y)) = (Selector::new(a.clone()), Selector::new(b.clone())) {
        rep.check("P24", (x == y) == eq && (y == x) == eq, || format!("selector {a} equal to {b}: {}, expected {eq}", x == y));
        rep.check("P24", !eq || hash_of(&x) == hash_of(&y), || format!("equal selectors {a}, {b} hash differently"));
    } else {
        rep.check("P24", false, || format!("valid selectors {a}, {b} rejected"));
    }
}

pub fn replay_identity(v: &Value, rep: &mut Report) {
    let Some(s) = text(&v["s"]) else { return };
    let got = Identity::new(&s);
    rep.check("P24", got == s.parse(), || format!("parse and new differ on identity {s:?}"));
    if let Ok(i) = &got {
        rep.check("P24", i.to_string() == s, || format!("identity {s:?} became {i}"));
    }
    if v["free"].as_bool().unwrap() {
        rep.count("no verdict (free)", 1);
        return;
    }
    let ok = v["ok"].as_bool().unwrap();
    rep.check("P24", got.is_ok() == ok, || format!("identity {s:?} accepted: {}, expected {ok}", got.is_ok()));
    if let (Ok(i), true) = (&got, ok) {
        let l = bytes(&v["local"]);
        rep.check("P24", i.local_part.as_deref().unwrap_or("").as_bytes() == &l[..] && i.local_part.is_some() != l.is_empty(), || {
            format!("identity {s:?} has local part {:?}", i.local_part)
        });
        rep.check("P24", i.domain.as_ref().as_bytes() == &bytes(&v["domain"])[..], || format!("identity {s:?} has domain {}", i.domain));
    }
}

fn b(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array().expect("HARNESS: strings").iter().map(|x| x.as_str().expect("HARNESS: string").to_owned()).collect()
}
fn ob(s: &Option<Box<str>>) -> Option<Vec<u8>> {
    s.as_ref().map(|s| b(s))
}

/// What differs between the signature and its interpretation by the specification.
pub fn signature_differs(g: &DkimSignature, val: &Value) -> Option<String> {
    let mut diff = None;
    let mut eq = |what: &str, ok: bool| {
        if !ok && diff.is_none() {
            diff = Some(what.to_owned());
        }
    };
    let num = |v: &Value| -> Option<u128> { opt(v).map(|d| String::from_utf8(d).unwrap().parse().expect("HARNESS: number")) };
    eq("algorithm", g.algorithm.canonical_str() == val["alg"].as_str().unwrap());
    eq("signature data", g.signature_data[..] == bytes(&val["b"])[..]);
    eq("body hash", g.body_hash[..] == bytes(&val["bh"])[..]);
    let can = |a: CanonicalizationAlgorithm, k: &str| a.canonical_str() == val[k].as_str().unwrap();
    eq("header canonicalization", can(g.canonicalization.header, "ch"));
    eq("body canonicalization", can(g.canonicalization.body, "cb"));
    eq("domain", b(g.domain.as_ref()) == bytes(&val["d"]));
    eq("selector", b(g.selector.as_ref()) == bytes(&val["s"]));
    let h: Vec<Vec<u8>> = val["h"].as_array().unwrap().iter().map(bytes).collect();
    eq("signed headers", g.signed_headers.iter().map(|n| b(n.as_ref())).collect::<Vec<_>>() == h);
    match val["i"].as_array().unwrap().first() {
        None => eq("identity", g.identity.is_none()),
        Some(i) => {
            let l = bytes(&i["local"]);
            let l = if l.is_empty() { None } else { Some(l) };
            eq("identity", g.identity.as_ref().map(|x| (ob(&x.local_part), b(x.domain.as_ref()))) == Some((l, bytes(&i["domain"]))));
        }
    }
    eq("body length", g.body_length.map(u128::from) == num(&val["l"]));
    eq("timestamp", g.timestamp.map(u128::from) == num(&val["t"]));
    eq("expiration", g.expiration.map(u128::from) == num(&val["x"]));
    let z: Vec<(Vec<u8>, Vec<u8>)> = g.copied_headers.iter().map(|(n, v): &(FieldName, _)| (b(n.as_ref()), v.to_vec())).collect();
    eq("copied headers", z == pairs(&val["z"]));
    eq("extension tags", plain_pairs(&g.ext_tags) == pairs(&val["ext"]));
    diff
}

/// Compares what an error carries of the signature with the tag values there are.
pub fn salvage_differs(x: &DkimSignatureError, raw: &Value, text: &dyn Fn(&Value) -> Vec<u8>) -> Vec<String> {
    [("a", &x.algorithm_str), ("b", &x.signature_data_str), ("d", &x.domain_str), ("i", &x.identity_str), ("s", &x.selector_str)]
        .into_iter()
        .filter(|(n, got)| got.as_ref().map(|g| g.as_bytes().to_vec()) != raw[n].as_array().expect("HARNESS: salvage").first().map(text))
        .map(|(n, got)| format!("carries {n}={got:?}"))
        .collect()
}

pub fn replay_sig(v: &Value, rep: &mut Report) {
    let Some(s) = text(&v["s"]) else { return };
    let got = s.parse::<DkimSignature>();
    let e = &v[if cfg!(feature = "pre-rfc8301") { "leg" } else { "def" }];
    if e["free"].as_bool().unwrap() {
        rep.count("no verdict (free)", 1);
        return;
    }
    let errs = strs(&e["errs"]);
    match &got {
        Ok(g) => {
            if !errs.is_empty() {
                rep.violation("P14", format!("signature {s:?} accepted in spite of {errs:?}"));
            } else if let Some(d) = signature_differs(g, &e["val"]) {
                rep.violation("P14", format!("{d} of signature {s:?} is not as written: {g:?}"));
            }
            rep.count("signatures accepted", 1);
        }
        Err(x) => {
            let kind = format!("{:?}", x.kind);
            rep.check("P14", errs.contains(&kind), || format!("signature {s:?} rejected with {kind}, expected {errs:?}"));
            for d in salvage_differs(x, &e["raw"], &|t| bytes(t)) {
                for p in ["P14", "P33"] {
                    rep.violation(p, format!("error on {s:?} {d}"));
                }
            }
            rep.count("signatures rejected", 1);
        }
    }
}

pub fn record_differs(g: &DkimKeyRecord, val: &Value) -> Option<&'static str> {
    let mut diff = None;
    let mut eq = |what: &'static str, ok: bool| {
        if !ok && diff.is_none() {
            diff = Some(what);
        }
    };
    eq("key type", match g.key_type { KeyType::Rsa => "rsa", KeyType::Ed25519 => "ed25519" } == val["key"].as_str().unwrap());
    let h: Vec<&str> = g
        .hash_algorithms
        .iter()
        .map(|h| match h {
            HashAlgorithm::Sha256 => "sha256",
            #[cfg(feature = "pre-rfc8301")]
            HashAlgorithm::Sha1 => "sha1",
        })
        .collect();
    eq("hash algorithms", h == strs(&val["hash"]));
    let notes = opt(&val["notes"]).map(|n| String::from_utf8_lossy(&n).into_owned());
    eq("notes", g.notes.as_deref() == notes.as_deref());
    eq("key data", g.key_data[..] == bytes(&val["data"])[..]);
    let s: Vec<&str> = g.service_types.iter().map(|s| match s { ServiceType::Any => "*", ServiceType::Email => "email" }).collect();
    eq("service types", s == strs(&val["serv"]));
    let f: Vec<&str> = g.flags.iter().map(|s| match s { SelectorFlag::Testing => "y", SelectorFlag::NoSubdomains => "s" }).collect();
    eq("flags", f == strs(&val["flags"]));
    eq("testing flag", g.is_testing() == f.contains(&"y"));
    eq("extension tags", plain_pairs(&g.ext_tags) == pairs(&val["ext"]));
    diff
}

pub fn replay_key(v: &Value, rep: &mut Report) {
    let Some(s) = text(&v["s"]) else { return };
    let got = s.parse::<DkimKeyRecord>();
    let e = &v[if cfg!(feature = "pre-rfc8301") { "leg" } else { "def" }];
    if e["free"].as_bool().unwrap() {
        rep.count("no verdict (free)", 1);
        return;
    }
    let errs = strs(&e["errs"]);
    match &got {
        Ok(g) => {
            if !errs.is_empty() {
                rep.violation("P16", format!("key record {s:?} accepted in spite of {errs:?}"));
            } else if let Some(d) = record_differs(g, &e["val"]) {
                rep.violation("P16", format!("{d} of key record {s:?} not as written: {g:?}"));
            }
            rep.count("key records accepted", 1);
        }
        Err(x) => {
            let kind = format!("{x:?}");
            rep.check("P16", errs.contains(&kind), || format!("key record {s:?} rejected with {kind}, expected {errs:?}"));
            rep.count("key records rejected", 1);
        }
    }
}
