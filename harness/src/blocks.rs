//! Building blocks on their own: names (spec/Names.tla), counting hasher (spec/MCCounter.tla), keys (spec/MCKeys.tla).
use crate::{ctx::*, keys};
use rsa::{pkcs8::EncodePrivateKey, Pkcs1v15Sign};
use serde_json::Value;
use std::collections::BTreeSet;
use viadkim::{
    crypto::{self, CountingHasher, HashAlgorithm, HashStatus, KeyType, SigningKey, VerifyingKey},
    record::{SelectorFlag, ServiceType},
    signature::{Canonicalization, CanonicalizationAlgorithm, SigningAlgorithm},
    CanonicalStr, DkimResult,
};

const LEGACY: bool = cfg!(feature = "pre-rfc8301");

fn mode(v: &Value) -> &Value {
    if LEGACY {
        &v["leg"]
    } else {
        &v["def"]
    }
}

fn forms<T: CanonicalStr + std::fmt::Display + std::fmt::Debug>(x: &T) -> Option<String> {
    let c = x.canonical_str().to_owned();
    (x.to_string() == c && format!("{x:?}") == c).then_some(c)
}

pub fn replay_name(v: &Value, rep: &mut Report) {
    let s = String::from_utf8(bytes(&v["s"]));
    let Ok(s) = s else { return };
    let want = mode(v)[0].as_str().map(str::to_owned);
    let got = match v["kind"].as_str().unwrap() {
        "alg" => s.parse::<SigningAlgorithm>().ok().map(|x| x.to_string()),
        "ca" => s.parse::<CanonicalizationAlgorithm>().ok().map(|x| x.to_string()),
        "canon" => s.parse::<Canonicalization>().ok().map(|x| x.to_string()),
        k => panic!("HARNESS: kind {k}"),
    };
    rep.check("P30", got == want, || format!("{} {s:?} is read as {got:?}, expected {want:?}", v["kind"]));
}

pub fn replay_table(v: &Value, rep: &mut Report) {
    use CanonicalizationAlgorithm::*;
    let algs = vec![
        SigningAlgorithm::RsaSha256,
        SigningAlgorithm::Ed25519Sha256,
        #[cfg(feature = "pre-rfc8301")]
        SigningAlgorithm::RsaSha1,
    ];
    let cans: Vec<Canonicalization> = [(Simple, Simple), (Simple, Relaxed), (Relaxed, Simple), (Relaxed, Relaxed)].into_iter().map(Into::into).collect();
    let hashes = vec![
        HashAlgorithm::Sha256,
        #[cfg(feature = "pre-rfc8301")]
        HashAlgorithm::Sha1,
    ];
    let kts = [KeyType::Rsa, KeyType::Ed25519];
    use DkimResult as R;
    let mut table: Vec<(&str, Vec<Option<String>>)> = vec![
        ("alg", algs.iter().map(forms).collect()),
        ("ca", [Simple, Relaxed].iter().map(forms).collect()),
        ("canon", cans.iter().map(forms).collect()),
        ("key", kts.iter().map(forms).collect()),
        ("hash", hashes.iter().map(forms).collect()),
        ("service", [ServiceType::Any, ServiceType::Email].iter().map(forms).collect()),
        ("flag", [SelectorFlag::Testing, SelectorFlag::NoSubdomains].iter().map(forms).collect()),
        ("result", [R::None, R::Pass, R::Fail, R::Policy, R::Neutral, R::Temperror, R::Permerror].iter().map(forms).collect()),
    ];
    for (kind, got) in table.drain(..) {
        let want: Vec<Option<String>> = arr(&mode(v)[kind]).iter().map(|x| Some(x.as_str().unwrap().to_owned())).collect();
        rep.check("P30", got == want, || format!("names of {kind} are {got:?}, expected {want:?}"));
    }
    for c in &cans {
        let whole: (CanonicalizationAlgorithm, CanonicalizationAlgorithm) = (c.header, c.body);
        rep.check("P30", c.to_string() == format!("{}/{}", whole.0, whole.1), || format!("{c} is not made of {whole:?}"));
    }
    let parts: BTreeSet<(String, String, String)> = arr(&v["parts"])
        .iter()
        .map(|p| (p[0].as_str().unwrap().to_owned(), p[1].as_str().unwrap().to_owned(), p[2].as_str().unwrap().to_owned()))
        .filter(|p| LEGACY || p.2 != "sha1")
        .collect();
    let made: BTreeSet<_> = algs
        .iter()
        .map(|a| {
            let two: (KeyType, HashAlgorithm) = (*a).into();
            rep.check("P30", two == (a.key_type(), a.hash_algorithm()), || format!("parts of {a} are {two:?}"));
            (a.to_string(), a.key_type().to_string(), a.hash_algorithm().to_string())
        })
        .collect();
    rep.check("P30", made == parts, || format!("algorithms are made of {made:?}, expected {parts:?}"));
    for k in kts {
        for h in &hashes {
            let got = SigningAlgorithm::from_parts(k, *h).map(|a| a.to_string());
            let want = parts.iter().find(|p| p.1 == k.to_string() && p.2 == h.to_string()).map(|p| p.0.clone());
            rep.check("P30", got == want, || format!("{k} and {h} make {got:?}, expected {want:?}"));
        }
    }
    let all: BTreeSet<String> = HashAlgorithm::all().iter().map(|h| h.to_string()).collect();
    rep.check("P30", all == hashes.iter().map(|h| h.to_string()).collect() && HashAlgorithm::all().len() == hashes.len(), || format!("all hash algorithms: {all:?}"));
    for (kind, got) in [
        ("ca", CanonicalizationAlgorithm::default().to_string()),
        ("canon", Canonicalization::default().to_string()),
        ("service", ServiceType::default().to_string()),
    ] {
        rep.check("P30", v["defaults"][kind] == got, || format!("default of {kind} is {got}"));
    }
}

fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().expect("HARNESS: not an array")
}

pub fn replay_counter(v: &Value, rep: &mut Report) {
    let limit = match v["limit"].as_i64().unwrap() {
        -1 => None,
        -2 => Some(usize::MAX),
        n => Some(n as usize),
    };
    let sizes: Vec<usize> = arr(&v["chunks"]).iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let mut rng = Rng(limit.unwrap_or(7) as u64 ^  sizes.iter().fold(3u64, |a, b| a.wrapping_mul(1000003).wrapping_add(*b as u64)));
    let input: Vec<u8> = (0..sizes.iter().sum()).map(|_| rng.next() as u8).collect();
    for (alg, bits) in [
        (HashAlgorithm::Sha256, 256),
        #[cfg(feature = "pre-rfc8301")]
        (HashAlgorithm::Sha1, 160),
    ] {
        let mut h = CountingHasher::new(alg, limit);
        let mut at = 0;
        let mut got = vec![("new", h.is_done())];
        for m in &sizes {
            let st = match h.update(&input[at..at + m]) {
                HashStatus::AllConsumed => "AllConsumed",
                HashStatus::Truncated => "Truncated",
            };
            at += m;
            got.push((st, h.is_done()));
        }
        let want: Vec<_> = arr(&v["said"]).iter().map(|x| (x["st"].as_str().unwrap(), x["done"].as_bool().unwrap())).collect();
        rep.check("P31", got == want, || format!("counting hasher says {got:?}, expected {want:?}"));
        let want = v["answer"][0].as_u64().map(|n| (keys::digest(bits, &input[..n as usize]).into_boxed_slice(), n as usize));
        let got = h.finish().ok();
        rep.check("P31", got == want, || format!("counting hasher counts {:?} bytes, expected {:?} (or digests others)", got.as_ref().map(|x| x.1), want.as_ref().map(|x| x.1)));
        rep.check("P31", crypto::digest(alg, &input)[..] == keys::digest(bits, &input)[..], || "digest of the whole input".into());
    }
}

fn pem(label: &str, shape: &str, der: &[u8]) -> String {
    let b = keys::b64(der);
    let lines: String = b.as_bytes().chunks(64).map(|l| std::str::from_utf8(l).unwrap().to_owned() + "\n").collect();
    let end = if shape == "otherend" { "CERTIFICATE" } else { label };
    match shape {
        "plain" | "otherend" => format!("-----BEGIN {label}-----\n{lines}-----END {end}-----\n"),
        "crlf" => pem(label, "plain", der).replace('\n', "\r\n"),
        "nofinal" => pem(label, "plain", der).trim_end().to_owned(),
        "empty" => String::new(),
        "nobegin" => format!("{lines}-----END {label}-----\n"),
        "noend" => format!("-----BEGIN {label}-----\n{lines}"),
        "badbase64" => format!("-----BEGIN {label}-----\n*{lines}-----END {label}-----\n"),
        _ => panic!("HARNESS: shape {shape}"),
    }
}

pub fn replay_pem(v: &Value, rep: &mut Report) {
    let id = v["key"]["id"].as_str().unwrap();
    let key = keys::key(id);
    let der = match key {
        keys::Key::Rsa(k) => k.to_pkcs8_der().expect("HARNESS: der").as_bytes().to_vec(),
        keys::Key::Ed(k) => {
            let mut d = vec![0x30, 0x2e, 2, 1, 0, 0x30, 5, 6, 3, 0x2b, 0x65, 0x70, 4, 0x22, 4, 0x20];
            d.extend(k.to_bytes());
            d
        }
    };
    let rsa = matches!(key, keys::Key::Rsa(_));
    let content = match v["content"].as_str().unwrap() {
        "key" => der,
        "none" => vec![],
        "junk" => b"no key here".to_vec(),
        "cut" => der[..der.len() - 1].to_vec(),
        "more" => [&der[..], &[0]].concat(),
        "public" => keys::public(id, "spki", v["key"]["bits"].as_u64().unwrap()),
        "otherkind" => {
            // another algorithm's object identifier
            let oid: &[u8] = if rsa { &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1] } else { &[0x2b, 0x65, 0x70] };
            let at = der.windows(oid.len()).position(|w| w == oid).expect("HARNESS: oid") + oid.len() - 1;
            let mut d = der;
            d[at] = if rsa { 2 } else { 0x71 };
            d
        }
        "badkey" => {
            // the inner tag of the key
            let mut d = der;
            let at = if rsa { (20..32).find(|i| d[*i] == 0x30).expect("HARNESS: inner key") } else { 14 };
            d[at] = 0x31;
            d
        }
        c => panic!("HARNESS: content {c}"),
    };
    let text = pem(v["label"].as_str().unwrap(), v["shape"].as_str().unwrap(), &content);
    let errs: Vec<&str> = arr(&v["errs"]).iter().map(|e| e.as_str().unwrap()).collect();
    match SigningKey::from_pkcs8_pem(&text) {
        Ok(k) => {
            rep.check("P31", errs.is_empty(), || format!("key document {text:?} accepted in spite of {errs:?}"));
            let same = match (&k, key) {
                (SigningKey::Rsa(a), keys::Key::Rsa(b)) => a == b && k.key_type() == KeyType::Rsa,
                (SigningKey::Ed25519(a), keys::Key::Ed(b)) => a.to_bytes() == b.to_bytes() && k.key_type() == KeyType::Ed25519,
                _ => false,
            };
            rep.check("P31", same, || format!("key {id} read as another key of type {}", k.key_type()));
            rep.check("P31", v["siglen"] == k.signature_length() as u64, || format!("signatures of {id} are said to have {} bytes", k.signature_length()));
        }
        Err(e) => {
            let e = format!("{e:?}");
            rep.check("P31", errs.contains(&&e[..]), || format!("key document {text:?} ({id}) rejected: {e}, expected {errs:?}"));
        }
    }
}

pub fn replay_vkey(v: &Value, rep: &mut Report) {
    let id = v["key"]["id"].as_str().unwrap();
    let form = v["form"].as_str().unwrap();
    let data = keys::public(id, form, v["key"]["bits"].as_u64().unwrap());
    let kt = if v["as"] == "rsa" { KeyType::Rsa } else { KeyType::Ed25519 };
    match VerifyingKey::from_key_data(kt, &data) {
        Ok(k) => {
            rep.check("P31", v["read"] == true, || format!("{form} data of {id} accepted as {kt} key"));
            let same = match (&k, keys::key(id)) {
                (VerifyingKey::Rsa(a), keys::Key::Rsa(b)) => *a == b.to_public_key(),
                (VerifyingKey::Ed25519(a), keys::Key::Ed(b)) => *a == b.verifying_key(),
                _ => false,
            };
            rep.check("P31", same, || format!("{form} data of {id} read as another key"));
            rep.check("P31", k.key_size() == v["size"][0].as_u64().map(|n| n as usize), || format!("size of {id} is {:?}", k.key_size()));
            let small = k.validate_min_key_size() == Err(crypto::VerificationError::InsufficientKeySize);
            rep.check("P31", *mode(&v["small"]) == small, || format!("{id} is {}too small", if small { "" } else { "not " }));
        }
        Err(_) => rep.check("P31", v["read"] == false, || format!("{form} data of {id} rejected as {kt} key")),
    }
}

pub fn replay_crypt(v: &Value, rep: &mut Report) {
    let alg = match v["hash"].as_u64().unwrap() {
        256 => HashAlgorithm::Sha256,
        #[cfg(feature = "pre-rfc8301")]
        160 => HashAlgorithm::Sha1,
        _ => return,
    };
    let bits = v["hash"].as_u64().unwrap();
    let (id, by) = (v["key"]["id"].as_str().unwrap(), v["by"]["id"].as_str().unwrap());
    let spoil = v["spoil"].as_str().unwrap();
    let msg = keys::digest(bits, format!("{id} {by}").as_bytes());
    let other = keys::digest(bits, b"other");
    let of = if spoil == "othermsg" { &other } else { &msg };
    let sig = match keys::key(by) {
        keys::Key::Rsa(k) if spoil == "otherhash" => {
            let Ok(s) = k.sign(Pkcs1v15Sign::new_unprefixed(), of) else { return };
            Some(s)
        }
        keys::Key::Rsa(k) => crypto::sign_rsa(alg, k, of).ok(),
        keys::Key::Ed(_) if spoil == "otherhash" => return,
        keys::Key::Ed(k) => Some(crypto::sign_ed25519(k, of)),
    };
    if spoil != "otherhash" {
        rep.check("P31", v["signs"] == sig.is_some(), || format!("{by} {} a {bits} bit digest", if sig.is_some() { "signs" } else { "does not sign" }));
    }
    let Some(mut sig) = sig else { return };
    rep.check("P31", v["siglen"] == sig.len() as u64, || format!("signature of {by} has {} bytes", sig.len()));
    let n = sig.len();
    match spoil {
        "none" | "othermsg" | "otherhash" => {}
        "flipfirst" => sig[0] ^= 1,
        "flipmid" => sig[n / 2] ^= 0x10,
        "fliplast" => sig[n - 1] ^= 1,
        "cut" => drop(sig.pop()),
        "cutfirst" => drop(sig.remove(0)),
        "pad" => sig.push(0),
        "zerofirst" => sig.insert(0, 0),
        "empty" => sig.clear(),
        "zeros" => sig.fill(0),
        _ => panic!("HARNESS: spoil {spoil}"),
    }
    let ok = match keys::key(id) {
        keys::Key::Rsa(k) => crypto::verify_rsa(&k.to_public_key(), alg, &msg, &sig).is_ok(),
        keys::Key::Ed(k) => crypto::verify_ed25519(&k.verifying_key(), &msg, &sig).is_ok(),
    };
    rep.check("P31", v["good"] == ok, || format!("signature of {by} ({spoil}, {bits} bits) {} by {id}", if ok { "accepted" } else { "refused" }));
}
