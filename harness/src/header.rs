//! Header fields, sections, canonicalization and selection (P05, P06, P26).
use crate::ctx::*;
use serde_json::Value;
use std::collections::HashSet;
use viadkim::{
    canonicalize,
    crypto::HashAlgorithm,
    header::{FieldBody, FieldName, HeaderFields},
    message_hash,
    signature::CanonicalizationAlgorithm::{self, *},
};

fn one(alg: CanonicalizationAlgorithm, n: &str, v: &[u8]) -> Vec<u8> {
    let mut r = b"#".to_vec();
    canonicalize::canonicalize_header(&mut r, alg, n, v);
    r
}

pub fn fields(v: &Value) -> Vec<(String, Vec<u8>)> {
    v.as_array()
        .expect("HARNESS: fields")
        .iter()
        .map(|f| (String::from_utf8(bytes(&f[0])).expect("HARNESS: name"), bytes(&f[1])))
        .collect()
}

fn plain(h: &HeaderFields) -> Vec<(String, Vec<u8>)> {
    h.as_ref().iter().map(|(n, v)| (n.as_ref().to_owned(), v.as_ref().to_vec())).collect()
}

pub fn replay_field(v: &Value, rep: &mut Report) {
    let s = bytes(&v["s"]);
    if let Ok(t) = std::str::from_utf8(&s) {
        let exp = v["name"].as_bool().unwrap();
        let got = FieldName::new(t);
        rep.check("P26", got.is_ok() == exp, || format!("field name {} accepted: {}, expected {exp}", show(&s), got.is_ok()));
        if let Ok(n) = got {
            rep.check("P26", n.as_ref() == t, || format!("field name {} became {n}", show(&s)));
        }
    }
    let exp = v["body"].as_bool().unwrap();
    let got = FieldBody::new(&s[..]);
    rep.check("P26", got.is_ok() == exp, || format!("field body {} accepted: {}, expected {exp}", show(&s), got.is_ok()));
    if let Ok(b) = &got {
        rep.check("P26", b.as_ref() == &s[..], || format!("field body {} was altered", show(&s)));
    }
    if s.is_empty() {
        // no field at all is no header, no more than the empty text is
        let ok = v["sec"]["ok"].as_bool().unwrap();
        let got = (HeaderFields::new(vec![]).is_ok(), HeaderFields::from_vec(vec![]).is_ok());
        rep.check("P26", got == (ok, ok), || format!("a header without fields accepted: {got:?}, expected {ok}"));
    }
    let viavec = HeaderFields::from_vec(vec![("x".to_owned(), s.clone())]);
    rep.check("P26", viavec.is_ok() == exp, || format!("from_vec with body {}: {viavec:?}", show(&s)));
    if exp {
        let rel = bytes(&v["relaxed"]);
        for (n, ln) in [("Ab", "ab"), ("X-\u{7e}A", "x-~a"), ("from", "from")] {
            let got = one(Relaxed, n, &s);
            let want = [b"#", ln.as_bytes(), b":", &rel[..]].concat();
            rep.check("P06", got == want, || format!("relaxed canonicalization of {n}:{} is {}, expected {}", show(&s), show(&got), show(&want)));
            let got = one(Simple, n, &s);
            let want = [b"#", n.as_bytes(), b":", &s[..]].concat();
            rep.check("P06", got == want, || format!("simple canonicalization of {n}:{} is {}", show(&s), show(&got)));
        }
    }
    if v["text"].as_bool().unwrap() {
        let t = std::str::from_utf8(&s).expect("HARNESS: UTF-8 predicate of the specification");
        let got = t.parse::<HeaderFields>();
        let ok = v["sec"]["ok"].as_bool().unwrap();
        rep.check("P26", got.is_ok() == ok, || format!("header section {} accepted: {}, expected {ok}", show(&s), got.is_ok()));
        if let (Ok(h), true) = (&got, ok) {
            let want = fields(&v["sec"]["fields"]);
            rep.check("P26", plain(h) == want, || format!("header section {} gives {h:?}", show(&s)));
            let again = HeaderFields::from_vec(want.clone());
            let list: Vec<_> = again.clone().map(Into::into).unwrap_or_default();
            let iter: Vec<_> = again.clone().map(|h| h.into_iter().collect()).unwrap_or_default();
            rep.check("P26", list == h.as_ref() && iter == list, || format!("section {} taken apart: {list:?} and {iter:?}", show(&s)));
            rep.check("P26", again.as_ref().ok() == Some(h), || format!("section {} and its fields differ: {again:?}", show(&s)));
            rep.count("sections parsed", 1);
        }
    } else {
        assert!(std::str::from_utf8(&s).is_err(), "HARNESS: UTF-8 predicate of the specification");
    }
}

pub fn replay_select(v: &Value, rep: &mut Report) {
    let fs = fields(&v["headers"]);
    let h: Vec<FieldName> = v["h"]
        .as_array()
        .unwrap()
        .iter()
        .map(|n| FieldName::new(String::from_utf8(bytes(n)).unwrap()).expect("HARNESS: name"))
        .collect();
    let headers = HeaderFields::from_vec(fs.clone()).expect("HARNESS: headers");
    for (alg, key, dkey) in [(Simple, "simple", "dsimple"), (Relaxed, "relaxed", "drelaxed")] {
        let want = bytes(&v[key]);
        let got = canonicalize::canonicalize_headers(alg, &headers, &h);
        if got != want {
            let m = format!("{alg} canonicalization of {h:?} from {headers:?} is {}, expected {}", show(&got), show(&want));
            rep.violation("P05", m.clone());
            if alg == Relaxed || got.len() != want.len() {
                rep.violation("P06", m);
            }
        }
        if let Some(d) = v.get(dkey) {
            let pre = bytes(d);
            let sn = String::from_utf8(bytes(&v["sn"])).unwrap();
            let sv = String::from_utf8(bytes(&v["sv"])).unwrap();
            let got = message_hash::compute_data_hash(HashAlgorithm::Sha256, alg, &headers, &h, &sn, &sv);
            rep.check("P06", got[..] == sha256(&pre)[..], || format!("data hash is not that of {}", show(&pre)));
            #[cfg(feature = "pre-rfc8301")]
            {
                let got = message_hash::compute_data_hash(HashAlgorithm::Sha1, alg, &headers, &h, &sn, &sv);
                rep.check("P06", got[..] == sha1(&pre)[..], || format!("SHA-1 data hash is not that of {}", show(&pre)));
            }
        }
    }
}

pub fn replay_names(v: &Value, rep: &mut Report) {
    let a = String::from_utf8(bytes(&v["a"])).unwrap();
    let b = String::from_utf8(bytes(&v["b"])).unwrap();
    let eq = v["eq"].as_bool().unwrap();
    let x = FieldName::new(a.clone()).expect("HARNESS: name");
    let y = FieldName::new(b.clone()).expect("HARNESS: name");
    rep.check("P26", (x == y) == eq && (y == x) == eq, || format!("names {a} and {b} equal: {}", x == y));
    rep.check("P26", (x == b.as_str()) == eq && (y == a.as_str()) == eq, || format!("name {a} and text {b} equal: {}", x == b.as_str()));
    let set: HashSet<FieldName> = [x.clone()].into();
    rep.check("P26", set.contains(&y) == eq, || format!("names {a} and {b} hash alike: {}", set.contains(&y)));
    rep.check("P26", x.as_ref() == a && x.to_string() == a, || format!("name {a} is {x}"));
}
