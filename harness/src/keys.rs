//! Test keys (fixtures/keys) and independent cryptography.
use crate::ctx::*;
use base64ct::{Base64, Encoding};
use ed25519_dalek::Signer as _;
use rsa::{
    pkcs1::EncodeRsaPublicKey,
    pkcs8::{DecodePrivateKey, EncodePublicKey},
    traits::{PublicKeyParts, SignatureScheme},
    Pkcs1v15Sign, RsaPrivateKey,
};
use std::{
    collections::HashMap,
    sync::{Mutex, OnceLock},
};

pub enum Key {
    Rsa(RsaPrivateKey),
    Ed(ed25519_dalek::SigningKey),
}

pub fn pem(id: &str) -> String {
    let dir = std::env::var("VERIF_DIR").expect("HARNESS: VERIF_DIR");
    std::fs::read_to_string(format!("{dir}/fixtures/keys/{id}.pem")).unwrap_or_else(|e| panic!("HARNESS: key {id}: {e}"))
}

pub fn key(id: &str) -> &'static Key {
    static KEYS: OnceLock<Mutex<HashMap<String, &'static Key>>> = OnceLock::new();
    let m = KEYS.get_or_init(Default::default);
    let mut m = m.lock().unwrap();
    if let Some(k) = m.get(id) {
        return k;
    }
    let text: String = pem(id).lines().filter(|l| !l.starts_with("---")).collect();
    let der = Base64::decode_vec(&text).expect("HARNESS: pem");
    let k = if id.starts_with("rsa") {
        Key::Rsa(RsaPrivateKey::from_pkcs8_der(&der).expect("HARNESS: rsa key"))
    } else {
        Key::Ed(ed25519_dalek::SigningKey::from_pkcs8_der(&der).expect("HARNESS: ed25519 key"))
    };
    let k: &'static Key = Box::leak(Box::new(k));
    m.insert(id.to_owned(), k);
    k
}

pub fn digest(bits: u64, pre: &[u8]) -> Vec<u8> {
    match bits {
        256 => sha256(pre),
        #[cfg(feature = "pre-rfc8301")]
        160 => sha1(pre),
        _ => panic!("HARNESS: digest {bits}"),
    }
}

/// Key data in the given form.
pub fn public(id: &str, form: &str, bits: u64) -> Vec<u8> {
    match key(id) {
        Key::Rsa(k) => {
            let p = k.to_public_key();
            assert!(p.n().bits() as u64 == bits, "HARNESS: size of {id}");
            let spki = p.to_public_key_der().unwrap().as_bytes().to_vec();
            match form {
                "spki" => spki,
                "pkcs1" => p.to_pkcs1_der().unwrap().as_bytes().to_vec(),
                "junk" => [&spki[..], &[0]].concat(),
                "prejunk" => [&[0], &spki[..]].concat(),
                "junk1" => [p.to_pkcs1_der().unwrap().as_bytes(), &[0]].concat(),
                "prejunk1" => [&[0], p.to_pkcs1_der().unwrap().as_bytes()].concat(),
                "trunc1" => p.to_pkcs1_der().unwrap().as_bytes()[..p.to_pkcs1_der().unwrap().as_bytes().len() - 1].to_vec(),
                "twice" => [&spki[..], &spki[..]].concat(),
                "otheroid" => {
                    // rsaEncryption turned into another of PKCS #1
                    let mut d = spki;
                    let at = d.windows(9).position(|w| w == [0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1]).expect("HARNESS: oid");
                    d[at + 8] = 10;
                    d
                }
                "trunc" => spki[..spki.len() - 1].to_vec(),
                _ => panic!("HARNESS: form {form}"),
            }
        }
        Key::Ed(k) => {
            let raw = k.verifying_key().to_bytes().to_vec();
            let mut spki = vec![0x30, 0x2a, 0x30, 0x05, 0x06, 0x03, 0x2b, 0x65, 0x70, 0x03, 0x21, 0x00];
            spki.extend(&raw);
            match form {
                "raw" => raw,
                "spki" => spki,
                "junk" => [&raw[..], &[0]].concat(),
                "prejunk" => [&[0], &raw[..]].concat(),
                "twice" => [&raw[..], &raw[..]].concat(),
                "trunc" => raw[..31].to_vec(),
                "nopoint" => {
                    let mut b = [0; 32];
                    while ed25519_dalek::VerifyingKey::from_bytes(&b).is_ok() {
                        b[0] += 1;
                    }
                    b.to_vec()
                }
                _ => panic!("HARNESS: form {form}"),
            }
        }
    }
}

pub fn sign(id: &str, bits: u64, pre: &[u8]) -> Vec<u8> {
    let d = digest(bits, pre);
    match key(id) {
        Key::Rsa(k) => {
            let scheme = match bits {
                256 => Pkcs1v15Sign::new::<sha2::Sha256>(),
                #[cfg(feature = "pre-rfc8301")]
                160 => Pkcs1v15Sign::new::<sha1::Sha1>(),
                _ => panic!("HARNESS: bits"),
            };
            scheme.sign(None::<&mut NoRng>, k, &d).expect("HARNESS: signing")
        }
        Key::Ed(k) => k.sign(&d).to_bytes().to_vec(),
    }
}

/// Whether sig is the signature over pre.
pub fn verifies(id: &str, bits: u64, pre: &[u8], sig: &[u8]) -> bool {
    let d = digest(bits, pre);
    match key(id) {
        Key::Rsa(k) => {
            let scheme = match bits {
                256 => Pkcs1v15Sign::new::<sha2::Sha256>(),
                #[cfg(feature = "pre-rfc8301")]
                160 => Pkcs1v15Sign::new::<sha1::Sha1>(),
                _ => panic!("HARNESS: bits"),
            };
            scheme.verify(&k.to_public_key(), &d, sig).is_ok()
        }
        Key::Ed(k) => {
            let Ok(s) = ed25519_dalek::Signature::from_slice(sig) else { return false };
            k.verifying_key().verify_strict(&d, &s).is_ok()
        }
    }
}

pub struct NoRng;
impl rsa::rand_core::RngCore for NoRng {
    fn next_u32(&mut self) -> u32 {
        panic!("HARNESS: rng")
    }
    fn next_u64(&mut self) -> u64 {
        panic!("HARNESS: rng")
    }
    fn fill_bytes(&mut self, _: &mut [u8]) {
        panic!("HARNESS: rng")
    }
    fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), rsa::rand_core::Error> {
        panic!("HARNESS: rng")
    }
}
impl rsa::rand_core::CryptoRng for NoRng {}

pub fn b64(b: &[u8]) -> String {
    Base64::encode_string(b)
}
