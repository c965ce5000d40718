//! Reference DIDComm encryption, decryption and signing, written from the specification (RFC 7516/7518,
//! ECDH-1PU draft 4, DIDComm v2), independent of the code under test. Every header field can be overridden.
use crate::fix::*;
use askar_crypto::alg::{aes::*, chacha20::*, ed25519::Ed25519KeyPair, k256::K256KeyPair, p256::P256KeyPair, x25519::X25519KeyPair};
use askar_crypto::buffer::SecretBytes;
use askar_crypto::encrypt::KeyAeadInPlace;
use askar_crypto::kdf::{ecdh_1pu::Ecdh1PU, ecdh_es::EcdhEs, FromKeyDerivation};
use askar_crypto::repr::KeySecretBytes;
use askar_crypto::sign::{KeySigVerify, KeySign, SignatureType};
use serde_json::Value;
use sha2::{Digest, Sha256};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ce { Cbc, Gcm, Xc }
pub fn ce(i: u32) -> Ce { match i { 0 => Ce::Cbc, 1 => Ce::Xc, _ => Ce::Gcm } }
impl Ce {
    pub fn name(self) -> &'static str { match self { Ce::Cbc => "A256CBC-HS512", Ce::Gcm => "A256GCM", Ce::Xc => "XC20P" } }
    pub fn key_len(self) -> usize { if self == Ce::Cbc { 64 } else { 32 } }
    pub fn iv_len(self) -> usize { match self { Ce::Cbc => 16, Ce::Gcm => 12, Ce::Xc => 24 } }
    pub fn tag_len(self) -> usize { if self == Ce::Cbc { 32 } else { 16 } }
}
pub const ES: &str = "ECDH-ES+A256KW";
pub const PU: &str = "ECDH-1PU+A256KW";

/// content encryption: (ciphertext, tag)
pub fn seal(c: Ce, key: &[u8], iv: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut b = SecretBytes::from_slice(pt);
    let n = match c {
        Ce::Cbc => AesKey::<A256CbcHs512>::from_secret_bytes(key).unwrap().encrypt_in_place(&mut b, iv, aad).unwrap(),
        Ce::Gcm => AesKey::<A256Gcm>::from_secret_bytes(key).unwrap().encrypt_in_place(&mut b, iv, aad).unwrap(),
        Ce::Xc => Chacha20Key::<XC20P>::from_secret_bytes(key).unwrap().encrypt_in_place(&mut b, iv, aad).unwrap(),
    };
    let v = b.into_vec();
    (v[..n].to_vec(), v[n..].to_vec())
}
pub fn unseal(c: Ce, key: &[u8], iv: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    let mut v = ct.to_vec();
    v.extend_from_slice(tag);
    let mut b = SecretBytes::from(v);
    match c {
        Ce::Cbc => AesKey::<A256CbcHs512>::from_secret_bytes(key).ok()?.decrypt_in_place(&mut b, iv, aad).ok()?,
        Ce::Gcm => AesKey::<A256Gcm>::from_secret_bytes(key).ok()?.decrypt_in_place(&mut b, iv, aad).ok()?,
        Ce::Xc => Chacha20Key::<XC20P>::from_secret_bytes(key).ok()?.decrypt_in_place(&mut b, iv, aad).ok()?,
    }
    Some(b.into_vec())
}

pub fn x_pair(seed: u8) -> X25519KeyPair { X25519KeyPair::from_parts(Some(sk(seed)), pk(Kt::X, seed)) }
pub fn p_pair(seed: u8) -> P256KeyPair { P256KeyPair::from_parts(Some(sk(seed)), pk(Kt::P, seed)) }
pub fn x_pub(x: [u8; 32]) -> X25519KeyPair { X25519KeyPair::from_parts(None, x) }
pub fn p_pub(x: [u8; 32]) -> P256KeyPair { P256KeyPair::from_parts(None, x) }

/// key-wrapping key. `sender`: ECDH-1PU, otherwise ECDH-ES. Ephemeral and sender/recipient given as (seed) on the sending side.
pub fn kek_send(t: Kt, eph: u8, sender: Option<u8>, recip_pub: [u8; 32], alg: &[u8], apu: &[u8], apv: &[u8], tag: &[u8]) -> AesKey<A256Kw> {
    match (t, sender) {
        (Kt::P, None) => AesKey::<A256Kw>::from_key_derivation(EcdhEs::new(&p_pair(eph), &p_pub(recip_pub), alg, apu, apv, false)).unwrap(),
        (Kt::P, Some(s)) => AesKey::<A256Kw>::from_key_derivation(Ecdh1PU::new(&p_pair(eph), &p_pair(s), &p_pub(recip_pub), alg, apu, apv, tag, false)).unwrap(),
        (_, None) => AesKey::<A256Kw>::from_key_derivation(EcdhEs::new(&x_pair(eph), &x_pub(recip_pub), alg, apu, apv, false)).unwrap(),
        (_, Some(s)) => AesKey::<A256Kw>::from_key_derivation(Ecdh1PU::new(&x_pair(eph), &x_pair(s), &x_pub(recip_pub), alg, apu, apv, tag, false)).unwrap(),
    }
}
pub fn kek_recv(t: Kt, epk: [u8; 32], sender_pub: Option<[u8; 32]>, recip: u8, alg: &[u8], apu: &[u8], apv: &[u8], tag: &[u8]) -> AesKey<A256Kw> {
    match (t, sender_pub) {
        (Kt::P, None) => AesKey::<A256Kw>::from_key_derivation(EcdhEs::new(&p_pub(epk), &p_pair(recip), alg, apu, apv, true)).unwrap(),
        (Kt::P, Some(s)) => AesKey::<A256Kw>::from_key_derivation(Ecdh1PU::new(&p_pub(epk), &p_pub(s), &p_pair(recip), alg, apu, apv, tag, true)).unwrap(),
        (_, None) => AesKey::<A256Kw>::from_key_derivation(EcdhEs::new(&x_pub(epk), &x_pair(recip), alg, apu, apv, true)).unwrap(),
        (_, Some(s)) => AesKey::<A256Kw>::from_key_derivation(Ecdh1PU::new(&x_pub(epk), &x_pub(s), &x_pair(recip), alg, apu, apv, tag, true)).unwrap(),
    }
}
pub fn wrap(kw: &AesKey<A256Kw>, cek: &[u8]) -> Vec<u8> { let mut b = SecretBytes::from_slice(cek); kw.encrypt_in_place(&mut b, &[], &[]).unwrap(); b.into_vec() }
pub fn unwrap(kw: &AesKey<A256Kw>, ek: &[u8]) -> Option<Vec<u8>> { let mut b = SecretBytes::from_slice(ek); kw.decrypt_in_place(&mut b, &[], &[]).ok()?; Some(b.into_vec()) }

pub fn apv_of(kids: &[&str]) -> Vec<u8> {
    let mut k: Vec<&str> = kids.to_vec();
    k.sort();
    let mut s = String::new();
    for (i, x) in k.iter().enumerate() { if i > 0 { s.push('.'); } s.push_str(x); }
    Sha256::digest(s.as_bytes()).to_vec()
}

fn jstr(o: &mut String, k: &str, v: &str) { if !o.ends_with('{') { o.push(','); } o.push('"'); o.push_str(k); o.push_str("\":\""); o.push_str(v); o.push('"'); }
fn jraw(o: &mut String, k: &str, v: &str) { if !o.ends_with('{') { o.push(','); } o.push('"'); o.push_str(k); o.push_str("\":"); o.push_str(v); }

/// What to encrypt and how; the `h_*` fields are the header values that are written, `None` meaning the honest ones.
#[derive(Clone)]
pub struct Enc {
    pub t: Kt, pub ce: Ce, pub eph: u8, pub sender: Option<(String, u8)>, pub recips: Vec<(String, [u8; 32])>,
    pub h_typ: Option<Option<String>>, pub h_alg: Option<String>, pub h_enc: Option<String>, pub h_skid: Option<Option<String>>, pub h_apu: Option<Option<Vec<u8>>>, pub h_apv: Option<Vec<u8>>, pub h_epk: Option<String>,
    pub kdf_alg: Option<String>, pub extra: String,
}
impl Enc {
    pub fn new(t: Kt, c: Ce, recips: &[(&str, u8)]) -> Enc {
        Enc { t, ce: c, eph: 200, sender: None, recips: recips.iter().map(|r| (r.0.to_string(), pk(t, r.1))).collect(), h_typ: None, h_alg: None, h_enc: None, h_skid: None, h_apu: None, h_apv: None, h_epk: None, kdf_alg: None, extra: String::new() }
    }
    pub fn from(mut self, kid: &str, seed: u8) -> Enc { self.sender = Some((kid.to_string(), seed)); self }
    pub fn epk_json(t: Kt, seed: u8) -> String {
        let x = pk(t, seed);
        let mut o = String::from("{");
        jstr(&mut o, "crv", if t == Kt::P { "P-256" } else { "X25519" });
        jstr(&mut o, "kty", if t == Kt::P { "EC" } else { "OKP" });
        jstr(&mut o, "x", &b64(&x));
        if t == Kt::P { jstr(&mut o, "y", &b64(&askar_crypto::alg::p256::y_of(&x))); }
        o.push('}');
        o
    }
    pub fn header(&self) -> (String, Vec<u8>, Vec<u8>, String) {
        let kids: Vec<&str> = self.recips.iter().map(|r| r.0.as_str()).collect();
        let apv = self.h_apv.clone().unwrap_or_else(|| apv_of(&kids));
        let skid: Option<String> = match &self.h_skid { Some(x) => x.clone(), None => self.sender.as_ref().map(|s| s.0.clone()) };
        let apu: Option<Vec<u8>> = match &self.h_apu { Some(x) => x.clone(), None => self.sender.as_ref().map(|s| s.0.clone().into_bytes()) };
        let alg = self.h_alg.clone().unwrap_or_else(|| String::from(if self.sender.is_some() { PU } else { ES }));
        let mut o = String::from("{");
        match &self.h_typ { None => jstr(&mut o, "typ", "application/didcomm-encrypted+json"), Some(Some(t)) => jstr(&mut o, "typ", t), Some(None) => {} }
        jstr(&mut o, "alg", &alg);
        jstr(&mut o, "enc", self.h_enc.as_deref().unwrap_or(self.ce.name()));
        if let Some(s) = &skid { jstr(&mut o, "skid", s); }
        if let Some(a) = &apu { jstr(&mut o, "apu", &b64(a)); }
        jstr(&mut o, "apv", &b64(&apv));
        let e = self.h_epk.clone().unwrap_or_else(|| Enc::epk_json(self.t, self.eph));
        jraw(&mut o, "epk", &e);
        o.push_str(&self.extra);
        o.push('}');
        (o, apu.unwrap_or_default(), apv, alg)
    }
    pub fn parts(&self, pt: &[u8]) -> Jwe {
        let (h, apu, apv, alg) = self.header();
        let protected = b64(h.as_bytes());
        let cek = askar_crypto::model::draw(0x43, self.ce.key_len());
        let iv = askar_crypto::model::draw(0x49, self.ce.iv_len());
        let (ct, tag) = seal(self.ce, &cek, &iv, protected.as_bytes(), pt);
        let alg = self.kdf_alg.clone().unwrap_or(alg);
        let mut rs = Vec::new();
        for (kid, x) in &self.recips {
            let kw = kek_send(self.t, self.eph, self.sender.as_ref().map(|s| s.1), *x, alg.as_bytes(), &apu, &apv, &tag);
            rs.push((kid.clone(), b64(&wrap(&kw, &cek))));
        }
        Jwe { protected, recipients: rs, iv: b64(&iv), ciphertext: b64(&ct), tag: b64(&tag) }
    }
    pub fn pack(&self, pt: &[u8]) -> String { self.parts(pt).json() }
}
/// The five parts of an envelope as text.
#[derive(Clone, PartialEq, Eq)]
pub struct Jwe { pub protected: String, pub recipients: Vec<(String, String)>, pub iv: String, pub ciphertext: String, pub tag: String }
impl Jwe {
    pub fn json(&self) -> String {
        let mut o = String::from("{");
        jstr(&mut o, "protected", &self.protected);
        o.push_str(",\"recipients\":[");
        for (i, (k, e)) in self.recipients.iter().enumerate() {
            if i > 0 { o.push(','); }
            o.push_str("{\"header\":{\"kid\":\""); o.push_str(k); o.push_str("\"},\"encrypted_key\":\""); o.push_str(e); o.push_str("\"}");
        }
        o.push(']');
        jstr(&mut o, "iv", &self.iv); jstr(&mut o, "ciphertext", &self.ciphertext); jstr(&mut o, "tag", &self.tag);
        o.push('}');
        o
    }
    /// read an envelope; None when a part is missing or not a string
    pub fn read(s: &str) -> Option<Jwe> {
        let v: Value = serde_json::from_str(s).ok()?;
        let g = |k: &str| v.get(k).and_then(|x| x.as_str()).map(String::from);
        let mut rs = Vec::new();
        for r in v.get("recipients")?.as_array()? { rs.push((String::from(r.get("header")?.get("kid")?.as_str()?), String::from(r.get("encrypted_key")?.as_str()?))); }
        Some(Jwe { protected: g("protected")?, recipients: rs, iv: g("iv")?, ciphertext: g("ciphertext")?, tag: g("tag")? })
    }
    pub fn header(&self) -> Option<Value> { serde_json::from_slice(&base64::decode_config(&self.protected, base64::URL_SAFE_NO_PAD).ok()?).ok() }
    pub fn kids(&self) -> Vec<&str> { self.recipients.iter().map(|r| r.0.as_str()).collect() }
}
/// Reference decryption with the recipient key (kid, type, seed); `sender` = the public key expected for ECDH-1PU.
pub fn open(j: &Jwe, kid: &str, t: Kt, seed: u8, sender: Option<[u8; 32]>) -> Option<Vec<u8>> {
    let h = j.header()?;
    let alg = h.get("alg")?.as_str()?;
    let enc = match h.get("enc")?.as_str()? { "A256CBC-HS512" => Ce::Cbc, "A256GCM" => Ce::Gcm, "XC20P" => Ce::Xc, _ => return None };
    match alg { ES => if sender.is_some() { return None }, PU => if sender.is_none() || enc != Ce::Cbc { return None }, _ => return None }
    let d = |s: &str| base64::decode_config(s, base64::URL_SAFE_NO_PAD).ok();
    let apu = match h.get("apu") { Some(a) => d(a.as_str()?)?, None => Vec::new() };
    let apv = d(h.get("apv")?.as_str()?)?;
    let e = h.get("epk")?;
    let (kty, crv) = if t == Kt::P { ("EC", "P-256") } else { ("OKP", "X25519") };
    if e.get("kty")?.as_str()? != kty || e.get("crv")?.as_str()? != crv { return None; }
    let x = d(e.get("x")?.as_str()?)?;
    if x.len() != 32 { return None; }
    let mut epk = [0u8; 32];
    epk.copy_from_slice(&x);
    let tag = d(&j.tag)?;
    let ek = d(&j.recipients.iter().find(|r| r.0 == kid)?.1)?;
    let kw = kek_recv(t, epk, sender, seed, alg.as_bytes(), &apu, &apv, &tag);
    let cek = unwrap(&kw, &ek)?;
    unseal(enc, &cek, &d(&j.iv)?, j.protected.as_bytes(), &d(&j.ciphertext)?, &tag)
}

/// signature over text by key (type, seed)
pub fn raw_sign(t: Kt, seed: u8, st: SignatureType, input: &[u8]) -> Vec<u8> {
    match t {
        Kt::Ed => Ed25519KeyPair::from_parts(Some(sk(seed)), pk(t, seed)).create_signature(input, Some(st)).unwrap().into_vec(),
        Kt::P => P256KeyPair::from_parts(Some(sk(seed)), pk(t, seed)).create_signature(input, Some(st)).unwrap().into_vec(),
        _ => K256KeyPair::from_parts(Some(sk(seed)), pk(Kt::K, seed)).create_signature(input, Some(st)).unwrap().into_vec(),
    }
}
pub fn raw_verify(t: Kt, seed: u8, st: SignatureType, input: &[u8], sig: &[u8]) -> bool {
    match t {
        Kt::Ed => Ed25519KeyPair::from_parts(None, pk(t, seed)).verify_signature(input, sig, Some(st)).unwrap_or(false),
        Kt::P => P256KeyPair::from_parts(None, pk(t, seed)).verify_signature(input, sig, Some(st)).unwrap_or(false),
        _ => K256KeyPair::from_parts(None, pk(Kt::K, seed)).verify_signature(input, sig, Some(st)).unwrap_or(false),
    }
}
pub fn sig_alg(t: Kt) -> (&'static str, SignatureType) { match t { Kt::Ed => ("EdDSA", SignatureType::EdDSA), Kt::P => ("ES256", SignatureType::ES256), _ => ("ES256K", SignatureType::ES256K) } }
pub fn sig_header(alg: &str) -> String { let mut o = String::from("{"); jstr(&mut o, "typ", "application/didcomm-signed+json"); jstr(&mut o, "alg", alg); o.push('}'); o }
#[derive(Clone, PartialEq, Eq)]
pub struct Jws { pub payload: String, pub sigs: Vec<(String, String, String)> }
impl Jws {
    /// (kid, protected, signature) entries
    pub fn new(t: Kt, seed: u8, kid: &str, payload: &[u8]) -> Jws {
        let mut j = Jws { payload: b64(payload), sigs: vec![] };
        j.add(t, seed, kid);
        j
    }
    pub fn add(&mut self, t: Kt, seed: u8, kid: &str) {
        let (a, st) = sig_alg(t);
        let h = b64(sig_header(a).as_bytes());
        let mut inp = h.clone(); inp.push('.'); inp.push_str(&self.payload);
        let s = b64(&raw_sign(t, seed, st, inp.as_bytes()));
        self.sigs.push((String::from(kid), h, s));
    }
    pub fn json(&self) -> String {
        let mut o = String::from("{\"signatures\":[");
        for (i, (k, p, s)) in self.sigs.iter().enumerate() {
            if i > 0 { o.push(','); }
            o.push_str("{\"header\":{\"kid\":\""); o.push_str(k); o.push_str("\"},\"protected\":\""); o.push_str(p); o.push_str("\",\"signature\":\""); o.push_str(s); o.push_str("\"}");
        }
        o.push(']');
        jstr(&mut o, "payload", &self.payload);
        o.push('}');
        o
    }
    pub fn read(s: &str) -> Option<Jws> {
        let v: Value = serde_json::from_str(s).ok()?;
        let mut sigs = Vec::new();
        for r in v.get("signatures")?.as_array()? { sigs.push((String::from(r.get("header")?.get("kid")?.as_str()?), String::from(r.get("protected")?.as_str()?), String::from(r.get("signature")?.as_str()?))); }
        Some(Jws { payload: String::from(v.get("payload")?.as_str()?), sigs })
    }
}
/// compact JWT
pub fn jwt(t: Kt, seed: u8, header: &str, payload: &[u8]) -> String {
    let mut i = b64(header.as_bytes()); i.push('.'); i.push_str(&b64(payload));
    let s = b64(&raw_sign(t, seed, sig_alg(t).1, i.as_bytes()));
    i.push('.'); i.push_str(&s);
    i
}
pub fn jwt_header(typ: &str, alg: &str, kid: &str) -> String { let mut o = String::from("{"); jstr(&mut o, "typ", typ); jstr(&mut o, "alg", alg); jstr(&mut o, "kid", kid); o.push('}'); o }
/// minimal plaintext message text
pub fn plain(body: &str) -> String { let mut o = String::from("{"); jstr(&mut o, "id", "i"); jstr(&mut o, "typ", "application/didcomm-plain+json"); jstr(&mut o, "type", "t"); jraw(&mut o, "body", body); o.push('}'); o }
