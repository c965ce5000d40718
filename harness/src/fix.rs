//! Fixtures: keys, DID documents, resolvers, a future driver.
use async_trait::async_trait;
use didcomm::did::{DIDCommMessagingService, DIDDoc, DIDResolver, Service, ServiceKind, VerificationMaterial, VerificationMethod, VerificationMethodType};
use didcomm::error::{ErrorKind, Result};
use didcomm::secrets::{Secret, SecretMaterial, SecretType, SecretsResolver};
use serde_json::{Map, Value};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

fn rw() -> RawWaker {
    fn c(_: *const ()) -> RawWaker { rw() }
    fn n(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(c, n, n, n);
    RawWaker::new(std::ptr::null(), &VT)
}
/// Drive a future whose awaits are all immediately ready.
pub fn run<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = unsafe { Waker::from_raw(rw()) };
    let mut cx = Context::from_waker(&w);
    loop { if let Poll::Ready(v) = Pin::as_mut(&mut f).poll(&mut cx) { return v; } }
}

pub fn b64(d: &[u8]) -> String { base64::encode_config(d, base64::URL_SAFE_NO_PAD) }
pub fn unb64(s: &str) -> Vec<u8> { base64::decode_config(s, base64::URL_SAFE_NO_PAD).unwrap_or_default() }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kt { Ed, X, P, K }
pub fn kt(i: u32) -> Kt { match i { 0 => Kt::X, 1 => Kt::P, 2 => Kt::Ed, _ => Kt::K } }
pub fn sk(seed: u8) -> [u8; 32] { let mut a = [0u8; 32]; for i in 0..32 { a[i] = seed.wrapping_mul(31).wrapping_add((i as u8).wrapping_mul(5)) ^ seed; } a }
pub fn pk(t: Kt, seed: u8) -> [u8; 32] {
    let s = sk(seed);
    match t { Kt::Ed => askar_crypto::alg::ed25519::public_of(&s), Kt::X => askar_crypto::alg::x25519::public_of(&s), Kt::P => askar_crypto::alg::p256::public_of(&s), Kt::K => askar_crypto::alg::k256::public_of(&s) }
}
pub fn jwk(t: Kt, seed: u8, private: bool) -> Value { jwk_of(t, &pk(t, seed), if private { Some(sk(seed)) } else { None }) }
pub fn jwk_of(t: Kt, x: &[u8; 32], d: Option<[u8; 32]>) -> Value {
    let mut m = Map::new();
    let (kty, crv) = match t { Kt::Ed => ("OKP", "Ed25519"), Kt::X => ("OKP", "X25519"), Kt::P => ("EC", "P-256"), Kt::K => ("EC", "secp256k1") };
    m.insert("kty".into(), kty.into());
    m.insert("crv".into(), crv.into());
    m.insert("x".into(), b64(x).into());
    if matches!(t, Kt::P) { m.insert("y".into(), b64(&askar_crypto::alg::p256::y_of(x)).into()); }
    if matches!(t, Kt::K) { m.insert("y".into(), b64(&askar_crypto::alg::k256::y_of(x)).into()); }
    if let Some(d) = d { m.insert("d".into(), b64(&d).into()); }
    Value::Object(m)
}
pub fn vm(id: &str, t: Kt, seed: u8) -> VerificationMethod {
    VerificationMethod { id: id.into(), type_: VerificationMethodType::JsonWebKey2020, controller: "did:x:ctl".into(), verification_material: VerificationMaterial::JWK { public_key_jwk: jwk(t, seed, false) } }
}
pub fn secret(id: &str, t: Kt, seed: u8) -> Secret {
    Secret { id: id.into(), type_: SecretType::JsonWebKey2020, secret_material: SecretMaterial::JWK { private_key_jwk: jwk(t, seed, true) } }
}
pub fn svc(id: &str, uri: &str, accept: Option<Vec<String>>, routing_keys: &[&str]) -> Service {
    Service { id: id.into(), service_endpoint: ServiceKind::DIDCommMessaging { value: DIDCommMessagingService { uri: uri.into(), accept, routing_keys: routing_keys.iter().map(|s| s.to_string()).collect() } } }
}
/// A DID with keys. `ka`/`auth` list (kid, type, seed).
#[derive(Clone)]
pub struct Who { pub did: String, pub ka: Vec<(String, Kt, u8)>, pub auth: Vec<(String, Kt, u8)>, pub services: Vec<Service> }
impl Who {
    pub fn new(did: &str) -> Who { Who { did: did.into(), ka: vec![], auth: vec![], services: vec![] } }
    pub fn ka(mut self, frag: &str, t: Kt, seed: u8) -> Who { let id = format_id(&self.did, frag); self.ka.push((id, t, seed)); self }
    pub fn auth(mut self, frag: &str, t: Kt, seed: u8) -> Who { let id = format_id(&self.did, frag); self.auth.push((id, t, seed)); self }
    pub fn svc(mut self, s: Service) -> Who { self.services.push(s); self }
    pub fn doc(&self) -> DIDDoc {
        DIDDoc { id: self.did.clone(), key_agreement: self.ka.iter().map(|k| k.0.clone()).collect(), authentication: self.auth.iter().map(|k| k.0.clone()).collect(),
            verification_method: self.ka.iter().chain(self.auth.iter()).map(|k| vm(&k.0, k.1, k.2)).collect(), service: self.services.clone() }
    }
    pub fn secrets(&self) -> Vec<Secret> { self.ka.iter().chain(self.auth.iter()).map(|k| secret(&k.0, k.1, k.2)).collect() }
}
pub fn format_id(did: &str, frag: &str) -> String { let mut s = String::from(did); s.push('#'); s.push_str(frag); s }

#[cfg(feature = "ffi")] unsafe impl Sync for Dids {}
#[cfg(feature = "ffi")] unsafe impl Sync for Secs {}
/// DID resolver over fixed documents; `fail_at` = number of the call that fails (1-based) with `kind`.
pub struct Dids { pub docs: Vec<DIDDoc>, pub calls: std::cell::Cell<u32>, pub fail_at: u32, pub kind: ErrorKind, pub none_at: u32 }
impl Dids { pub fn new(docs: Vec<DIDDoc>) -> Dids { Dids { docs, calls: std::cell::Cell::new(0), fail_at: 0, kind: ErrorKind::IoError, none_at: 0 } } }
#[cfg_attr(feature = "ffi", async_trait)]
#[cfg_attr(not(feature = "ffi"), async_trait(?Send))]
impl DIDResolver for Dids {
    async fn resolve(&self, did: &str) -> Result<Option<DIDDoc>> {
        let n = self.calls.get() + 1; self.calls.set(n);
        if n == self.fail_at { return Err(didcomm::error::err_msg(self.kind, "injected")); }
        if n == self.none_at { return Ok(None); }
        for d in &self.docs { if d.id == did { return Ok(Some(d.clone())); } }
        Ok(None)
    }
}
pub struct Secs { pub secrets: Vec<Secret>, pub calls: std::cell::Cell<u32>, pub fail_at: u32, pub kind: ErrorKind }
impl Secs { pub fn new(secrets: Vec<Secret>) -> Secs { Secs { secrets, calls: std::cell::Cell::new(0), fail_at: 0, kind: ErrorKind::IoError } } }
#[cfg_attr(feature = "ffi", async_trait)]
#[cfg_attr(not(feature = "ffi"), async_trait(?Send))]
impl SecretsResolver for Secs {
    async fn get_secret(&self, id: &str) -> Result<Option<Secret>> {
        let n = self.calls.get() + 1; self.calls.set(n);
        if n == self.fail_at { return Err(didcomm::error::err_msg(self.kind, "injected")); }
        for s in &self.secrets { if s.id == id { return Ok(Some(s.clone())); } }
        Ok(None)
    }
    async fn find_secrets<'a>(&self, ids: &'a [&'a str]) -> Result<Vec<&'a str>> {
        let n = self.calls.get() + 1; self.calls.set(n);
        if n == self.fail_at { return Err(didcomm::error::err_msg(self.kind, "injected")); }
        let mut r = Vec::new();
        for id in ids { if self.secrets.iter().any(|s| s.id == *id) { r.push(*id); } }
        Ok(r)
    }
}
pub fn kcode(k: ErrorKind) -> u64 { match k { ErrorKind::DIDNotResolved => 1, ErrorKind::DIDUrlNotFound => 2, ErrorKind::SecretNotFound => 3, ErrorKind::Malformed => 4, ErrorKind::IoError => 5, ErrorKind::InvalidState => 6, ErrorKind::NoCompatibleCrypto => 7, ErrorKind::Unsupported => 8, ErrorKind::IllegalArgument => 9 } }
pub fn opts(forward: bool) -> didcomm::PackEncryptedOptions { didcomm::PackEncryptedOptions { protect_sender: false, forward, forward_headers: None, messaging_service: None, enc_alg_auth: didcomm::algorithms::AuthCryptAlg::A256cbcHs512Ecdh1puA256kw, enc_alg_anon: didcomm::algorithms::AnonCryptAlg::A256cbcHs512EcdhEsA256kw } }
pub fn anon_alg(i: u32) -> didcomm::algorithms::AnonCryptAlg { match i { 0 => didcomm::algorithms::AnonCryptAlg::A256cbcHs512EcdhEsA256kw, 1 => didcomm::algorithms::AnonCryptAlg::Xc20pEcdhEsA256kw, _ => didcomm::algorithms::AnonCryptAlg::A256gcmEcdhEsA256kw } }
