use crate::{fix::*, gen, sym};
use didcomm::algorithms::{AnonCryptAlg, AuthCryptAlg};
use didcomm::did::DIDDoc;
use didcomm::error::ErrorKind;
use didcomm::protocols::routing::wrap_in_forward;
use didcomm::secrets::Secret;
use didcomm::*;
use didcomm_uniffi as ffi;
use ffi::{DIDComm, ErrorCode, OnDIDResolverResult, OnFindSecretsResult, OnGetSecretResult, UniffiCustomTypeConverter};
use futures::executor::model;
use serde_json::{json, Value};
use std::{collections::HashMap, sync::{Arc, Mutex}};

/// a foreign resolver that answers before it returns; with `extra` it also names secrets that nobody asked for
struct Foreign { docs: Vec<DIDDoc>, secrets: Vec<Secret>, extra: bool }
impl ffi::DIDResolver for Foreign { fn resolve(&self, did: String, cb: Arc<OnDIDResolverResult>) -> ErrorCode { let _ = cb.success(self.docs.iter().find(|d| d.id == did).cloned()); ErrorCode::Success } }
impl ffi::SecretsResolver for Foreign {
    fn get_secret(&self, id: String, cb: Arc<OnGetSecretResult>) -> ErrorCode { let _ = cb.success(self.secrets.iter().find(|s| s.id == id).cloned()); ErrorCode::Success }
    fn find_secrets(&self, ids: Vec<String>, cb: Arc<OnFindSecretsResult>) -> ErrorCode {
        let mut l: Vec<String> = ids.into_iter().filter(|i| self.secrets.iter().any(|s| s.id == *i)).collect();
        if self.extra { l.reverse(); l.insert(0, "did:x:b#0".into()); if let Some(x) = l.get(1).cloned() { l.push(x); } }
        let _ = cb.success(l);
        ErrorCode::Success
    }
}
fn whos() -> Vec<Who> {
    vec![Who::new("did:x:a").ka("k", Kt::X, 1).ka("p", Kt::P, 8).auth("s", Kt::Ed, 2).auth("e", Kt::K, 9),
        Who::new("did:x:b").ka("1", Kt::X, 3).ka("2", Kt::X, 4).svc(svc("did:x:b#s", "did:x:m", None, &[])).svc(svc("did:x:b#t", "http://t", None, &["did:x:m#k"])),
        Who::new("did:x:m").ka("k", Kt::X, 5).svc(svc("did:x:m#s", "http://m", None, &[])), Who::new("did:x:p").auth("s", Kt::P, 6)]
}
fn docs() -> Vec<DIDDoc> { whos().iter().map(|w| w.doc()).collect() }
fn secrets() -> Vec<Secret> { whos().iter().flat_map(|w| w.secrets()).collect() }
/// the DIDComm object: over a foreign resolver (with or without extra names) or over the example resolvers
fn comm(secrets: Vec<Secret>) -> DIDComm {
    model::reset();
    let k = sym::choice(3);
    if k == 2 { sym::reach(9); return DIDComm::new(Box::new(ffi::ExampleDIDResolver::new(docs())), Box::new(ffi::ExampleSecretsResolver::new(secrets))); }
    DIDComm::new(Box::new(Foreign { docs: docs(), secrets: vec![], extra: false }), Box::new(Foreign { docs: vec![], secrets, extra: k == 1 }))
}
fn again() { askar_crypto::model::st().draws = 0; }
fn val<T: serde::Serialize>(t: &T) -> Value { serde_json::to_value(t).unwrap_or_default() }
type R<T> = Result<T, (ErrorKind, String)>;
struct Out<T>(Arc<Mutex<Vec<R<T>>>>);
impl<T> Clone for Out<T> { fn clone(&self) -> Self { Out(self.0.clone()) } }
impl<T> Out<T> {
    fn new() -> Out<T> { Out(Arc::new(Mutex::new(vec![]))) }
    fn put(&self, r: R<T>) { self.0.lock().unwrap().push(r) }
}
macro_rules! cb1 { ($t:ident, $a:ty) => { impl ffi::$t for Out<$a> { fn success(&self, r: $a) { self.put(Ok(r)) } fn error(&self, k: ErrorKind, m: String) { self.put(Err((k, m))) } } } }
macro_rules! cb2 { ($t:ident, $a:ty, $b:ty) => { impl ffi::$t for Out<($a, $b)> { fn success(&self, r: $a, m: $b) { self.put(Ok((r, m))) } fn error(&self, k: ErrorKind, m: String) { self.put(Err((k, m))) } } } }
cb1!(OnPackPlaintextResult, String);
cb1!(OnWrapInForwardResult, String);
cb2!(OnPackSignedResult, String, PackSignedMetadata);
cb2!(OnPackEncryptedResult, String, PackEncryptedMetadata);
cb2!(OnUnpackResult, Message, UnpackMetadata);
cb2!(OnFromPriorPackResult, String, String);
cb2!(OnFromPriorUnpackResult, FromPrior, String);
/// exactly one callback came, with the core's result, or its kind and text
fn same<T: PartialEq>(code: ErrorCode, out: &Out<T>, want: didcomm::error::Result<T>) {
    sym::check(matches!(code, ErrorCode::Success), 1);
    // nothing is delivered before the call returns
    sym::check(out.0.lock().unwrap().is_empty(), 2);
    model::settle();
    sym::check(model::pending() == 0, 3);
    let o = out.0.lock().unwrap();
    sym::check(o.len() == 1, 4);
    match (&o[0], &want) {
        (Ok(a), Ok(b)) => { sym::check(a == b, 5); sym::reach(1); }
        (Err((k, t)), Err(e)) => { sym::check(*k == e.kind(), 6); sym::check(t.contains(&e.source.root_cause().to_string()), 7); sym::reach(2); }
        _ => sym::fail(8),
    }
}
fn content() -> Message { Message::build("i".into(), "t".into(), json!(sym::ident(1))).from("did:x:a".into()).created_time(sym::byte() as u64).finalize() }

/// pack_encrypted with all arguments and options
pub fn encrypted() {
    let m = content();
    let who = sym::flip();
    let (to, from, sign) = if who {
        (["did:x:b", "did:x:b#2", "did:x:m", "did:x:z", "did:x:b#9"][sym::choice(5) as usize], [None, Some("did:x:a"), Some("did:x:a#k"), Some("did:x:a#q")][sym::choice(4) as usize], [None, Some("did:x:a"), Some("did:x:a#e")][sym::choice(3) as usize])
    } else { ("did:x:b", sym::opt(|| "did:x:a"), None) };
    let mut c = PackEncryptedOptions { protect_sender: false, forward: true, forward_headers: None, messaging_service: None, enc_alg_auth: AuthCryptAlg::A256cbcHs512Ecdh1puA256kw, enc_alg_anon: AnonCryptAlg::Xc20pEcdhEsA256kw };
    if !who {
        c.protect_sender = sym::flip();
        c.forward = sym::flip();
        c.messaging_service = [None, Some("did:x:b#s"), Some("did:x:b#t"), Some("did:x:b#u")][sym::choice(4) as usize].map(|x| x.to_string());
        c.enc_alg_anon = anon_alg(sym::choice(3));
        if sym::flip() { let mut h = HashMap::new(); let v = json!(sym::byte()); h.insert("h".to_string(), v); c.forward_headers = Some(h); }
    }
    let (d, s) = (Dids::new(docs()), Secs::new(secrets()));
    again();
    let want = run(m.pack_encrypted(to, from, sign, &d, &s, &c));
    again();
    let out = Out::<(String, PackEncryptedMetadata)>::new();
    let r = comm(secrets()).pack_encrypted(&m, to.into(), from.map(|x| x.into()), sign.map(|x| x.into()), &c, Box::new(out.clone()));
    same(r, &out, want);
}
/// pack_plaintext, pack_signed
pub fn signed() {
    let mut m = content();
    let (d, s) = (Dids::new(docs()), Secs::new(secrets()));
    if sym::flip() { m.from_prior = run(FromPrior::build("did:x:p".into(), if sym::flip() { "did:x:a".into() } else { "did:x:b".into() }).finalize().pack(None, &d, &s)).map(|x| x.0).ok(); }
    let by = ["did:x:a", "did:x:a#e", "did:x:z", "did:x:a#9", "did:x:b", "a"][sym::choice(6) as usize];
    if sym::flip() {
        let out = Out::<String>::new();
        let r = comm(secrets()).pack_plaintext(&m, Box::new(out.clone()));
        same(r, &out, run(m.pack_plaintext(&d)));
    } else {
        again();
        let want = run(m.pack_signed(by, &d, &s));
        again();
        let out = Out::<(String, PackSignedMetadata)>::new();
        let r = comm(secrets()).pack_signed(&m, by.into(), Box::new(out.clone()));
        same(r, &out, want);
    }
}
/// unpack: every kind of envelope, all options, wallets that lack keys
pub fn unpacked() {
    let mut m = content();
    let (d, s) = (Dids::new(docs()), Secs::new(secrets()));
    let k = sym::choice(7);
    if k < 3 && sym::flip() { m.from_prior = run(FromPrior::build("did:x:p".into(), "did:x:a".into()).iat(sym::byte() as u64).finalize().pack(None, &d, &s)).map(|x| x.0).ok(); }
    let ps = |b: bool| PackEncryptedOptions { protect_sender: b, ..opts(false) };
    let p = match k {
        0 => run(m.pack_plaintext(&d)), 1 => run(m.pack_signed("did:x:a", &d, &s)).map(|x| x.0),
        2 => run(m.pack_encrypted("did:x:b", None, None, &d, &s, &ps(false))).map(|x| x.0),
        3 => run(m.pack_encrypted("did:x:b", Some("did:x:a"), Some("did:x:a#e"), &d, &s, &ps(true))).map(|x| x.0),
        4 | 5 => { let q = run(m.pack_encrypted("did:x:b", Some("did:x:a"), None, &d, &s, &ps(false))).map(|x| x.0).unwrap_or_default(); if k == 4 { Ok(q) } else { run(wrap_in_forward(&q, None, "did:x:b", &vec!["did:x:b".to_string()], &anon_alg(0), &d)) } }
        _ => Ok("{\"a\":1}".to_string()),
    }.unwrap_or_default();
    let c = UnpackOptions { expect_decrypt_by_all_keys: sym::flip(), unwrap_re_wrapping_forward: sym::flip() };
    let lack = if k > 1 { sym::choice(4) } else { 0 };
    let mine: Vec<Secret> = secrets().into_iter().filter(|s| !(lack & 1 != 0 && s.id == "did:x:b#1") && !(lack & 2 != 0 && s.id == "did:x:b#2")).collect();
    let want = run(Message::unpack(&p, &d, &Secs::new(mine.clone()), &c));
    let out = Out::<(Message, UnpackMetadata)>::new();
    let r = comm(mine).unpack(p, &c, Box::new(out.clone()));
    same(r, &out, want);
}
/// pack_from_prior, unpack_from_prior
pub fn from_prior() {
    let (d, s) = (Dids::new(docs()), Secs::new(secrets()));
    let (iss, kid) = [("did:x:p", None), ("did:x:p", Some("did:x:p#s")), ("did:x:p", Some("did:x:p#9")), ("did:x:a", Some("did:x:a#e")), ("did:x:p", Some("did:x:a#s")), ("did:x:z", None)][sym::choice(6) as usize];
    let mut b = FromPrior::build(iss.into(), "did:x:a".into());
    let mask = sym::choice(8);
    if mask & 1 != 0 { b = b.aud(sym::ident(1)); }
    if mask & 2 != 0 { b = b.exp(sym::byte() as u64); }
    if mask & 4 != 0 { b = b.jti("j".into()); }
    let f = b.finalize();
    again();
    let want = run(f.pack(kid, &d, &s));
    again();
    if sym::flip() {
        let out = Out::<(String, String)>::new();
        let r = comm(secrets()).pack_from_prior(&f, kid.map(|x| x.into()), Box::new(out.clone()));
        same(r, &out, want);
    } else if let Ok((t, _)) = want {
        let t = if sym::flip() { t } else { let mut t = t; t.push('A'); t };
        let out = Out::<(FromPrior, String)>::new();
        let r = comm(secrets()).unpack_from_prior(t.clone(), Box::new(out.clone()));
        same(r, &out, run(FromPrior::unpack(&t, &d)));
    }
}
/// wrap_in_forward
pub fn forward() {
    let d = Dids::new(docs());
    let to = ["did:x:b", "did:x:b#1", "did:x:z"][sym::choice(3) as usize];
    let rk: Vec<String> = [vec![], vec!["did:x:m".to_string()], vec!["did:x:m#k".into(), "did:x:b".into()], vec!["did:x:z".into()]][sym::choice(4) as usize].clone();
    let mut h = HashMap::new();
    if sym::flip() { h.insert("h".to_string(), json!(sym::ident(1))); }
    let a = anon_alg(sym::choice(3));
    let t = if sym::flip() { "{\"a\":1}" } else { "x" };
    again();
    let want = run(wrap_in_forward(t, Some(&h), to, &rk, &a, &d));
    again();
    let out = Out::<String>::new();
    let r = comm(vec![]).wrap_in_forward(t.into(), &h, to.into(), &rk, &a, Box::new(out.clone()));
    same(r, &out, want);
}
/// two operations at once on one object, run in any order of their turns: each gets its own result, once
pub fn two() {
    model::reset();
    let (a, b) = (content(), content());
    let (d, s) = (Dids::new(docs()), Secs::new(secrets()));
    let p = run(a.pack_encrypted("did:x:b", Some("did:x:a"), None, &d, &s, &opts(false))).map(|x| x.0).unwrap_or_default();
    let want = run(Message::unpack(&p, &d, &s, &UnpackOptions::default())).ok();
    let c = comm(secrets());
    let (o1, o2) = (Out::<(Message, UnpackMetadata)>::new(), Out::<String>::new());
    c.unpack(p, &UnpackOptions::default(), Box::new(o1.clone()));
    c.pack_plaintext(&b, Box::new(o2.clone()));
    for _ in 0..8 { let r = model::ready(); if r.is_empty() { break; } model::turn(r[sym::choice(r.len() as u32) as usize]); }
    sym::check(model::pending() == 0, 10);
    let (r1, r2) = (o1.0.lock().unwrap(), o2.0.lock().unwrap());
    sym::check(r1.len() == 1 && r2.len() == 1, 11);
    sym::check(r1[0].as_ref().ok() == want.as_ref() && r1[0].is_ok(), 12);
    sym::check(r2[0].as_ref().ok() == run(b.pack_plaintext(&d)).ok().as_ref() && r2[0].is_ok(), 13);
    sym::reach(1);
}
/// the JSON values of the interface: text in, the same value out, and back; text that is no JSON is refused
pub fn json_values() {
    if sym::flip() {
        let m = gen::message(sym::choice(8) * 37, "s", 5);
        let v = match sym::choice(6) { 0 => val(&m), 1 => json!(sym::byte()), 2 => json!(sym::ident(2)), 3 => json!([sym::byte(), null, { "a": sym::flip() }]), 4 => Value::Null, _ => json!({ "k": sym::ident(1), "n": -1 }) };
        let t = <ffi::JsonValue as UniffiCustomTypeConverter>::from_custom(v.clone());
        sym::check(serde_json::from_str::<Value>(&t).ok().as_ref() == Some(&v), 14);
        sym::check(<ffi::JsonValue as UniffiCustomTypeConverter>::into_custom(t).ok() == Some(v), 15);
        sym::reach(1);
    } else {
        let t = sym::ascii(sym::choice(3) as usize);
        let want = serde_json::from_str::<Value>(&t).ok();
        let got = <ffi::JsonValue as UniffiCustomTypeConverter>::into_custom(t).ok();
        sym::check(got == want, 16);
        sym::reach(if want.is_some() { 2 } else { 3 });
    }
}
/// one text argument of its own: empty, blank, padded, in another case, cut off, or any text of one or two bytes
fn text(good: &str) -> String {
    match sym::choice(10) {
        0 => String::new(), 1 => " ".into(), 2 => format!(" {}", good), 3 => format!("{} ", good), 4 => good.to_uppercase(), 5 => format!("{}#", good), 6 => format!("{}\n", good),
        7 => sym::utf8(1), 8 => sym::utf8(2), _ => format!("{}{}", good, sym::utf8(1)),
    }
}
/// every text argument of every operation reaches the core as it was given
pub fn texts() {
    let (d, s) = (Dids::new(docs()), Secs::new(secrets()));
    model::reset();
    let comm = || DIDComm::new(Box::new(Foreign { docs: docs(), secrets: vec![], extra: false }), Box::new(Foreign { docs: vec![], secrets: secrets(), extra: false }));
    let m = Message::build("i".into(), "t".into(), json!(1)).from("did:x:a".into()).finalize();
    let mut c = PackEncryptedOptions { forward: true, protect_sender: false, forward_headers: None, messaging_service: None, enc_alg_auth: AuthCryptAlg::A256cbcHs512Ecdh1puA256kw, enc_alg_anon: AnonCryptAlg::Xc20pEcdhEsA256kw };
    let which = sym::choice(11);
    if which < 5 {
        let (mut to, mut from, mut sign) = ("did:x:m".to_string(), None, None);
        match which {
            0 => to = text("did:x:b"),
            1 => from = Some(text("did:x:a")),
            2 => { from = Some("did:x:a".to_string()); sign = Some(text("did:x:a")); }
            3 => { to = "did:x:b".into(); c.messaging_service = Some(text("did:x:b#s")); }
            _ => { to = "did:x:b".into(); let k = ["", " ", "H", "h ", "next", "enc_alg", "\u{e9}"][sym::choice(7) as usize]; let x = [json!(null), json!(""), json!(" a "), json!([]), json!({ "B": [null] })][sym::choice(5) as usize].clone(); let mut h = HashMap::new(); h.insert(k.to_string(), x); c.forward_headers = Some(h); }
        }
        again();
        let want = run(m.pack_encrypted(&to, from.as_deref(), sign.as_deref(), &d, &s, &c));
        again();
        let out = Out::<(String, PackEncryptedMetadata)>::new();
        let r = comm().pack_encrypted(&m, to, from, sign, &c, Box::new(out.clone()));
        same(r, &out, want);
    } else if which == 5 {
        let by = text("did:x:a#e");
        again();
        let want = run(m.pack_signed(&by, &d, &s));
        again();
        let out = Out::<(String, PackSignedMetadata)>::new();
        let r = comm().pack_signed(&m, by, Box::new(out.clone()));
        same(r, &out, want);
    } else if which == 6 {
        let kid = text("did:x:p#s");
        let f = FromPrior::build("did:x:p".into(), "did:x:a".into()).finalize();
        again();
        let want = run(f.pack(Some(&kid), &d, &s));
        again();
        let out = Out::<(String, String)>::new();
        let r = comm().pack_from_prior(&f, Some(kid), Box::new(out.clone()));
        same(r, &out, want);
    } else if which < 9 {
        let (mut to, mut rk, mut t) = ("did:x:b".to_string(), vec!["did:x:m".to_string()], "{\"a\":1}".to_string());
        match which { 7 => to = text("did:x:b"), _ => { let x = text("did:x:m"); if sym::flip() { rk = vec![x]; } else if sym::flip() { rk.push(x); } else { t = ["", " ", "{}", " {\"a\":1}\n", "[1]", "null"][sym::choice(6) as usize].to_string(); } } }
        again();
        let h = HashMap::new();
        let want = run(wrap_in_forward(&t, Some(&h), &to, &rk, &anon_alg(0), &d));
        again();
        let out = Out::<String>::new();
        let r = comm().wrap_in_forward(t, &h, to, &rk, &anon_alg(0), Box::new(out.clone()));
        same(r, &out, want);
    } else {
        let t = match sym::choice(3) { 0 => run(m.pack_plaintext(&d)), 1 => run(m.pack_signed("did:x:a", &d, &s)).map(|x| x.0), _ => run(m.pack_encrypted("did:x:b", None, None, &d, &s, &opts(false))).map(|x| x.0) }.unwrap_or_default();
        let t = if which == 9 { match sym::choice(6) { 0 => String::new(), 1 => format!(" {}", t), 2 => format!("{}\n", t), 3 => format!("\u{feff}{}", t), 4 => format!("{}x", t), _ => t[..t.len() - 1].to_string() } } else { match sym::choice(3) { 0 => sym::utf8(1), 1 => format!("{}{}", sym::utf8(1), t), _ => format!("{}{}", t, sym::utf8(1)) } };
        let u = UnpackOptions { expect_decrypt_by_all_keys: false, unwrap_re_wrapping_forward: false };
        let out = Out::<(Message, UnpackMetadata)>::new();
        let r = comm().unpack(t.clone(), &u, Box::new(out.clone()));
        same(r, &out, run(Message::unpack(&t, &d, &s, &u)));
    }
}
