use crate::{fix::*, sym};
use didcomm::did::DIDDoc;
use didcomm::error::ErrorKind;
use didcomm::secrets::Secret;
use didcomm::*;
use didcomm_uniffi as ffi;
use ffi::{DIDComm, ErrorCode, OnDIDResolverResult, OnFindSecretsResult, OnGetSecretResult};
use futures::executor::model;
use std::sync::{Arc, Mutex};

fn kind(i: u32) -> ErrorKind { use ErrorKind::*; match i { 0 => IoError, 1 => InvalidState, 2 => Malformed, 3 => DIDNotResolved, 4 => DIDUrlNotFound, 5 => SecretNotFound, 6 => NoCompatibleCrypto, 7 => Unsupported, _ => IllegalArgument } }
/// a request that foreign code has not answered yet
#[derive(Clone)]
enum Cb { Did(String, Arc<OnDIDResolverResult>), Get(String, Arc<OnGetSecretResult>), Find(Vec<String>, Arc<OnFindSecretsResult>) }
type Queue = Arc<Mutex<Vec<Cb>>>;
struct Foreign(Queue);
impl ffi::DIDResolver for Foreign { fn resolve(&self, did: String, cb: Arc<OnDIDResolverResult>) -> ErrorCode { self.0.lock().unwrap().push(Cb::Did(did, cb)); ErrorCode::Success } }
impl ffi::SecretsResolver for Foreign {
    fn get_secret(&self, id: String, cb: Arc<OnGetSecretResult>) -> ErrorCode { self.0.lock().unwrap().push(Cb::Get(id, cb)); ErrorCode::Success }
    fn find_secrets(&self, ids: Vec<String>, cb: Arc<OnFindSecretsResult>) -> ErrorCode { self.0.lock().unwrap().push(Cb::Find(ids, cb)); ErrorCode::Success }
}
fn whos() -> (Who, Who) { (Who::new("did:x:a").ka("k", Kt::X, 1).auth("s", Kt::Ed, 2), Who::new("did:x:b").ka("1", Kt::X, 3)) }
fn docs() -> Vec<DIDDoc> { let (a, b) = whos(); vec![a.doc(), b.doc()] }
fn secrets() -> Vec<Secret> { let (a, b) = whos(); let mut s = a.secrets(); s.append(&mut b.secrets()); s }
impl Cb {
    /// what the world knows; `empty`: nothing is known about this request
    fn success(&self, empty: bool) -> Result<(), ErrorKind> {
        match self {
            Cb::Did(d, cb) => cb.success(if empty { None } else { docs().into_iter().find(|x| x.id == *d) }),
            Cb::Get(i, cb) => cb.success(if empty { None } else { secrets().into_iter().find(|x| x.id == *i) }),
            Cb::Find(v, cb) => cb.success(if empty { vec![] } else { v.iter().filter(|i| secrets().iter().any(|s| s.id == **i)).cloned().collect() }),
        }
    }
    fn error(&self, k: ErrorKind, m: String) -> Result<(), ErrorKind> { match self { Cb::Did(_, cb) => cb.error(k, m), Cb::Get(_, cb) => cb.error(k, m), Cb::Find(_, cb) => cb.error(k, m) } }
}
type Outs = Arc<Mutex<Vec<Result<String, (ErrorKind, String)>>>>;
#[derive(Clone)]
struct Out(Outs);
impl Out { fn ok(&self, s: String) { self.0.lock().unwrap().push(Ok(s)) } fn err(&self, k: ErrorKind, m: String) { self.0.lock().unwrap().push(Err((k, m))) } }
impl ffi::OnUnpackResult for Out { fn success(&self, r: Message, m: UnpackMetadata) { self.ok(text(&r, &m)) } fn error(&self, k: ErrorKind, m: String) { self.err(k, m) } }
impl ffi::OnPackEncryptedResult for Out { fn success(&self, r: String, _: PackEncryptedMetadata) { self.ok(r) } fn error(&self, k: ErrorKind, m: String) { self.err(k, m) } }
impl ffi::OnPackSignedResult for Out { fn success(&self, r: String, _: PackSignedMetadata) { self.ok(r) } fn error(&self, k: ErrorKind, m: String) { self.err(k, m) } }
impl ffi::OnFromPriorPackResult for Out { fn success(&self, r: String, _: String) { self.ok(r) } fn error(&self, k: ErrorKind, m: String) { self.err(k, m) } }
impl ffi::OnFromPriorUnpackResult for Out { fn success(&self, r: FromPrior, _: String) { self.ok(r.iss) } fn error(&self, k: ErrorKind, m: String) { self.err(k, m) } }
impl ffi::OnWrapInForwardResult for Out { fn success(&self, r: String) { self.ok(r) } fn error(&self, k: ErrorKind, m: String) { self.err(k, m) } }
fn text(r: &Message, m: &UnpackMetadata) -> String { let mut s = serde_json::to_string(r).unwrap_or_default(); s.push_str(&serde_json::to_string(m).unwrap_or_default()); s }

fn msg() -> Message { Message::build("i".into(), "t".into(), serde_json::Value::Bool(true)).from("did:x:a".into()).finalize() }
fn prior() -> FromPrior { FromPrior::build("did:x:a".into(), "did:x:b".into()).finalize() }
const OPS: u32 = 7;
/// the text operation `i` works on
fn input(i: u32) -> String {
    let (d, s) = (Dids::new(docs()), Secs::new(secrets()));
    let r = match i {
        0 => run(msg().pack_encrypted("did:x:b", Some("did:x:a"), None, &d, &s, &opts(false))).map(|x| x.0).unwrap_or_default(),
        1 => run(msg().pack_signed("did:x:a", &d, &s)).map(|x| x.0).unwrap_or_default(),
        5 => run(prior().pack(None, &d, &s)).map(|x| x.0).unwrap_or_default(),
        _ => String::new(),
    };
    askar_crypto::model::st().draws = 0;
    r
}
fn start(c: &DIDComm, i: u32, p: &str, out: &Out) {
    let out = Box::new(out.clone());
    match i {
        0 | 1 => { c.unpack(p.into(), &UnpackOptions::default(), out); }
        2 => { c.pack_encrypted(&msg(), "did:x:b".into(), Some("did:x:a".into()), Some("did:x:a".into()), &opts(false), out); }
        3 => { c.pack_signed(&msg(), "did:x:a".into(), out); }
        4 => { c.pack_from_prior(&prior(), None, out); }
        5 => { c.unpack_from_prior(p.into(), out); }
        _ => { c.wrap_in_forward("{\"a\":1}".into(), &Default::default(), "did:x:b".into(), &vec!["did:x:b".to_string()], &didcomm::algorithms::AnonCryptAlg::Xc20pEcdhEsA256kw, out); }
    }
}
/// the same operation of the core, with a resolver that knows nothing about its request number `n` (from 1; 0: all answered)
fn core(i: u32, p: &str, n: u32) -> Result<String, ErrorKind> { core_in(i, p, &World { n: std::cell::Cell::new(0), none: n }) }
fn core_in(i: u32, p: &str, w: &World) -> Result<String, ErrorKind> {
    let h = std::collections::HashMap::new();
    match i {
        0 | 1 => run(Message::unpack(p, w, w, &UnpackOptions::default())).map(|x| text(&x.0, &x.1)),
        2 => run(msg().pack_encrypted("did:x:b", Some("did:x:a"), Some("did:x:a"), w, w, &opts(false))).map(|x| x.0),
        3 => run(msg().pack_signed("did:x:a", w, w)).map(|x| x.0),
        4 => run(prior().pack(None, w, w)).map(|x| x.0),
        5 => run(FromPrior::unpack(p, w)).map(|x| x.0.iss),
        _ => run(didcomm::protocols::routing::wrap_in_forward("{\"a\":1}", Some(&h), "did:x:b", &vec!["did:x:b".to_string()], &didcomm::algorithms::AnonCryptAlg::Xc20pEcdhEsA256kw, w)),
    }.map_err(|e| e.kind())
}
struct World { n: std::cell::Cell<u32>, none: u32 }
impl World { fn hit(&self) -> bool { self.n.set(self.n.get() + 1); self.n.get() == self.none } }
unsafe impl Sync for World {}
#[async_trait::async_trait]
impl didcomm::did::DIDResolver for World { async fn resolve(&self, did: &str) -> didcomm::error::Result<Option<DIDDoc>> { Ok(if self.hit() { None } else { docs().into_iter().find(|d| d.id == did) }) } }
#[async_trait::async_trait]
impl didcomm::secrets::SecretsResolver for World {
    async fn get_secret(&self, id: &str) -> didcomm::error::Result<Option<Secret>> { Ok(if self.hit() { None } else { secrets().into_iter().find(|d| d.id == id) }) }
    async fn find_secrets<'a>(&self, ids: &'a [&'a str]) -> didcomm::error::Result<Vec<&'a str>> { Ok(if self.hit() { vec![] } else { ids.iter().filter(|i| secrets().iter().any(|s| s.id == **i)).cloned().collect() }) }
}
/// one more delivery on a callback that has its result
fn again(cb: &Cb, code: u32) {
    let r = match sym::choice(4) { 0 => return, 1 => cb.success(false), 2 => cb.success(true), _ => cb.error(kind(sym::choice(2)), "late".into()) };
    sym::check(r == Err(ErrorKind::InvalidState), code);
    sym::reach(20);
}
/// drives operation `i`; request number `at` is treated as `act` says, all others are answered
fn history(act: u32) {
    model::reset();
    let i = sym::choice(OPS);
    let p = input(i);
    let n = { let w = World { n: std::cell::Cell::new(0), none: 0 }; let _ = core_in(i, &p, &w); w.n.get() };
    let at = sym::choice(n) + 1;
    askar_crypto::model::st().draws = 0;
    let want: Result<String, ErrorKind>;
    let ki = sym::choice(if act == 1 { 9 } else { 1 });
    let k = kind(ki);
    // quick: late deliveries after an error of one kind only
    let late = ki == 0 || sym::tier() > 0;
    let m = if act == 1 { sym::ident(if late { 1 } else { 2 }) } else { String::new() };
    want = match act { 0 => core(i, &p, 0), 1 => Err(k), 2 => Err(ErrorKind::InvalidState), _ => core(i, &p, at) };
    askar_crypto::model::st().draws = 0;
    let q: Queue = Arc::new(Mutex::new(vec![]));
    let out = Out(Arc::new(Mutex::new(vec![])));
    let c = DIDComm::new(Box::new(Foreign(q.clone())), Box::new(Foreign(q.clone())));
    start(&c, i, &p, &out);
    let mut seen = 0;
    let mut kept: Vec<Cb> = vec![];
    for _ in 0..16 {
        model::settle();
        if model::pending() == 0 { break; }
        let cb = match q.lock().unwrap().pop() { Some(cb) => cb, None => { sym::fail(1); return; } };
        sym::check(q.lock().unwrap().is_empty(), 2);
        sym::check(out.0.lock().unwrap().is_empty(), 3);
        seen += 1;
        if seen != at { sym::check(cb.success(false).is_ok(), 4); continue; }
        match act {
            0 => sym::check(cb.success(false).is_ok(), 5),
            1 => sym::check(cb.error(k, m.clone()).is_ok(), 6),
            2 => { drop(cb); continue; }
            _ => sym::check(cb.success(true).is_ok(), 7),
        }
        if !late { continue; }
        again(&cb, 8);
        if sym::flip() { model::settle(); again(&cb, 9); }
        kept.push(cb);
    }
    sym::check(model::pending() == 0, 10);
    for cb in &kept { again(cb, 11); }
    model::settle();
    let o = out.0.lock().unwrap();
    sym::check(o.len() == 1, 12);
    match (&o[0], &want) {
        (Ok(a), Ok(b)) => { sym::check(a == b, 13); sym::reach(1); }
        (Err((a, t)), Err(b)) => { sym::check(a == b, 14); if act == 1 { sym::check(t.contains(&m), 15); } sym::reach(2); }
        _ => sym::fail(16),
    }
}
/// every request is answered once with what the world knows; further deliveries on one callback are refused and change nothing
pub fn answered() { history(0) }
/// one request is answered with an error of any kind: the operation ends with that kind and text
pub fn failed() { history(1) }
/// one request's callback is dropped: the operation fails and does not wait
pub fn dropped() { history(2) }
/// one request is answered with "unknown": the operation ends as the core does
pub fn unknown() { history(3) }
/// two operations at once; their requests are answered in any order, with any answer order between them: each ends with its own result
pub fn interleaved() {
    model::reset();
    let (i, l) = [(0, 1), (0, 0), (1, 5), (4, 1), (5, 0)][sym::choice(5) as usize];
    let (p, r) = (input(i), input(l));
    askar_crypto::model::st().draws = 0;
    let want = [core(i, &p, 0), core(l, &r, 0)];
    askar_crypto::model::st().draws = 0;
    let q: Queue = Arc::new(Mutex::new(vec![]));
    let c = DIDComm::new(Box::new(Foreign(q.clone())), Box::new(Foreign(q.clone())));
    let outs = [Out(Arc::new(Mutex::new(vec![]))), Out(Arc::new(Mutex::new(vec![])))];
    start(&c, i, &p, &outs[0]);
    start(&c, l, &r, &outs[1]);
    // the request that fails, if any
    let bad = sym::choice(4);
    let mut n = 0;
    let mut failed = None;
    for _ in 0..24 {
        if sym::by_tier(true, false) { model::settle(); } else { for _ in 0..2 { let t = model::ready(); if t.is_empty() { break; } model::turn(t[sym::choice(t.len() as u32) as usize]); } }
        if model::pending() == 0 { break; }
        let len = q.lock().unwrap().len() as u32;
        if len == 0 { if model::ready().is_empty() { sym::fail(20); return; } continue; }
        let cb = q.lock().unwrap().remove(sym::choice(len) as usize);
        n += 1;
        if n == bad {
            sym::check(cb.error(ErrorKind::IoError, "no".into()).is_ok(), 21);
            model::settle();
            // exactly one operation ended by this
            let e = [0, 1].iter().filter(|k| outs[**k as usize].0.lock().unwrap().iter().any(|x| matches!(x, Err((ErrorKind::IoError, _))))).count();
            sym::check(e == 1, 22);
            failed = Some(());
        } else { sym::check(cb.success(false).is_ok(), 23); }
    }
    sym::check(model::pending() == 0, 24);
    let mut errs = 0;
    for k in 0..2 {
        let o = outs[k].0.lock().unwrap();
        sym::check(o.len() == 1, 25);
        match &o[0] { Ok(t) => { sym::check(want[k].as_ref().ok() == Some(t), 26); sym::reach(1); } Err((e, _)) => { sym::check(*e == ErrorKind::IoError, 27); errs += 1; } }
    }
    sym::check(errs == if failed.is_some() { 1 } else { 0 }, 28);
    if errs == 1 { sym::reach(2); }
}
