use crate::{fix::*, sym};
use didcomm::error::ErrorKind;
use didcomm::did::DIDDoc;
use didcomm::secrets::Secret;
use didcomm::Message;
use didcomm_js as js;
use js_sys::{Array, Error, Promise};
use std::{cell::Cell, rc::Rc};
use wasm_bindgen::{Host, JsCast, JsValue};

/// the names the JavaScript API documents, with their kinds
const NAMES: [(&str, ErrorKind); 9] = [
    ("DIDCommDIDNotResolved", ErrorKind::DIDNotResolved), ("DIDCommDIDUrlNotFound", ErrorKind::DIDUrlNotFound), ("DIDCommSecretNotFound", ErrorKind::SecretNotFound),
    ("DIDCommMalformed", ErrorKind::Malformed), ("DIDCommIoError", ErrorKind::IoError), ("DIDCommInvalidState", ErrorKind::InvalidState),
    ("DIDCommNoCompatibleCrypto", ErrorKind::NoCompatibleCrypto), ("DIDCommUnsupported", ErrorKind::Unsupported), ("DIDCommIllegalArgument", ErrorKind::IllegalArgument)];
/// a resolver written in JavaScript: it answers from fixed data, except that one method throws
struct H { docs: Vec<DIDDoc>, secrets: Vec<Secret>, throws: Option<(&'static str, JsValue)>, thrown: Rc<Cell<bool>> }
impl Host for H {
    fn call(&self, name: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
        if let Some((n, v)) = &self.throws { if *n == name { self.thrown.set(true); return Err(v.clone()); } }
        let arg = args.first().cloned().unwrap_or(JsValue::UNDEFINED);
        let id = arg.as_string().unwrap_or_default();
        Ok(match name {
            "resolve" => match self.docs.iter().find(|d| d.id == id) { Some(d) => JsValue::from_serde(d).unwrap_or(JsValue::UNDEFINED), None => JsValue::NULL },
            "get_secret" => match self.secrets.iter().find(|s| s.id == id) { Some(s) => JsValue::from_serde(s).unwrap_or(JsValue::UNDEFINED), None => JsValue::NULL },
            _ => arg.dyn_into::<Array>().map(|a| a.iter().filter(|v| self.secrets.iter().any(|s| Some(&s.id) == v.as_string().as_ref())).collect::<Array>()).unwrap_or_default().into(),
        })
    }
}
fn whos() -> (Who, Who) { (Who::new("did:x:a").ka("k", Kt::X, 1).auth("s", Kt::Ed, 2), Who::new("did:x:b").ka("1", Kt::X, 3)) }
fn host(throws: Option<(&'static str, JsValue)>) -> (JsValue, Rc<Cell<bool>>) { let (a, b) = whos(); let mut s = a.secrets(); s.append(&mut b.secrets()); host_of(vec![a.doc(), b.doc()], s, throws) }
fn host_of(docs: Vec<DIDDoc>, secrets: Vec<Secret>, throws: Option<(&'static str, JsValue)>) -> (JsValue, Rc<Cell<bool>>) { let thrown = Rc::new(Cell::new(false)); (JsValue::Host(Rc::new(H { docs, secrets, throws, thrown: thrown.clone() })), thrown) }
fn dids(h: &JsValue) -> js::DIDResolver { js::DIDResolver::from(h.clone()) }
fn secs(h: &JsValue) -> js::SecretsResolver { js::SecretsResolver::from(h.clone()) }
fn core_msg() -> Message { Message::build("i".into(), "t".into(), serde_json::Value::Bool(true)).from("did:x:a".into()).finalize() }
fn msg() -> js::Message { match js::Message::new(JsValue::from_serde(&core_msg()).unwrap_or(JsValue::UNDEFINED).into()) { Ok(m) => m, Err(_) => { sym::fail(90); unreachable!() } } }
fn prior() -> didcomm::FromPrior { didcomm::FromPrior::build("did:x:a".into(), "did:x:b".into()).finalize() }
fn jopts() -> JsValue { JsValue::Json(serde_json::json!({})) }
fn core() -> (Dids, Secs) { let (a, b) = whos(); let mut s = a.secrets(); s.append(&mut b.secrets()); (Dids::new(vec![a.doc(), b.doc()]), Secs::new(s)) }
/// operation `i` with a resolver that throws from `method`
fn op(i: u32, h: &JsValue) -> Promise {
    let (d, s) = core();
    match i {
        0 => msg().pack_encrypted("did:x:b".into(), None, None, dids(h), secs(h), jopts()),
        1 => msg().pack_encrypted("did:x:b".into(), Some("did:x:a".into()), Some("did:x:a".into()), dids(h), secs(h), jopts()),
        2 => msg().pack_signed("did:x:a".into(), dids(h), secs(h)),
        3 => { let p = run(core_msg().pack_encrypted("did:x:b", Some("did:x:a"), None, &d, &s, &opts(false))).map(|x| x.0).unwrap_or_default(); js::Message::unpack(p, dids(h), secs(h), jopts()) }
        4 => { let p = run(core_msg().pack_signed("did:x:a", &d, &s)).map(|x| x.0).unwrap_or_default(); js::Message::unpack(p, dids(h), secs(h), jopts()) }
        5 => match js::FromPrior::new(JsValue::from_serde(&prior()).unwrap_or(JsValue::UNDEFINED).into()) { Ok(f) => f.pack(None, dids(h), secs(h)), Err(_) => { sym::fail(91); unreachable!() } },
        6 => { let t = run(prior().pack(None, &d, &s)).map(|x| x.0).unwrap_or_default(); js::FromPrior::unpack(t, dids(h)) }
        _ => js::Message::wrap_in_forward("{\"a\":1}".into(), JsValue::Json(serde_json::json!({})), "did:x:b".into(), JsValue::Json(serde_json::json!(["did:x:b"])), JsValue::from_str("Xc20pEcdhEsA256kw"), dids(h)),
    }
}
/// which resolver methods operation `i` calls
fn methods(i: u32) -> &'static [&'static str] { match i { 0 | 4 | 6 | 7 => &["resolve"], 3 => &["resolve", "find_secrets", "get_secret"], 1 => &["resolve", "get_secret", "find_secrets"], _ => &["resolve", "get_secret", "find_secrets"] } }
fn pick() -> (u32, &'static str) { let i = sym::choice(8); let m = methods(i); (i, m[sym::choice(m.len() as u32) as usize]) }
/// name and message of the error the promise was rejected with
fn rejected(p: Promise) -> Option<(Option<String>, Option<String>)> {
    match p.outcome() { Ok(_) => None, Err(v) => Some(match v.dyn_ref::<Error>() { Some(e) => (e.name().as_string(), e.message().as_string()), None => (None, None) }) }
}
fn expect(p: Promise, thrown: bool, kind: ErrorKind, message: Option<&str>) {
    match rejected(p) {
        None => { sym::check(!thrown, 1); sym::reach(4); }
        Some((n, m)) => {
            let (n, m) = (n.unwrap_or_default(), m.unwrap_or_default());
            let name = match NAMES.iter().find(|x| x.1 == kind) { Some(x) => x.0, None => "" };
            sym::check(n == name, 2);
            if let Some(t) = message { sym::check(m.contains(t), 3); }
            sym::reach(1);
        }
    }
}
/// a resolver throws an error with a documented name and any message: the operation is rejected with the same name and the message
pub fn kinds() {
    let (i, m) = pick();
    let k = sym::choice(9) as usize;
    let t = sym::ident(sym::by_tier(1, 2));
    let e = Error::of(JsValue::from_str(NAMES[k].0), JsValue::from_str(&t));
    let (h, thrown) = host(Some((m, e.into())));
    let p = op(i, &h);
    expect(p, thrown.get(), NAMES[k].1, Some(&t));
}
/// a resolver throws an error with any name of up to 25 characters: a documented name stands for its kind, any other name for InvalidState
pub fn names() {
    let n = sym::ident(sym::choice(26) as usize);
    let e = Error::of(JsValue::from_str(&n), JsValue::from_str("m"));
    let kind = match NAMES.iter().find(|x| x.0 == n) { Some(x) => { sym::reach(2); x.1 } None => ErrorKind::InvalidState };
    expect(op(0, &host(Some(("resolve", e.into()))).0), true, kind, Some("m"));
}
/// a resolver throws anything else: InvalidState, with the text if it was a string
pub fn others() {
    let (i, m) = pick();
    let t = sym::ident(2);
    let (v, text): (JsValue, Option<&str>) = match sym::choice(8) {
        0 => (JsValue::from_str(&t), Some(&t)),
        1 => (JsValue::from_str(NAMES[sym::choice(9) as usize].0), None),
        2 => (JsValue::NULL, None),
        3 => (JsValue::UNDEFINED, None),
        4 => (JsValue::Json(serde_json::json!({ "name": NAMES[0].0, "message": t })), None),
        5 => (JsValue::Json(serde_json::json!(sym::byte())), None),
        6 => (Error::of(JsValue::Json(serde_json::json!(1)), JsValue::from_str(&t)).into(), Some(&t)),
        _ => (Error::of(JsValue::UNDEFINED, JsValue::UNDEFINED).into(), None),
    };
    let (h, thrown) = host(Some((m, v)));
    let p = op(i, &h);
    expect(p, thrown.get(), ErrorKind::InvalidState, text);
}
/// errors of the core carry the documented names: failures of each kind that need no throwing resolver
pub fn core_kinds() {
    let h = host(None).0;
    let (p, k) = match sym::choice(10) {
        0 => (msg().pack_encrypted("did:x:z".into(), None, None, dids(&h), secs(&h), jopts()), ErrorKind::DIDNotResolved),
        1 => (msg().pack_encrypted("did:x:b#9".into(), None, None, dids(&h), secs(&h), jopts()), ErrorKind::DIDUrlNotFound),
        2 => { let d = { let (a, _) = whos(); host_of(vec![a.doc()], vec![], None).0 }; (msg().pack_signed("did:x:a".into(), dids(&d), secs(&d)), ErrorKind::SecretNotFound) }
        3 => (js::Message::unpack("x".into(), dids(&h), secs(&h), jopts()), ErrorKind::Malformed),
        4 => (msg().pack_encrypted("b".into(), None, None, dids(&h), secs(&h), jopts()), ErrorKind::IllegalArgument),
        5 => { // the sender has only a P-256 key, the recipient only X25519
            let a = Who::new("did:x:a").ka("k", Kt::P, 1); let (_, b) = whos();
            let d = host_of(vec![a.doc(), b.doc()], a.secrets(), None).0;
            (msg().pack_encrypted("did:x:b".into(), Some("did:x:a".into()), None, dids(&d), secs(&d), jopts()), ErrorKind::NoCompatibleCrypto)
        }
        6 => (js::Message::unpack("{}".into(), dids(&h), secs(&h), JsValue::from_str("no options")), ErrorKind::Malformed),
        // the resolver answers with something that is no document
        7 => { struct W; impl Host for W { fn call(&self, _: &str, _: Vec<JsValue>) -> Result<JsValue, JsValue> { Ok(JsValue::from_str("w")) } } let w = JsValue::Host(Rc::new(W)); (msg().pack_encrypted("did:x:b".into(), None, None, dids(&w), secs(&w), jopts()), ErrorKind::InvalidState) }
        8 => (js::Message::unpack("x".into(), dids(&h), secs(&h), JsValue::UNDEFINED), ErrorKind::Malformed),
        _ => { // a constructor throws
            match js::Message::new(JsValue::Json(serde_json::json!({ "id": 1 })).into()) {
                Ok(_) => sym::fail(4),
                Err(v) => { sym::check(v.dyn_ref::<Error>().and_then(|e| e.name().as_string()).as_deref() == Some("DIDCommMalformed"), 5); sym::reach(3); }
            }
            return;
        }
    };
    expect(p, true, k, None);
}
