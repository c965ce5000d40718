use crate::{fix::*, gen, sym};
use didcomm::algorithms::{AnonCryptAlg, AuthCryptAlg, SignAlg};
use didcomm::did::DIDDoc;
use didcomm::error::ErrorKind;
use didcomm::protocols::routing::{try_parse_forward, wrap_in_forward};
use didcomm::secrets::Secret;
use didcomm::{FromPrior, Message, PackEncryptedMetadata, PackEncryptedOptions, UnpackMetadata, UnpackOptions};
use didcomm_js as js;
use js_sys::{Array, Error, Promise};
use serde_json::{json, Map, Value};
use std::{cell::Cell, collections::HashMap, rc::Rc};
use wasm_bindgen::{Host, JsCast, JsValue};

/// resolvers written in JavaScript. `extra`: find_secrets also returns other values, and in another order
struct H { docs: Vec<DIDDoc>, secrets: Vec<Secret>, extra: bool, bad: Cell<u32> }
impl Host for H {
    fn call(&self, name: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
        if args.len() != 1 { self.bad.set(1); }
        let arg = args.first().cloned().unwrap_or(JsValue::UNDEFINED);
        if name == "find_secrets" {
            let l = match arg.dyn_into::<Array>() { Ok(a) => a.to_vec(), Err(_) => { self.bad.set(2); vec![] } };
            let mut l: Vec<JsValue> = l.into_iter().filter(|v| self.secrets.iter().any(|s| Some(&s.id) == v.as_string().as_ref())).collect();
            if self.extra { l.reverse(); l.insert(0, JsValue::from_str("did:x:b#0")); l.push(JsValue::NULL); l.push(JsValue::Json(json!(7))); if let Some(x) = l.get(1).cloned() { l.push(x); } }
            return Ok(l.into_iter().collect::<Array>().into());
        }
        let id = match arg.as_string() { Some(i) => i, None => { self.bad.set(3); String::new() } };
        Ok(match name {
            "resolve" => match self.docs.iter().find(|d| d.id == id) { Some(d) => JsValue::from_serde(d).unwrap_or(JsValue::UNDEFINED), None => JsValue::NULL },
            "get_secret" => match self.secrets.iter().find(|s| s.id == id) { Some(s) => JsValue::from_serde(s).unwrap_or(JsValue::UNDEFINED), None => JsValue::NULL },
            _ => { self.bad.set(4); JsValue::UNDEFINED }
        })
    }
}
fn whos() -> Vec<Who> {
    vec![Who::new("did:x:a").ka("k", Kt::X, 1).ka("p", Kt::P, 8).auth("s", Kt::Ed, 2).auth("e", Kt::K, 9),
        Who::new("did:x:b").ka("1", Kt::X, 3).ka("2", Kt::X, 4).svc(svc("did:x:b#s", "did:x:m", None, &[])).svc(svc("did:x:b#t", "http://t", None, &["did:x:m#k"])),
        Who::new("did:x:m").ka("k", Kt::X, 5).svc(svc("did:x:m#s", "http://m", None, &[])), Who::new("did:x:p").auth("s", Kt::P, 6)]
}
fn docs() -> Vec<DIDDoc> { whos().iter().map(|w| w.doc()).collect() }
fn secrets() -> Vec<Secret> { whos().iter().flat_map(|w| w.secrets()).collect() }
fn host(extra: bool, secrets: Vec<Secret>) -> (Rc<H>, JsValue) { let h = Rc::new(H { docs: docs(), secrets, extra, bad: Cell::new(0) }); (h.clone(), JsValue::Host(h)) }
fn dids(h: &JsValue) -> js::DIDResolver { js::DIDResolver::from(h.clone()) }
fn secs(h: &JsValue) -> js::SecretsResolver { js::SecretsResolver::from(h.clone()) }
fn j(v: Value) -> JsValue { JsValue::Json(v) }
fn val<T: serde::Serialize>(t: &T) -> Value { serde_json::to_value(t).unwrap_or_default() }
fn name(k: ErrorKind) -> &'static str { match k { ErrorKind::DIDNotResolved => "DIDCommDIDNotResolved", ErrorKind::DIDUrlNotFound => "DIDCommDIDUrlNotFound", ErrorKind::SecretNotFound => "DIDCommSecretNotFound", ErrorKind::Malformed => "DIDCommMalformed", ErrorKind::IoError => "DIDCommIoError", ErrorKind::InvalidState => "DIDCommInvalidState", ErrorKind::NoCompatibleCrypto => "DIDCommNoCompatibleCrypto", ErrorKind::Unsupported => "DIDCommUnsupported", ErrorKind::IllegalArgument => "DIDCommIllegalArgument" } }
fn again() { askar_crypto::model::st().draws = 0; }
/// the value a class instance holds, or the plain value
fn plain(v: &JsValue) -> Value {
    if let JsValue::Rust(r) = v {
        if let Some(m) = r.downcast_ref::<js::Message>() { return m.as_value().map(|v| v.to_value()).unwrap_or_default(); }
        if let Some(m) = r.downcast_ref::<js::FromPrior>() { return m.as_value().map(|v| v.to_value()).unwrap_or_default(); }
    }
    v.to_value()
}
/// a promise's outcome: a pair, a single value, or the name of an error
fn same(p: Promise, want: Result<Vec<Value>, ErrorKind>, code: u32) {
    match (p.outcome(), want) {
        (Ok(v), Ok(w)) => {
            let got: Vec<Value> = if w.len() == 1 { vec![plain(&v)] } else { match v.dyn_into::<Array>() { Ok(a) => a.iter().map(|v| plain(&v)).collect(), Err(_) => vec![] } };
            sym::check(got == w, code);
            sym::reach(1);
        }
        (Err(v), Err(k)) => { sym::check(v.dyn_ref::<Error>().and_then(|e| e.name().as_string()).as_deref() == Some(name(k)), code + 1); sym::reach(2); }
        _ => sym::fail(code + 2),
    }
}
/// a message as a JavaScript object
fn jmsg(m: &Message) -> js::Message { match js::Message::new(j(val(m)).into()) { Ok(m) => m, Err(_) => { sym::fail(90); unreachable!() } } }
fn anon_name(a: &AnonCryptAlg) -> &'static str { match a { AnonCryptAlg::A256cbcHs512EcdhEsA256kw => "A256cbcHs512EcdhEsA256kw", AnonCryptAlg::Xc20pEcdhEsA256kw => "Xc20pEcdhEsA256kw", AnonCryptAlg::A256gcmEcdhEsA256kw => "A256gcmEcdhEsA256kw" } }
fn auth_name(_: &AuthCryptAlg) -> &'static str { "A256cbcHs512Ecdh1puA256kw" }
fn enc_meta(m: &PackEncryptedMetadata) -> Value {
    json!({ "messaging_service": m.messaging_service.as_ref().map(|s| json!({ "id": s.id, "service_endpoint": s.service_endpoint })), "from_kid": m.from_kid, "sign_by_kid": m.sign_by_kid, "to_kids": m.to_kids })
}
/// the documented shape of UnpackMetadata in JavaScript
fn meta(m: &UnpackMetadata) -> Value {
    let fp = m.from_prior.as_ref().map(|f| { let mut o = Map::new(); o.insert("iss".into(), json!(f.iss)); o.insert("sub".into(), json!(f.sub)); if let Some(x) = &f.aud { o.insert("aud".into(), json!(x)); } if let Some(x) = f.exp { o.insert("exp".into(), json!(x)); } if let Some(x) = f.nbf { o.insert("nbf".into(), json!(x)); } if let Some(x) = f.iat { o.insert("iat".into(), json!(x)); } if let Some(x) = &f.jti { o.insert("jti".into(), json!(x)); } Value::Object(o) });
    json!({ "encrypted": m.encrypted, "authenticated": m.authenticated, "non_repudiation": m.non_repudiation, "anonymous_sender": m.anonymous_sender, "re_wrapped_in_forward": m.re_wrapped_in_forward,
        "encrypted_from_kid": m.encrypted_from_kid, "encrypted_to_kids": m.encrypted_to_kids, "sign_from": m.sign_from, "from_prior_issuer_kid": m.from_prior_issuer_kid,
        "enc_alg_auth": m.enc_alg_auth.as_ref().map(auth_name), "enc_alg_anon": m.enc_alg_anon.as_ref().map(anon_name),
        "sign_alg": m.sign_alg.as_ref().map(|a| match a { SignAlg::EdDSA => "EdDSA", SignAlg::ES256 => "ES256", SignAlg::ES256K => "ES256K" }), "signed_message": m.signed_message, "from_prior": fp })
}
fn content() -> Message { Message::build("i".into(), "t".into(), json!(sym::ident(1))).from("did:x:a".into()).created_time(sym::byte() as u64).finalize() }

/// pack_encrypted: every argument and option given or left out, all addresses
pub fn encrypted() {
    let m = content();
    let who = sym::flip();
    let (to, from, sign) = if who {
        (["did:x:b", "did:x:b#2", "did:x:m", "did:x:z", "did:x:b#9"][sym::choice(5) as usize], [None, Some("did:x:a"), Some("did:x:a#k"), Some("did:x:a#q")][sym::choice(4) as usize], [None, Some("did:x:a"), Some("did:x:a#e")][sym::choice(3) as usize])
    } else { ("did:x:b", sym::opt(|| "did:x:a"), None) };
    let mut o = Map::new();
    // documented defaults
    let mut c = PackEncryptedOptions { protect_sender: false, forward: true, forward_headers: None, messaging_service: None, enc_alg_auth: AuthCryptAlg::A256cbcHs512Ecdh1puA256kw, enc_alg_anon: AnonCryptAlg::Xc20pEcdhEsA256kw };
    let (ps, fw, ms, an, au, fh) = match if who { 3 } else { sym::choice(3) } { 3 => (0, 0, 0, 0, 0, 0), 0 => (sym::choice(3), sym::choice(3), 0, 0, 0, 0), 1 => (0, sym::choice(2), sym::choice(4), 0, sym::choice(2), sym::choice(3)), _ => (sym::choice(2), 0, 0, sym::choice(4), 0, sym::choice(2)) };
    if ps > 0 { c.protect_sender = ps == 2; o.insert("protect_sender".into(), json!(ps == 2)); }
    if fw > 0 { c.forward = fw == 2; o.insert("forward".into(), json!(fw == 2)); }
    if ms > 0 { let s = ["did:x:b#s", "did:x:b#t", "did:x:b#u"][ms as usize - 1]; c.messaging_service = Some(s.into()); o.insert("messaging_service".into(), json!(s)); }
    if an > 0 { c.enc_alg_anon = anon_alg(an - 1); o.insert("enc_alg_anon".into(), json!(anon_name(&anon_alg(an - 1)))); }
    if au > 0 { o.insert("enc_alg_auth".into(), json!("A256cbcHs512Ecdh1puA256kw")); }
    if fh > 0 { let mut h = HashMap::new(); if fh == 2 { let v = json!(sym::byte()); h.insert("h".to_string(), v); } o.insert("forward_headers".into(), val(&h)); c.forward_headers = Some(h); }
    let (d, s) = (Dids::new(docs()), Secs::new(secrets()));
    again();
    let want = run(m.pack_encrypted(to, from, sign, &d, &s, &c));
    again();
    let (h, v) = host(false, secrets());
    let p = jmsg(&m).pack_encrypted(to.into(), from.map(|x| x.into()), sign.map(|x| x.into()), dids(&v), secs(&v), j(Value::Object(o)));
    sym::check(h.bad.get() == 0, 1);
    same(p, want.map(|(t, m)| vec![json!(t), enc_meta(&m)]).map_err(|e| e.kind()), 10);
}
/// pack_plaintext, pack_signed
pub fn signed() {
    let mut m = content();
    let (d, s) = (Dids::new(docs()), Secs::new(secrets()));
    if sym::flip() { m.from_prior = run(FromPrior::build("did:x:p".into(), if sym::flip() { "did:x:a".into() } else { "did:x:b".into() }).finalize().pack(None, &d, &s)).map(|x| x.0).ok(); }
    let (h, v) = host(false, secrets());
    let by = ["did:x:a", "did:x:a#e", "did:x:z", "did:x:a#9", "did:x:b", "a"][sym::choice(6) as usize];
    if sym::flip() {
        let want = run(m.pack_plaintext(&d));
        same(jmsg(&m).pack_plaintext(dids(&v)), want.map(|t| vec![json!(t)]).map_err(|e| e.kind()), 20);
    } else {
        again();
        let want = run(m.pack_signed(by, &d, &s));
        again();
        same(jmsg(&m).pack_signed(by.into(), dids(&v), secs(&v)), want.map(|(t, m)| vec![json!(t), json!({ "sign_by_kid": m.sign_by_kid })]).map_err(|e| e.kind()), 30);
    }
    sym::check(h.bad.get() == 0, 1);
}
/// unpack: every kind of envelope, options given or left out, resolvers that return more than they were asked for
pub fn unpacked() {
    let mut m = content();
    let (d, s) = (Dids::new(docs()), Secs::new(secrets()));
    let k = sym::choice(7);
    if k < 3 && sym::flip() { m.from_prior = run(FromPrior::build("did:x:p".into(), "did:x:a".into()).iat(sym::byte() as u64).finalize().pack(None, &d, &s)).map(|x| x.0).ok(); }
    let ps = |b: bool| PackEncryptedOptions { protect_sender: b, ..opts(false) };
    let p = match k {
        0 => run(m.pack_plaintext(&d)), 1 => run(m.pack_signed("did:x:a", &d, &s)).map(|x| x.0),
        2 => run(m.pack_encrypted("did:x:b", None, None, &d, &s, &ps(false))).map(|x| x.0),
        3 => run(m.pack_encrypted("did:x:b", Some("did:x:a"), Some("did:x:a#e"), &d, &s, &ps(true))).map(|x| x.0),
        4 | 5 => { let q = run(m.pack_encrypted("did:x:b", Some("did:x:a"), None, &d, &s, &ps(false))).map(|x| x.0).unwrap_or_default(); if k == 4 { Ok(q) } else { run(wrap_in_forward(&q, None, "did:x:b", &vec!["did:x:b".to_string()], &anon_alg(0), &d)) } }
        _ => Ok("{\"a\":1}".to_string()),
    }.unwrap_or_default();
    let mut o = Map::new();
    let mut c = UnpackOptions { expect_decrypt_by_all_keys: false, unwrap_re_wrapping_forward: false };
    let (a, b) = (sym::choice(3), sym::choice(3));
    if a > 0 { c.expect_decrypt_by_all_keys = a == 2; o.insert("expect_decrypt_by_all_keys".into(), json!(a == 2)); }
    if b > 0 { c.unwrap_re_wrapping_forward = b == 2; o.insert("unwrap_re_wrapping_forward".into(), json!(b == 2)); }
    // the wallet lacks any of the recipient's keys
    let lack = if a == 0 || b == 0 { 0 } else { sym::choice(4) };
    let mine: Vec<Secret> = secrets().into_iter().filter(|s| !(lack & 1 != 0 && s.id == "did:x:b#1") && !(lack & 2 != 0 && s.id == "did:x:b#2")).collect();
    let want = run(Message::unpack(&p, &d, &Secs::new(mine.clone()), &c));
    let (h, v) = host(k > 1 && k < 6 && sym::flip(), mine);
    let got = js::Message::unpack(p, dids(&v), secs(&v), j(Value::Object(o)));
    sym::check(h.bad.get() == 0, 1);
    same(got, want.map(|(m, x)| vec![val(&m), meta(&x)]).map_err(|e| e.kind()), 40);
}
/// FromPrior: constructor, as_value, pack, unpack
pub fn from_prior() {
    let (d, s) = (Dids::new(docs()), Secs::new(secrets()));
    let (iss, kid) = [("did:x:p", None), ("did:x:p", Some("did:x:p#s")), ("did:x:p", Some("did:x:p#9")), ("did:x:a", Some("did:x:a#e")), ("did:x:p", Some("did:x:a#s")), ("did:x:z", None)][sym::choice(6) as usize];
    let mut b = FromPrior::build(iss.into(), "did:x:a".into());
    let mask = sym::choice(32);
    if mask & 1 != 0 { b = b.aud(sym::ident(1)); }
    if mask & 2 != 0 { b = b.exp(sym::byte() as u64); }
    if mask & 4 != 0 { b = b.nbf(sym::byte() as u64); }
    if mask & 8 != 0 { b = b.iat(sym::byte() as u64); }
    if mask & 16 != 0 { b = b.jti("j".into()); }
    let f = b.finalize();
    let jf = match js::FromPrior::new(j(val(&f)).into()) { Ok(f) => f, Err(_) => { sym::fail(91); return; } };
    sym::check(jf.as_value().map(|v| v.to_value()).ok() == Some(val(&f)), 2);
    let (h, v) = host(false, secrets());
    again();
    let want = run(f.pack(kid, &d, &s));
    again();
    same(jf.pack(kid.map(|x| x.into()), dids(&v), secs(&v)), want.map(|(t, k)| vec![json!(t), json!(k)]).map_err(|e| e.kind()), 50);
    if let Ok((t, _)) = run(f.pack(kid, &d, &s)) {
        let t = if sym::flip() { t } else { let mut t = t; t.push('A'); t };
        let want = run(FromPrior::unpack(&t, &d));
        same(js::FromPrior::unpack(t, dids(&v)), want.map(|(f, k)| vec![val(&f), json!(k)]).map_err(|e| e.kind()), 60);
    }
    sym::check(h.bad.get() == 0, 1);
}
/// wrap_in_forward, try_parse_forward
pub fn forward() {
    let d = Dids::new(docs());
    let (_, v) = host(false, vec![]);
    let to = ["did:x:b", "did:x:b#1", "did:x:z"][sym::choice(3) as usize];
    let rk: Vec<String> = [vec![], vec!["did:x:m".to_string()], vec!["did:x:m#k".into(), "did:x:b".into()], vec!["did:x:z".into()]][sym::choice(4) as usize].clone();
    let mut h = HashMap::new();
    if sym::flip() { h.insert("h".to_string(), json!(sym::ident(1))); }
    let a = anon_alg(sym::choice(3));
    let t = if sym::flip() { "{\"a\":1}" } else { "x" };
    again();
    let want = run(wrap_in_forward(t, Some(&h), to, &rk, &a, &d));
    again();
    same(js::Message::wrap_in_forward(t.into(), j(val(&h)), to.into(), j(val(&rk)), JsValue::from_str(anon_name(&a)), dids(&v)), want.map(|t| vec![json!(t)]).map_err(|e| e.kind()), 70);
    // parsing a forward message
    let ty = if sym::flip() { "https://didcomm.org/routing/2.0/forward".to_string() } else { sym::ident(1) };
    let mut b = Message::build("i".into(), ty, if sym::flip() { json!({ "next": "did:x:b" }) } else { json!({}) });
    if sym::flip() { b = b.attachment(didcomm::Attachment::json(json!({ "c": sym::byte() })).finalize()); }
    let m = b.finalize();
    let got = jmsg(&m).try_parse_forward();
    let want = match try_parse_forward(&m) { Some(f) => json!({ "msg": val(&m), "next": f.next, "forwarded_msg": f.forwarded_msg }), None => Value::Null };
    match got { Ok(v) => { sym::check(v.to_value() == want, 80); sym::reach(if want.is_null() { 3 } else { 4 }); } Err(_) => sym::fail(81) }
}
/// Message: what goes in as an object comes out of as_value, whatever headers and attachments it has
pub fn object() {
    let m = if sym::flip() { gen::message(sym::choice(1024), "s", [7, 1 << 53, u64::MAX - 1][sym::choice(3) as usize]) } else { gen::message([0, 1023, 0x155, 0x2aa][sym::choice(4) as usize], &sym::ident(1), sym::byte() as u64) };
    let v = val(&m);
    match js::Message::new(j(v.clone()).into()) {
        Ok(x) => match x.as_value() { Ok(w) => { sym::check(w.to_value() == v, 82); sym::reach(1); } Err(_) => sym::fail(83) },
        Err(_) => sym::fail(84),
    }
}
/// malformed arguments: rejected as Malformed, no panic
pub fn malformed() {
    let (_, v) = host(false, secrets());
    let which = sym::choice(6);
    let bad = match which { 0 => JsValue::NULL, 1 => JsValue::UNDEFINED, 2 => j(json!(sym::byte())), 3 => JsValue::from_str("s"), 4 => j(json!({ "expect_decrypt_by_all_keys": 1, "forward": 2, "id": 3, "iss": 4 })), _ => j(json!(["a", 1])) };
    let m = jmsg(&content());
    let p = match sym::choice(7) {
        0 => match js::Message::new(bad.into()) { Ok(_) => { sym::fail(85); return; } Err(e) => Promise::settled(Err(e)) },
        1 => match js::FromPrior::new(bad.into()) { Ok(_) => { sym::fail(86); return; } Err(e) => Promise::settled(Err(e)) },
        2 => m.pack_encrypted("did:x:b".into(), None, None, dids(&v), secs(&v), bad),
        3 => js::Message::unpack("{}".into(), dids(&v), secs(&v), bad),
        4 => js::Message::wrap_in_forward("{}".into(), if which == 4 { j(json!([])) } else { bad }, // any object is a set of headers
            "did:x:b".into(), j(json!(["did:x:b"])), JsValue::from_str("Xc20pEcdhEsA256kw"), dids(&v)),
        5 => js::Message::wrap_in_forward("{}".into(), j(json!({})), "did:x:b".into(), bad, JsValue::from_str("Xc20pEcdhEsA256kw"), dids(&v)),
        _ => js::Message::wrap_in_forward("{}".into(), j(json!({})), "did:x:b".into(), j(json!(["did:x:b"])), bad, dids(&v)),
    };
    match p.outcome() { Ok(_) => sym::fail(87), Err(e) => { sym::check(e.dyn_ref::<Error>().and_then(|e| e.name().as_string()).as_deref() == Some("DIDCommMalformed"), 88); sym::reach(1); } }
}
/// one text argument of its own: empty, blank, padded, in another case, cut off, or any text of one or two bytes
fn text(good: &str) -> String {
    match sym::choice(10) {
        0 => String::new(), 1 => " ".into(), 2 => format!(" {}", good), 3 => format!("{} ", good), 4 => good.to_uppercase(), 5 => format!("{}#", good), 6 => format!("{}\n", good),
        7 => sym::utf8(1), 8 => sym::utf8(2), _ => format!("{}{}", good, sym::utf8(1)),
    }
}
/// every text argument of every operation reaches the core as it was given
pub fn texts() {
    let (d, s) = (Dids::new(docs()), Secs::new(secrets()));
    let (h, v) = host(false, secrets());
    let m = Message::build("i".into(), "t".into(), json!(1)).from("did:x:a".into()).finalize();
    let mut c = PackEncryptedOptions { forward: true, protect_sender: false, forward_headers: None, messaging_service: None, enc_alg_auth: AuthCryptAlg::A256cbcHs512Ecdh1puA256kw, enc_alg_anon: AnonCryptAlg::Xc20pEcdhEsA256kw };
    let mut o = Map::new();
    let which = sym::choice(11);
    if which < 5 {
        let (mut to, mut from, mut sign) = ("did:x:m".to_string(), None, None);
        match which {
            0 => to = text("did:x:b"),
            1 => from = Some(text("did:x:a")),
            2 => { from = Some("did:x:a".to_string()); sign = Some(text("did:x:a")); }
            3 => { let t = text("did:x:b#s"); to = "did:x:b".into(); c.messaging_service = Some(t.clone()); o.insert("messaging_service".into(), json!(t)); }
            _ => { to = "did:x:b".into(); let k = ["", " ", "H", "h ", "next", "enc_alg", "\u{e9}"][sym::choice(7) as usize]; let x = [json!(null), json!(""), json!(" a "), json!([]), json!({ "B": [null] })][sym::choice(5) as usize].clone(); let mut h = HashMap::new(); h.insert(k.to_string(), x); o.insert("forward_headers".into(), val(&h)); c.forward_headers = Some(h); }
        }
        again();
        let want = run(m.pack_encrypted(&to, from.as_deref(), sign.as_deref(), &d, &s, &c));
        again();
        let p = jmsg(&m).pack_encrypted(to, from, sign, dids(&v), secs(&v), j(Value::Object(o)));
        same(p, want.map(|(t, m)| vec![json!(t), enc_meta(&m)]).map_err(|e| e.kind()), 110);
    } else if which == 5 {
        let by = text("did:x:a#e");
        again();
        let want = run(m.pack_signed(&by, &d, &s));
        again();
        same(jmsg(&m).pack_signed(by, dids(&v), secs(&v)), want.map(|(t, m)| vec![json!(t), json!({ "sign_by_kid": m.sign_by_kid })]).map_err(|e| e.kind()), 120);
    } else if which == 6 {
        let kid = text("did:x:p#s");
        let f = FromPrior::build("did:x:p".into(), "did:x:a".into()).finalize();
        let jf = match js::FromPrior::new(j(val(&f)).into()) { Ok(f) => f, Err(_) => { sym::fail(91); return; } };
        again();
        let want = run(f.pack(Some(&kid), &d, &s));
        again();
        same(jf.pack(Some(kid), dids(&v), secs(&v)), want.map(|(t, k)| vec![json!(t), json!(k)]).map_err(|e| e.kind()), 130);
    } else if which < 9 {
        let (mut to, mut rk, mut t) = ("did:x:b".to_string(), vec!["did:x:m".to_string()], "{\"a\":1}".to_string());
        match which { 7 => to = text("did:x:b"), _ => { let x = text("did:x:m"); if sym::flip() { rk = vec![x]; } else if sym::flip() { rk.push(x); } else { t = ["", " ", "{}", " {\"a\":1}\n", "[1]", "null"][sym::choice(6) as usize].to_string(); } } }
        again();
        let want = run(wrap_in_forward(&t, None, &to, &rk, &anon_alg(0), &d));
        again();
        same(js::Message::wrap_in_forward(t, j(json!({})), to, j(json!(rk)), JsValue::from_str(anon_name(&anon_alg(0))), dids(&v)), want.map(|t| vec![json!(t)]).map_err(|e| e.kind()), 140);
    } else {
        let t = match sym::choice(3) { 0 => run(m.pack_plaintext(&d)), 1 => run(m.pack_signed("did:x:a", &d, &s)).map(|x| x.0), _ => run(m.pack_encrypted("did:x:b", None, None, &d, &s, &opts(false))).map(|x| x.0) }.unwrap_or_default();
        let t = if which == 9 { match sym::choice(6) { 0 => String::new(), 1 => format!(" {}", t), 2 => format!("{}\n", t), 3 => format!("\u{feff}{}", t), 4 => format!("{}x", t), _ => t[..t.len() - 1].to_string() } } else { match sym::choice(3) { 0 => sym::utf8(1), 1 => format!("{}{}", sym::utf8(1), t), _ => format!("{}{}", t, sym::utf8(1)) } };
        let u = UnpackOptions { expect_decrypt_by_all_keys: false, unwrap_re_wrapping_forward: false };
        let want = run(Message::unpack(&t, &d, &s, &u));
        same(js::Message::unpack(t, dids(&v), secs(&v), j(json!({}))), want.map(|(m, x)| vec![val(&m), meta(&x)]).map_err(|e| e.kind()), 150);
    }
    sym::check(h.bad.get() == 0, 1);
}
