use crate::{fix::*, sym};
use didcomm::did::{resolvers::ExampleDIDResolver, DIDDoc, DIDResolver};
use didcomm::secrets::{resolvers::ExampleSecretsResolver, Secret, SecretsResolver};
use didcomm_uniffi as ffi;
use ffi::ErrorCode;
use std::sync::Arc;

/// a text of up to two characters
fn id() -> String { sym::ident(sym::choice(3) as usize) }
fn doc(i: &str, n: u8) -> DIDDoc { let mut d = Who::new(i).ka("k", Kt::X, n).doc(); d.authentication.push(format_id(i, "z")); d }
fn sec(i: &str, n: u8) -> Secret { secret(i, Kt::X, n) }
fn eq<T: serde::Serialize>(a: &Option<T>, b: &Option<T>) -> bool { serde_json::to_value(a).ok() == serde_json::to_value(b).ok() }

/// the document with exactly the asked id is returned, and none if there is none
pub fn dids() {
    let (a, b, q) = (id(), id(), id());
    sym::assume(a != b);
    let docs = vec![doc(&a, 1), doc(&b, 2)];
    let want = if q == a { Some(docs[0].clone()) } else if q == b { Some(docs[1].clone()) } else { None };
    sym::reach(if want.is_some() { 1 } else { 2 });
    match run(ExampleDIDResolver::new(docs).resolve(&q)) { Ok(x) => sym::check(eq(&x, &want), 1), Err(_) => sym::fail(2) }
}
/// the secret with exactly the asked id is returned, and none if there is none
pub fn secrets() {
    let (a, b, q) = (id(), id(), id());
    sym::assume(a != b);
    let l = vec![sec(&a, 1), sec(&b, 2)];
    let want = if q == a { Some(l[0].clone()) } else if q == b { Some(l[1].clone()) } else { None };
    sym::reach(if want.is_some() { 1 } else { 2 });
    match run(ExampleSecretsResolver::new(l).get_secret(&q)) { Ok(x) => sym::check(eq(&x, &want), 3), Err(_) => sym::fail(4) }
}
/// of the asked ids, those that are present are returned, in the order they were asked
pub fn find() {
    let n = sym::choice(4) as usize;
    // more ids in the long case, where all but the first three are known constants
    let long = sym::flip();
    let ids: Vec<String> = (0..n).map(|_| sym::ident(1)).collect();
    let have: Vec<String> = (0..sym::choice(3)).map(|_| sym::ident(1)).collect();
    const MORE: [&str; 6] = ["p-p", "q.q", "", "p-p", "r:r", "a b"];
    let (mut ids, mut have) = (ids, have);
    if long { for m in MORE { ids.push(m.into()); } have.insert(0, "r:r".into()); have.push("a b".into()); have.push("".into()); have.push("p-p".into()); }
    let r = ExampleSecretsResolver::new(have.iter().map(|i| sec(i, 1)).collect());
    let q: Vec<&str> = ids.iter().map(|s| s as &str).collect();
    let want: Vec<&str> = q.iter().filter(|i| have.iter().any(|h| h == **i)).cloned().collect();
    sym::reach(if want.is_empty() { 2 } else { 1 });
    match run(r.find_secrets(&q)) { Ok(x) => sym::check(x == want, 5), Err(_) => sym::fail(6) };
}
/// the in-memory resolvers of the foreign-language interface behave the same: the operation sees their answers
pub fn foreign() {
    use ffi::{DIDResolver as D, SecretsResolver as S};
    struct Out(std::sync::Mutex<Vec<Result<String, didcomm::error::ErrorKind>>>);
    impl ffi::OnPackSignedResult for Shared { fn success(&self, r: String, m: didcomm::PackSignedMetadata) { let mut s = r; s.push_str(&m.sign_by_kid); self.0 .0.lock().unwrap().push(Ok(s)) } fn error(&self, k: didcomm::error::ErrorKind, _: String) { self.0 .0.lock().unwrap().push(Err(k)) } }
    struct Shared(Arc<Out>);
    futures::executor::model::reset();
    // two DIDs with names that may be prefixes of each other; the signer's key is known or not
    let frag = |n: usize| -> String { sym::ident(n) };
    let (a, b) = (format_did(&frag(1)), format_did(&frag(sym::choice(3) as usize)));
    sym::assume(a != b);
    let who = [Who::new(&a).auth("s", Kt::Ed, 1), Who::new(&b).auth("s", Kt::P, 2)];
    let docs: Vec<DIDDoc> = who.iter().map(|w| w.doc()).collect();
    let secrets: Vec<Secret> = match sym::choice(3) { 0 => vec![], 1 => who[1].secrets(), _ => { let mut v = who[1].secrets(); v.append(&mut who[0].secrets()); v } };
    let m = didcomm::Message::build("i".into(), "t".into(), serde_json::Value::Null).finalize();
    askar_crypto::model::st().draws = 0;
    let want = run(m.pack_signed(&a, &Dids::new(docs.clone()), &Secs::new(secrets.clone()))).map(|(t, m)| { let mut s = t; s.push_str(&m.sign_by_kid); s }).map_err(|e| e.kind());
    askar_crypto::model::st().draws = 0;
    let o = Arc::new(Out(std::sync::Mutex::new(vec![])));
    let (d, s): (Box<dyn D>, Box<dyn S>) = (Box::new(ffi::ExampleDIDResolver::new(docs)), Box::new(ffi::ExampleSecretsResolver::new(secrets)));
    let r = ffi::DIDComm::new(d, s).pack_signed(&m, a, Box::new(Shared(o.clone())));
    sym::check(matches!(r, ErrorCode::Success), 7);
    futures::executor::model::settle();
    let o = o.0.lock().unwrap();
    sym::check(o.len() == 1 && o[0] == want, 8);
    sym::reach(if want.is_ok() { 1 } else { 2 });
}
fn format_did(s: &str) -> String { let mut r = String::from("did:x:a"); r.push_str(s); r }
