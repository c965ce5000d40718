use crate::{fix::*, sym};
use didcomm::error::ErrorKind;
use didcomm::protocols::routing::wrap_in_forward;
use didcomm::*;

fn kind(i: u32) -> ErrorKind { use ErrorKind::*; match i { 0 => IoError, 1 => InvalidState, 2 => Malformed, 3 => DIDNotResolved, 4 => DIDUrlNotFound, 5 => SecretNotFound, 6 => NoCompatibleCrypto, 7 => Unsupported, _ => IllegalArgument } }
/// an operation: (DID resolver, secrets resolver) -> what it returned
type Op = Box<dyn Fn(&Dids, &Secs) -> std::result::Result<String, ErrorKind>>;
fn whos() -> (Who, Who, Who, Who) {
    (Who::new("did:x:a").ka("k", Kt::X, 1).auth("s", Kt::Ed, 2), Who::new("did:x:b").ka("1", Kt::X, 3).ka("2", Kt::X, 4).svc(svc("did:x:b#s", "did:x:m", None, &["did:x:r#k"])),
     Who::new("did:x:m").ka("k", Kt::X, 5).svc(svc("did:x:m#s", "http://m", None, &["did:x:m#k"])), Who::new("did:x:p").auth("s", Kt::Ed, 6))
}
fn relay() -> Who { Who::new("did:x:r").ka("k", Kt::X, 7) }
fn all_docs() -> Vec<didcomm::did::DIDDoc> { let (a, b, m, p) = whos(); vec![a.doc(), b.doc(), m.doc(), p.doc(), relay().doc()] }
fn all_secrets() -> Vec<didcomm::secrets::Secret> { let (a, b, _, p) = whos(); let mut v = a.secrets(); v.append(&mut b.secrets()); v.append(&mut p.secrets()); v }
fn e<T>(r: Result<T>, f: impl Fn(T) -> String) -> std::result::Result<String, ErrorKind> { match r { Ok(x) => Ok(f(x)), Err(x) => Err(x.kind()) } }
type Result<T> = didcomm::error::Result<T>;
fn msg(c: &str, prior: bool) -> Message {
    let b = Message::build("i".into(), "t".into(), serde_json::Value::String(c.into())).from("did:x:a".into());
    let b = if prior { let s = Secs::new(all_secrets()); b.from_prior(run(FromPrior::build("did:x:p".into(), "did:x:a".into()).finalize().pack(None, &Dids::new(all_docs()), &s)).map(|x| x.0).unwrap_or_default()) } else { b };
    b.finalize()
}
/// an envelope made by the library with well-behaved resolvers
fn packed(k: u32, m: &Message) -> String {
    let d = Dids::new(all_docs()); let s = Secs::new(all_secrets());
    let o = |ps: bool| PackEncryptedOptions { protect_sender: ps, ..opts(false) };
    match k {
        0 => run(m.pack_plaintext(&d)).unwrap_or_default(),
        1 => run(m.pack_signed("did:x:a", &d, &s)).map(|x| x.0).unwrap_or_default(),
        2 => run(m.pack_encrypted("did:x:b", None, None, &d, &s, &o(false))).map(|x| x.0).unwrap_or_default(),
        3 => run(m.pack_encrypted("did:x:b", Some("did:x:a"), None, &d, &s, &o(false))).map(|x| x.0).unwrap_or_default(),
        4 => run(m.pack_encrypted("did:x:b", Some("did:x:a"), Some("did:x:a"), &d, &s, &o(true))).map(|x| x.0).unwrap_or_default(),
        5 => run(m.pack_encrypted("did:x:b", None, Some("did:x:a"), &d, &s, &o(false))).map(|x| x.0).unwrap_or_default(),
        // a relay wrapped it again for one of the recipient's keys, or for its DID
        _ => { let q = packed(4, m); let to = if k == 6 { "did:x:b#1" } else { "did:x:b" }; run(wrap_in_forward(&q, None, to, &vec!["did:x:b#2".to_string()], &anon_alg(0), &d)).unwrap_or_default() }
    }
}
fn operation(c: String) -> Op {
    match sym::choice(12) {
        0 => { let m = msg(&c, sym::flip()); Box::new(move |d, _| e(run(m.pack_plaintext(d)), |x| x)) }
        1 => { let m = msg(&c, sym::flip()); let by = if sym::flip() { "did:x:a" } else { "did:x:a#s" }; Box::new(move |d, s| e(run(m.pack_signed(by, d, s)), |x| x.0)) }
        2 => { let m = msg(&c, sym::flip()); let to = if sym::flip() { "did:x:b" } else { "did:x:b#1" }; let f = sym::flip(); Box::new(move |d, s| e(run(m.pack_encrypted(to, None, None, d, s, &opts(f))), |x| x.0)) }
        3 => { let m = msg(&c, sym::flip()); let (to, from) = if sym::flip() { ("did:x:b", "did:x:a") } else { ("did:x:b#1", "did:x:a#k") }; let f = sym::flip(); let sg = sym::flip(); let o = PackEncryptedOptions { protect_sender: sym::flip(), ..opts(f) }; Box::new(move |d, s| e(run(m.pack_encrypted(to, Some(from), if sg { Some("did:x:a") } else { None }, d, s, &o)), |x| x.0)) }
        4 => { let m = msg(&c, false); Box::new(move |d, s| e(run(m.pack_encrypted("did:x:b", None, Some("did:x:a"), d, s, &opts(true))), |x| x.0)) }
        5 => { let f = FromPrior::build("did:x:p".into(), "did:x:a".into()).jti(c).finalize(); let k = if sym::flip() { None } else { Some("did:x:p#s") }; Box::new(move |d, s| e(run(f.pack(k, d, s)), |x| x.0)) }
        6 => { let t = msg(&c, true).from_prior.unwrap_or_default(); Box::new(move |d, _| e(run(FromPrior::unpack(&t, d)), |x| x.0.iss)) }
        7 => { let to = ["did:x:b", "did:x:b#1"][sym::choice(2) as usize]; let rk: Vec<String> = match sym::choice(2) { 0 => vec!["did:x:m".into()], _ => vec!["did:x:r#k".into(), "did:x:m#k".into()] }; Box::new(move |d, _| e(run(wrap_in_forward("{\"a\":1}", None, to, &rk, &anon_alg(1), d)), |x| x)) }
        _ => { let k = sym::choice(8); let m = msg(&c, sym::flip()); let p = packed(k, &m); let o = UnpackOptions { expect_decrypt_by_all_keys: sym::flip(), unwrap_re_wrapping_forward: k > 5 || sym::flip() }; Box::new(move |d, s| e(run(Message::unpack(&p, d, s, &o)), |x| x.0.id)) }
    }
}
fn fresh() -> (Dids, Secs) { askar_crypto::model::st().draws = 0; (Dids::new(all_docs()), Secs::new(all_secrets())) }
/// the operation works with resolvers that answer; then any one DID resolver call fails, with any kind
pub fn did_faults() {
    let op = operation(sym::ident(1));
    let (d, s) = fresh();
    match op(&d, &s) { Ok(_) => (), Err(k) => { sym::obs(kcode(k)); sym::fail(1); return; } }
    let n = d.calls.get();
    if n == 0 { sym::reach(1); return; }
    let (mut d, s) = fresh();
    d.fail_at = sym::choice(n) + 1;
    d.kind = kind(sym::choice(sym::by_tier(3, 9)));
    match op(&d, &s) { Ok(_) => sym::fail(2), Err(k) => { sym::obs(kcode(k)); sym::check(k == d.kind, 3); sym::check(d.calls.get() == d.fail_at, 4); sym::reach(2); } }
}
/// any one DID does not resolve
pub fn did_missing() {
    let op = operation(sym::ident(1));
    let (d, s) = fresh();
    if op(&d, &s).is_err() { sym::fail(11); return; }
    let n = d.calls.get();
    if n == 0 { return; }
    let (mut d, s) = fresh();
    d.none_at = sym::choice(n) + 1;
    match op(&d, &s) { Ok(_) => sym::fail(12), Err(k) => { sym::obs(kcode(k)); sym::check(k == ErrorKind::DIDNotResolved, 13); sym::reach(1); } }
}
/// any one secrets resolver call fails, with any kind
pub fn secret_faults() {
    let op = operation(sym::ident(1));
    let (d, s) = fresh();
    if op(&d, &s).is_err() { sym::fail(21); return; }
    let n = s.calls.get();
    if n == 0 { sym::reach(1); return; }
    let (d, mut s) = fresh();
    s.fail_at = sym::choice(n) + 1;
    s.kind = kind(sym::choice(sym::by_tier(3, 9)));
    match op(&d, &s) { Ok(_) => sym::fail(22), Err(k) => { sym::obs(kcode(k)); sym::check(k == s.kind, 23); sym::check(s.calls.get() == s.fail_at, 24); sym::reach(2); } }
}
/// a wallet that lacks the needed secrets, wholly, or of which only the lookup by id fails to give what the search promised
pub fn secret_missing() {
    let c = sym::ident(1);
    let m = msg(&c, false);
    let (d, s) = fresh();
    let drop = |p: &str| -> Vec<didcomm::secrets::Secret> { all_secrets().into_iter().filter(|x| !x.id.starts_with(p)).collect() };
    let k = sym::choice(6);
    let r: std::result::Result<String, ErrorKind> = match k {
        0 => e(run(m.pack_signed(if sym::flip() { "did:x:a" } else { "did:x:a#s" }, &d, &Secs::new(drop("did:x:a#s")))), |x| x.0),
        1 => e(run(m.pack_encrypted("did:x:b", Some(if sym::flip() { "did:x:a" } else { "did:x:a#k" }), None, &d, &Secs::new(drop("did:x:a#k")), &opts(false))), |x| x.0),
        2 => e(run(m.pack_encrypted("did:x:b", if sym::flip() { Some("did:x:a") } else { None }, Some(if sym::flip() { "did:x:a" } else { "did:x:a#s" }), &d, &Secs::new(drop("did:x:a#s")), &opts(false))), |x| x.0),
        3 => e(run(FromPrior::build("did:x:p".into(), "did:x:a".into()).finalize().pack(if sym::flip() { None } else { Some("did:x:p#s") }, &d, &Secs::new(drop("did:x:p")))), |x| x.0),
        4 => { let p = packed(2 + sym::choice(4), &m); e(run(Message::unpack(&p, &d, &Secs::new(drop("did:x:b")), &UnpackOptions::default())), |x| x.0.id) }
        _ => { let p = packed(2 + sym::choice(4), &m); let o = UnpackOptions { expect_decrypt_by_all_keys: sym::flip(), unwrap_re_wrapping_forward: true }; let w = Liar { s, gone: sym::choice(2) }; match run(Message::unpack(&p, &d, &w, &o)) { Ok((x, _)) => { sym::check(x == m && w.gone == 1 && !o.expect_decrypt_by_all_keys, 31); return; } Err(k) => { sym::check(k.kind() == ErrorKind::InvalidState, 32); sym::reach(2); return; } } }
    };
    match r { Ok(_) => sym::fail(33), Err(k) => { sym::obs(kcode(k)); sym::check(k == ErrorKind::SecretNotFound, 34); sym::reach(1); } }
}
/// answers that a secret exists but does not hand it out: key 1 or 2 of did:x:b
struct Liar { s: Secs, gone: u32 }
#[async_trait::async_trait(?Send)]
impl didcomm::secrets::SecretsResolver for Liar {
    async fn get_secret(&self, id: &str) -> Result<Option<didcomm::secrets::Secret>> { if id == ["did:x:b#1", "did:x:b#2"][self.gone as usize] { Ok(None) } else { self.s.get_secret(id).await } }
    async fn find_secrets<'a>(&self, ids: &'a [&'a str]) -> Result<Vec<&'a str>> { self.s.find_secrets(ids).await }
}
