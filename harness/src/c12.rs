use crate::{craft::*, fix::*, sym};
use askar_crypto::model;
use didcomm::did::*;
use didcomm::*;
use serde_json::{json, Value};

const MED: [&str; 2] = ["did:x:m#1", "did:x:q#1"];
/// sender `a`, recipient `b` with a service that routes through `hops` mediators
fn world(a: &str, b: &str, t: Kt, hops: usize) -> (Dids, Secs) {
    let s = Who::new(a).ka("k", t, 1).auth("s", Kt::Ed, 2);
    let mut r = Who::new(b).ka("1", t, 3).ka("2", t, 4);
    if hops > 0 { r = r.svc(svc("s", "http://x", None, &MED[..hops])); }
    let m = Who::new("did:x:m").ka("1", Kt::X, 8); let q = Who::new("did:x:q").ka("1", Kt::P, 9);
    (Dids::new(vec![s.doc(), r.doc(), m.doc(), q.doc()]), Secs::new(s.secrets()))
}
fn msg(id: &str, b: &str, from: Option<&str>) -> Message {
    let mut m = Message::build(id.into(), "t".into(), json!({ "k": b, "o": [b, id] })).to("did:x:b".into()).thid(b.into()).attachment(Attachment::base64(b.into()).finalize());
    if let Some(f) = from { m = m.from(f.into()); }
    m.finalize()
}
/// `form`: recipient (1), sender (2) named by key id, both (3), all and the signer too (4)
struct Cfg { t: Kt, auth: bool, sign: bool, o: PackEncryptedOptions, hops: usize, form: u32 }
impl Cfg {
    fn to(&self, b: &str) -> String { if self.form & 1 != 0 || self.form == 4 { format_id(b, "2") } else { b.to_string() } }
    fn from(&self, a: &str) -> Option<String> { if !self.auth { None } else if self.form >= 2 { Some(format_id(a, "k")) } else { Some(a.to_string()) } }
    fn signer(&self, a: &str) -> Option<String> { if !self.sign { None } else if self.form == 4 { Some(format_id(a, "s")) } else { Some(a.to_string()) } }
}
fn cfg(protect_only: bool) -> Cfg {
    let hops = sym::choice(3) as usize;
    let auth = sym::flip();
    let protect = protect_only || sym::flip();
    Cfg { t: if sym::flip() { Kt::P } else { Kt::X }, auth, sign: sym::flip(), o: PackEncryptedOptions { protect_sender: protect, enc_alg_anon: anon_alg(sym::choice(3)), ..opts(hops > 0) }, hops, form: if hops < 2 { [0, 1, 2, 4][sym::choice(4) as usize] } else { 0 } }
}
fn pack(c: &Cfg, a: &str, b: &str, m: &Message) -> Option<String> {
    model::reset();
    let (d, s) = world(a, b, c.t, c.hops);
    match run(m.pack_encrypted(&c.to(b), c.from(a).as_deref(), c.signer(a).as_deref(), &d, &s, &c.o)) { Ok(x) => Some(x.0), Err(e) => { sym::obs(kcode(e.kind())); sym::fail(1); None } }
}
fn same(x: Option<String>, y: Option<String>, code: u32) {
    match (x, y) { (Some(x), Some(y)) => { sym::obs(x.len() as u64); sym::check(x.len() == y.len(), code); sym::check(x == y, code + 1); sym::reach(1); } _ => {} }
}
/// two runs with the same keys and randomness over any two messages of one length: everything a third party sees is the same
pub fn content() {
    let c = cfg(false);
    let n = sym::by_tier(2, 4);
    let (i1, b1) = (sym::ident(1), sym::ident(n)); let (i2, b2) = (sym::ident(1), sym::ident(n));
    let p1 = pack(&c, "did:x:a", "did:x:b", &msg(&i1, &b1, None));
    let p2 = pack(&c, "did:x:a", "did:x:b", &msg(&i2, &b2, None));
    same(p1, p2, 10);
    if c.hops > 0 { sym::reach(2); }
}
/// two runs with different senders and signers: an anonymous or sender-protected envelope is the same for both
pub fn sender() {
    let c = cfg(true);
    let b = sym::ident(1);
    let with_from = sym::flip();
    let p1 = pack(&c, "did:x:a", "did:x:b", &msg("i", &b, if with_from { Some("did:x:a") } else { None }));
    let p2 = pack(&c, "did:x:z", "did:x:b", &msg("i", &b, if with_from { Some("did:x:z") } else { None }));
    same(p1, p2, 20);
    if c.auth { sym::reach(3); }
    if c.sign { sym::reach(4); }
}
/// two runs with different recipients behind the same mediators: the outermost layer is the same for both
pub fn recipient() {
    let mut c = cfg(false);
    c.hops = 1 + sym::choice(2) as usize; c.o.forward = true;
    let b = sym::ident(1);
    let m = Message::build("i".into(), "t".into(), json!({ "b": b })).finalize();
    let p1 = pack(&c, "did:x:a", "did:x:b", &m);
    let p2 = pack(&c, if c.auth { "did:x:z" } else { "did:x:a" }, "did:x:c", &m);
    same(p1, p2, 30);
}
fn visible(p: &str) -> Vec<Vec<u8>> {
    let mut v = vec![p.as_bytes().to_vec()];
    if let Some(j) = Jwe::read(p) {
        for f in [&j.protected, &j.iv, &j.ciphertext, &j.tag] { v.push(unb64(f)); }
        for r in &j.recipients { v.push(unb64(&r.1)); v.push(r.0.clone().into_bytes()); }
        if let Some(Value::Object(h)) = j.header() { for (_, x) in h.iter() { if let Some(s) = x.as_str() { v.push(unb64(s)); } if let Some(e) = x.as_object() { for (_, y) in e.iter() { if let Some(s) = y.as_str() { v.push(unb64(s)); } } } } }
    }
    v
}
fn holds(h: &[u8], n: &[u8]) -> bool { n.len() <= h.len() && (0..=h.len() - n.len()).any(|i| &h[i..i + n.len()] == n) }
/// keys are fresh for every envelope, never shown, and no key-nonce pair is used twice
pub fn keys() {
    let c = cfg(false);
    model::reset();
    let (d, s) = world("did:x:a", "did:x:b", c.t, c.hops);
    let mut vis: Vec<Vec<u8>> = vec![];
    let mut packed = vec![];
    for k in 0..2 {
        let m = msg(if k == 0 { "i" } else { "j" }, "b", None);
        match run(m.pack_encrypted(&c.to("did:x:b"), c.from("did:x:a").as_deref(), c.signer("did:x:a").as_deref(), &d, &s, &c.o)) { Ok(x) => { vis.extend(visible(&x.0)); packed.push(x.0); } Err(e) => { sym::obs(kcode(e.kind())); sym::fail(40); return; } }
    }
    let outer = vis.len();
    let st = model::st();
    // layers inside ciphertexts are as visible to whoever opens them
    for e in st.sealed.iter() { if !e.nonce.is_empty() { if let Ok(t) = std::str::from_utf8(&e.pt) { if t.starts_with("{\"ciphertext") || t.starts_with("{\"protected") { vis.extend(visible(t)); packed.push(t.to_string()); } } } }
    sym::check(model::nonce_reuse() == 0, 41);
    let mut n = 0;
    for (i, e) in st.sealed.iter().enumerate() {
        if e.nonce.is_empty() { continue; }
        n += 1;
        sym::check(st.drawn.iter().any(|x| x.1 == e.key), 42);
        sym::check(st.drawn.iter().any(|x| x.1 == e.nonce), 43);
        for f in st.sealed[..i].iter() { if !f.nonce.is_empty() { sym::check(f.key != e.key, 44); } }
        for v in &vis { sym::check(!holds(v, &e.key), 45); }
        for v in &vis[..outer] { sym::check(e.pt.len() < 8 || !holds(v, &e.pt), 46); }
    }
    for e in st.sealed.iter() { if e.nonce.is_empty() { for v in &vis { sym::check(!holds(v, &e.key), 47); } } }
    // ephemeral private keys
    for (class, x) in st.drawn.iter() { if *class != 0x6e { for v in &vis { sym::check(!holds(v, x), 48); } } }
    sym::check(n >= packed.len(), 49);
    let mut epks: Vec<String> = vec![];
    for p in &packed { if let Some(h) = Jwe::read(p).and_then(|j| j.header()) { let x = h["epk"]["x"].as_str().unwrap_or("").to_string(); sym::check(!x.is_empty() && !epks.contains(&x), 50); epks.push(x); sym::check(h["epk"].get("d").is_none(), 51); } }
    // own long-term keys
    for k in [1u8, 2, 3, 4] { for v in &vis { sym::check(!holds(v, &sk(k)), 52); } }
    sym::obs(n as u64);
    sym::reach(1);
}
/// the sender is readable neither from an anonymous nor from a sender-protected envelope, whatever its DID
pub fn name() {
    let c = cfg(true);
    let f = { let a = sym::ident(1); let b = sym::ident(1); [a, b].concat() };
    sym::assume(!f.contains('#') && !f.contains('"'));
    let did = ["did:y:", f.as_str()].concat();
    model::reset();
    let (mut d, s) = world("did:x:a", "did:x:b", c.t, c.hops);
    let w = Who::new(&did).ka("k", c.t, 1).auth("s", Kt::Ed, 2);
    d.docs.push(w.doc());
    let s = Secs { secrets: w.secrets(), ..s };
    let m = Message::build("i".into(), "t".into(), Value::Null).from(did.clone()).finalize();
    match run(m.pack_encrypted(&c.to("did:x:b"), c.from(&did).as_deref(), c.signer(&did).as_deref(), &d, &s, &c.o)) {
        Ok((p, _)) => { for v in visible(&p) { sym::check(!holds(&v, did.as_bytes()), 60); } sym::reach(1); }
        Err(e) => { sym::obs(kcode(e.kind())); sym::fail(61); }
    }
}
