use crate::{craft::*, fix::*, sym};
use didcomm::algorithms::*;
use didcomm::*;
use serde_json::{json, Value};

fn sign_alg(t: Kt) -> SignAlg { match t { Kt::Ed => SignAlg::EdDSA, Kt::P => SignAlg::ES256, _ => SignAlg::ES256K } }

pub struct Cfg { pub t: Kt, pub from: u32, pub sign: u32, pub protect: bool, pub alg: u32, pub n: u32, pub to_kid: Option<usize>, pub held: u32 }

/// pack with the configuration, check what packing reports, unpack with each held key, check message and metadata
fn trip(c: &Cfg, m: &Message) {
    let st = kt(c.sign.wrapping_add(1) & 3); // 1 Ed, 2 K, 3/.. chosen below
    let st = match c.sign { 1 => Kt::Ed, 2 => Kt::P, 3 => Kt::K, _ => st };
    let a = Who::new("did:x:a").ka("k", c.t, 1).auth("s", st, 2);
    let mut b = Who::new("did:x:b").ka("1", c.t, 3);
    if c.n > 1 { b = b.ka("2", c.t, 4); }
    if c.n > 2 { b = b.ka("3", c.t, 5); }
    if c.n > 3 { b = b.ka("4", c.t, 6); }
    let d = Dids::new(vec![a.doc(), b.doc()]);
    let sa = Secs::new(a.secrets());
    let kids: Vec<String> = match c.to_kid { Some(i) => vec![b.ka[i].0.clone()], None => b.ka.iter().map(|k| k.0.clone()).collect() };
    // held: bit set over kids
    let held: Vec<_> = b.ka.iter().enumerate().filter(|(i, _)| c.held & (1 << i) != 0).map(|(_, k)| secret(&k.0, k.1, k.2)).collect();
    let sb = Secs::new(held);
    let to = if c.to_kid.is_some() { kids[0].as_str() } else { "did:x:b" };
    let from = match c.from { 0 => None, 1 => Some("did:x:a"), _ => Some("did:x:a#k") };
    let sign = match c.sign { 0 => None, _ => Some(if c.from == 2 { "did:x:a#s" } else { "did:x:a" }) };
    let o = PackEncryptedOptions { protect_sender: c.protect, forward: true, forward_headers: None, messaging_service: None, enc_alg_auth: AuthCryptAlg::A256cbcHs512Ecdh1puA256kw, enc_alg_anon: anon_alg(c.alg) };
    let (p, md) = match run(m.pack_encrypted(to, from, sign, &d, &sa, &o)) { Ok(x) => x, Err(e) => { sym::obs(kcode(e.kind())); sym::fail(1); return; } };
    sym::check(md.messaging_service.is_none(), 2);
    sym::check(md.from_kid.as_deref() == from.map(|_| "did:x:a#k"), 3);
    sym::check(md.sign_by_kid.as_deref() == sign.map(|_| "did:x:a#s"), 4);
    sym::check(md.to_kids == kids, 5);
    let u = match run(Message::unpack(&p, &d, &sb, &UnpackOptions::default())) { Ok(x) => x, Err(e) => { sym::obs(kcode(e.kind())); sym::fail(6); return; } };
    sym::check(u.0 == *m, 7);
    let anon = from.is_none() || c.protect;
    let e = UnpackMetadata {
        encrypted: true, authenticated: from.is_some() || sign.is_some(), non_repudiation: sign.is_some(), anonymous_sender: anon, re_wrapped_in_forward: false,
        encrypted_from_kid: from.map(|_| "did:x:a#k".into()), encrypted_to_kids: Some(kids), sign_from: sign.map(|_| "did:x:a#s".into()), from_prior_issuer_kid: None,
        enc_alg_auth: from.map(|_| AuthCryptAlg::A256cbcHs512Ecdh1puA256kw), enc_alg_anon: if anon { Some(anon_alg(c.alg)) } else { None },
        sign_alg: sign.map(|_| sign_alg(st)), signed_message: u.1.signed_message.clone(), from_prior: None,
    };
    sym::check(u.1 == e, 8);
    match &u.1.signed_message {
        None => sym::check(sign.is_none(), 9),
        Some(s) => {
            sym::check(sign.is_some(), 10);
            // the carried JWS is a valid signature of the signer over the message
            match Jws::read(s) {
                Some(j) => {
                    let mut inp = j.sigs[0].1.clone(); inp.push('.'); inp.push_str(&j.payload);
                    sym::check(j.sigs.len() == 1 && raw_verify(st, 2, sig_alg(st).1, inp.as_bytes(), &unb64(&j.sigs[0].2)), 11);
                }
                None => sym::fail(12),
            }
        }
    }
    sym::obs_bytes(p.as_bytes());
    sym::reach(1 + c.from);
    sym::reach(10 + c.sign);
    if c.protect { sym::reach(20); }
}

/// every packing configuration, up to 3 (thorough 4) recipient keys addressed all or singly and held all or singly; body and custom header of one symbolic character
pub fn configs() {
    let from = sym::choice(3);
    let protect = from != 0 && sym::flip();
    let alg = if from == 0 || protect { sym::choice(3) } else { 0 };
    let sign = sym::choice(4);
    let t = kt(sym::choice(2));
    // the recipient's keys, addressed all or one of them, of which the wallet holds one, or all
    let n = 1 + sym::choice(sym::by_tier(3, 4));
    let to_kid = if sym::flip() { Some(sym::choice(n) as usize) } else { None };
    let held = match to_kid { Some(i) => 1 << i, None => { let h = sym::choice(n + 1); if h == n { (1 << n) - 1 } else { 1 << h } } };
    let s = sym::ident(1);
    let mut b = Message::build("i".into(), "t".into(), Value::String(s));
    if sign != 1 { b = b.to("did:x:b".into()); }
    if sign != 2 { b = b.from("did:x:a".into()); }
    trip(&Cfg { t, from, sign, protect, alg, n, to_kid, held }, &b.finalize());
}

/// arbitrary text in the body, id and a header, for the four envelope kinds
pub fn content() {
    let k = sym::choice(4);
    let n = sym::by_tier(2, 3) as usize;
    let s = sym::utf8(n);
    let m = match sym::choice(3) {
        0 => Message::build("i".into(), "t".into(), Value::String(s)).finalize(),
        1 => Message::build(s, "t".into(), Value::Null).finalize(),
        _ => { let mut m = serde_json::Map::new(); m.insert("a".into(), Value::String(s)); Message::build("i".into(), "t".into(), Value::Object(m)).header("h".into(), json!(["x", 1])).thid("q".into()).finalize() }
    };
    let c = match k { 0 => (0, 0, false), 1 => (1, 0, false), 2 => (1, 1, true), _ => (0, 1, false) };
    trip(&Cfg { t: Kt::X, from: c.0, sign: c.1, protect: c.2, alg: 1, n: 1, to_kid: None, held: 1 }, &m);
}

/// numbers of any value in the time headers and a body of any length up to the bound, across cipher block boundaries
pub fn sizes() {
    let n = sym::choice(sym::by_tier(36, 80)) as usize;
    let mut s = String::new();
    for _ in 0..n { s.push('w'); }
    s.push_str(&sym::ident(1));
    let m = Message::build("i".into(), "t".into(), Value::String(s)).created_time(n as u64).finalize();
    let k = sym::choice(4);
    let c = match k { 0 => (0, 0, false, 0), 1 => (0, 0, false, 1), 2 => (0, 0, false, 2), _ => (1, 0, true, 0) };
    trip(&Cfg { t: if k == 1 { Kt::P } else { Kt::X }, from: c.0, sign: c.1, protect: c.2, alg: c.3, n: 1, to_kid: None, held: 1 }, &m);
}
