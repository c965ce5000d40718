use crate::{craft::*, fix::*, gen, sym};
use didcomm::algorithms::*;
use didcomm::*;

fn off() -> UnpackMetadata {
    UnpackMetadata { encrypted: false, authenticated: false, non_repudiation: false, anonymous_sender: false, re_wrapped_in_forward: false, encrypted_from_kid: None, encrypted_to_kids: None, sign_from: None,
        from_prior_issuer_kid: None, enc_alg_auth: None, enc_alg_anon: None, sign_alg: None, signed_message: None, from_prior: None }
}
fn plain_trip(m: &Message) {
    let d = Dids::new(vec![]); let s = Secs::new(vec![]);
    let p = match run(m.pack_plaintext(&d)) { Ok(p) => p, Err(_) => { sym::fail(1); return; } };
    sym::check(d.calls.get() == 0, 2);
    match run(Message::unpack(&p, &d, &s, &UnpackOptions::default())) {
        Ok((u, md)) => { sym::check(u == *m, 3); sym::check(md == off(), 4); sym::reach(1); }
        Err(e) => { sym::obs(kcode(e.kind())); sym::fail(5) }
    }
    sym::obs_bytes(p.as_bytes());
}
fn signed_trip(m: &Message, t: Kt, by_kid: bool, sign_by_second: bool) {
    let mut a = Who::new("did:x:a");
    if sign_by_second { a = a.auth("z", t, 7); }
    let a = a.auth("s", t, 2).ka("k", Kt::X, 1);
    let d = Dids::new(vec![a.doc()]);
    let held = if sign_by_second { a.secrets().into_iter().filter(|x| x.id != "did:x:a#z").collect() } else { a.secrets() };
    let s = Secs::new(held); let none = Secs::new(vec![]);
    let sb = if by_kid { "did:x:a#s" } else { "did:x:a" };
    let (p, md) = match run(m.pack_signed(sb, &d, &s)) { Ok(p) => p, Err(e) => { sym::obs(kcode(e.kind())); sym::fail(10); return; } };
    sym::check(md.sign_by_kid == "did:x:a#s", 11);
    let ea = match t { Kt::Ed => SignAlg::EdDSA, Kt::P => SignAlg::ES256, _ => SignAlg::ES256K };
    match run(Message::unpack(&p, &d, &none, &UnpackOptions::default())) {
        Ok((u, md)) => {
            sym::check(u == *m, 12);
            let e = UnpackMetadata { authenticated: true, non_repudiation: true, sign_from: Some("did:x:a#s".into()), sign_alg: Some(ea), signed_message: Some(p.clone()), ..off() };
            sym::check(md == e, 13);
            sym::reach(2);
        }
        Err(e) => { sym::obs(kcode(e.kind())); sym::fail(14) }
    }
    // independent reading of the produced JWS
    match Jws::read(&p) {
        Some(j) => {
            sym::check(j.sigs.len() == 1 && j.sigs[0].0 == "did:x:a#s", 15);
            let mut inp = j.sigs[0].1.clone(); inp.push('.'); inp.push_str(&j.payload);
            sym::check(raw_verify(t, 2, sig_alg(t).1, inp.as_bytes(), &unb64(&j.sigs[0].2)), 16);
            let h: serde_json::Value = serde_json::from_slice(&unb64(&j.sigs[0].1)).unwrap_or_default();
            sym::check(h.get("alg").and_then(|x| x.as_str()) == Some(sig_alg(t).0) && h.get("typ").and_then(|x| x.as_str()) == Some("application/didcomm-signed+json"), 17);
        }
        None => sym::fail(18),
    }
    sym::obs_bytes(p.as_bytes());
}

/// every subset of the optional headers, plaintext
pub fn headers() {
    let mut mask = 0; for i in 0..10 { if sym::flip() { mask |= 1 << i; } }
    let s = sym::ident(1);
    let n = sym::byte() as u64;
    plain_trip(&gen::message(mask, &s, n));
}
/// arbitrary text in one field, bodies of every JSON kind, numbers near the integer limits
pub fn content() {
    let k = sym::choice(5);
    let m = match k {
        0 => { let s = sym::utf8(sym::by_tier(2, 3)); gen::message(0, &s, 0) }
        1 => { let s = sym::ident(1); let n = gen::num(); let mut m = gen::message(sym::choice(4) << 6, &s, 0); m.created_time = m.created_time.map(|_| n); m.expires_time = m.expires_time.map(|_| n); m }
        2 => { let s = sym::utf8(1); let n = sym::byte() as u64; let mut m = gen::message(3, "", 0); m.body = gen::body(&s, n); m }
        3 => { let s = sym::utf8(2); let mut m = gen::message(0, "", 0); m.thid = Some(s.clone()); m.extra_headers.insert("q".into(), gen::body(&s, 5)); m }
        _ => { let s = sym::utf8(1); let n = sym::byte() as u64; let mut m = gen::message(0, "", 0); m.attachments = Some(vec![gen::attachment(sym::choice(3), if sym::flip() { 255 } else { 0 }, &s, n)]); m }
    };
    plain_trip(&m);
    sym::reach(10 + k);
}
/// any two members each empty, of one symbolic value or of several, the values independent; plain and signed
pub fn edges() {
    let mut m = Message::build("i".into(), "t".into(), serde_json::Value::Null).finalize();
    let f = sym::choice(11); let g = sym::choice(11);
    sym::assume(f < g);
    let (v, w) = (sym::choice(3), sym::choice(3));
    gen::edge(&mut m, f, v); gen::edge(&mut m, g, w);
    if sym::flip() { plain_trip(&m); } else { signed_trip(&m, Kt::Ed, false, false); }
}
/// signed: key types, sign_by forms, header subsets
pub fn signed() {
    let t = match sym::choice(3) { 0 => Kt::Ed, 1 => Kt::P, _ => Kt::K };
    let by = sym::flip(); let second = sym::flip();
    let s = sym::ident(1); let n = sym::byte() as u64;
    let mask = match sym::choice(sym::by_tier(12, 13)) { 10 => 0, 11 => 1023, 12 => { let mut m = 0; for i in 0..10 { if sym::flip() { m |= 1 << i; } } m } i => 1 << i };
    signed_trip(&gen::message(mask, &s, n), t, by, second);
    sym::reach(20 + t as u32);
}
/// signed: arbitrary text
pub fn signed_text() {
    let s = sym::utf8(sym::by_tier(2, 3));
    let k = sym::choice(3);
    let mut m = gen::message(0, "", 0);
    match k { 0 => m.id = s, 1 => m.body = serde_json::Value::String(s), _ => { m.extra_headers.insert("q".into(), serde_json::json!({ "a": s })); } }
    signed_trip(&m, Kt::Ed, k == 1, false);
}
