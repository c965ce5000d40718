use crate::{craft::*, fix::*, gen, sym};
use didcomm::did::*;
use didcomm::*;
use serde_json::Value;

fn unpack(j: &str, d: &Dids, s: &Secs) -> std::result::Result<(Message, UnpackMetadata), u64> { run(Message::unpack(j, d, s, &UnpackOptions::default())).map_err(|e| kcode(e.kind())) }
fn ok(md: &UnpackMetadata, kid: &str) -> bool { md.encrypted_from_kid.as_deref() == Some(kid) && md.authenticated && md.encrypted && !md.non_repudiation && !md.anonymous_sender && md.sign_from.is_none() }

/// which (document, stated sender, real sender key, recipient key) combinations are accepted
pub fn keys() {
    let t = kt(sym::choice(2));
    let o = if t == Kt::X { Kt::P } else { Kt::X };
    let listed = sym::choice(6); // 0 keyAgreement; 1 authentication only; 2 keyAgreement without method; 3 method of the other curve; 4 no relationship at all; 5 method of a signing type
    let mut doc = DIDDoc { id: "did:x:a".into(), key_agreement: vec!["did:x:a#2".into()], authentication: vec![], verification_method: vec![vm("did:x:a#2", t, 3)], service: vec![] };
    match listed { 0 | 2 | 3 | 5 => doc.key_agreement.insert(sym::choice(2) as usize, "did:x:a#1".into()), 1 => doc.authentication.push("did:x:a#1".into()), _ => {} }
    match listed { 2 => {} 3 => doc.verification_method.insert(0, vm("did:x:a#1", o, 1)), 5 => doc.verification_method.push(vm("did:x:a#1", Kt::Ed, 1)), _ => doc.verification_method.insert(sym::choice(2) as usize, vm("did:x:a#1", t, 1)) }
    let b = Who::new("did:x:b").ka("1", t, 5).ka("2", t, 6);
    let mal = Who::new("did:x:m").ka("1", t, 9);
    let d = Dids::new(vec![doc, b.doc(), mal.doc()]);
    let s = Secs::new(vec![secret("did:x:b#1", if sym::flip() { t } else { o }, 5)]);
    let right_secret = match &s.secrets[0].secret_material { didcomm::secrets::SecretMaterial::JWK { private_key_jwk } => private_key_jwk["crv"] == if t == Kt::X { "X25519" } else { "P-256" }, _ => false };
    let kid = match sym::choice(6) { 0 => "did:x:a#1", 1 => "did:x:a#2", 2 => "did:x:m#1", 3 => "did:x:a", 4 => "did:x:n#1", _ => "did:x:a#3" };
    let seed = match sym::choice(3) { 0 => 1u8, 1 => 3, _ => 9 };
    let e = Enc::new(t, Ce::Cbc, &[("did:x:b#1", 5), ("did:x:b#2", 6)]).from(kid, seed);
    let p = e.pack(plain("1").as_bytes());
    let good = right_secret && match kid { "did:x:a#1" => listed == 0 && seed == 1, "did:x:a#2" => seed == 3, "did:x:m#1" => seed == 9, _ => false };
    match unpack(&p, &d, &s) {
        Ok((m, md)) => { sym::check(good, 10); sym::check(ok(&md, kid), 11); sym::check(m.body == Value::from(1), 12); sym::reach(1); }
        Err(k) => { sym::obs(k); sym::check(!good, 13); sym::reach(2); }
    }
}

/// apu and skid with any characters, present or not, agreeing or not; the envelope is otherwise honest for what it states
pub fn stated() {
    let t = kt(sym::choice(2));
    let a = Who::new("did:x:a").ka("1", t, 1).ka("2", t, 2);
    let b = Who::new("did:x:b").ka("1", t, 5);
    let d = Dids::new(vec![a.doc(), b.doc()]);
    let s = Secs::new(b.secrets());
    let kid = "did:x:a#1";
    let mut e = Enc::new(t, Ce::Cbc, &[("did:x:b#1", 5)]).from(kid, 1);
    let n = sym::by_tier(1, 2) as usize;
    let window = |raw: bool| -> Vec<u8> {
        let q = sym::choice(10) as usize;
        let k = kid.as_bytes();
        let c = if raw { sym::vec(n) } else { sym::ident(n).into_bytes() };
        let mut v = k[..q.min(k.len())].to_vec();
        v.extend_from_slice(&c);
        if q + n <= k.len() { v.extend_from_slice(&k[q + n..]); }
        v
    };
    let apu: Option<Vec<u8>> = match sym::choice(5) { 0 => Some(kid.into()), 1 => None, 2 => Some(vec![]), 3 => Some(b"did:x:a#2".to_vec()), _ => Some(window(true)) };
    let skid: Option<Vec<u8>> = match sym::choice(5) { 0 => Some(kid.into()), 1 => None, 2 => Some(vec![]), 3 => Some(b"did:x:a#2".to_vec()), _ => Some(window(false)) };
    e.h_apu = Some(apu.clone());
    e.h_skid = Some(skid.clone().map(|v| unsafe { String::from_utf8_unchecked(v) }));
    let p = e.pack(plain("1").as_bytes());
    let good = apu.as_deref() == Some(kid.as_bytes()) && (skid.is_none() || skid == apu);
    match unpack(&p, &d, &s) {
        Ok((_, md)) => { sym::check(good, 20); sym::check(ok(&md, kid), 21); sym::reach(1); if skid.is_none() { sym::reach(3); } }
        Err(k) => { sym::obs(k); sym::check(!good, 22); sym::reach(2); }
    }
}

/// an anonymous envelope never yields an authenticated sender, whatever its sender headers say; an ECDH-1PU name over anonymous keys is not accepted
pub fn claimed() {
    let t = kt(sym::choice(2));
    let a = Who::new("did:x:a").ka("1", t, 1);
    let b = Who::new("did:x:b").ka("1", t, 5);
    let d = Dids::new(vec![a.doc(), b.doc()]);
    let s = Secs::new(b.secrets());
    let mut e = Enc::new(t, ce(sym::choice(3)), &[("did:x:b#1", 5)]);
    e.h_skid = Some(sym::opt(|| String::from("did:x:a#1")));
    e.h_apu = Some(match sym::choice(3) { 0 => None, 1 => Some(b"did:x:a#1".to_vec()), _ => Some(sym::vec(1)) });
    let pu = sym::flip();
    if pu { e.h_alg = Some(PU.into()); }
    if sym::flip() { e.kdf_alg = Some(ES.into()); }
    let p = e.pack(plain("1").as_bytes());
    match unpack(&p, &d, &s) {
        Ok((_, md)) => { sym::check(!pu, 30); sym::check(!md.authenticated && md.encrypted_from_kid.is_none() && md.anonymous_sender, 31); sym::reach(1); }
        Err(k) => { sym::obs(k); sym::reach(2); }
    }
}

/// every recipient key and every sender key of the documents: only the real pair opens it
pub fn pairs() {
    let t = kt(sym::choice(2));
    let a = Who::new("did:x:a").ka("1", t, 1).ka("2", t, 2);
    let b = Who::new("did:x:b").ka("1", t, 5).ka("2", t, 6).ka("3", t, 7);
    let d = Dids::new(vec![a.doc(), b.doc()]);
    let (sk_, rk) = (sym::choice(2), sym::choice(3));
    let e = Enc::new(t, Ce::Cbc, &[("did:x:b#1", 5), ("did:x:b#2", 6), ("did:x:b#3", 7)]).from(&a.ka[sk_ as usize].0, a.ka[sk_ as usize].2);
    let mut j = e.parts(plain("1").as_bytes());
    // recipient secret filed under a chosen id; encrypted keys optionally permuted
    let under = sym::choice(3);
    let s = Secs::new(vec![secret(&b.ka[under as usize].0, t, b.ka[rk as usize].2)]);
    let sw = sym::choice(3);
    if sw > 0 { let x = j.recipients[0].1.clone(); j.recipients[0].1 = j.recipients[sw as usize].1.clone(); j.recipients[sw as usize].1 = x; }
    // the entry read for the filed id was made for which key?
    let made_for = match sw { 0 => under, s => if under == 0 { s } else if under == s { 0 } else { under } };
    let good = made_for == rk;
    match unpack(&j.json(), &d, &s) {
        Ok((_, md)) => { sym::check(good, 40); sym::check(ok(&md, &a.ka[sk_ as usize].0), 41); sym::reach(1); }
        Err(k) => { sym::obs(k); sym::check(!good, 42); sym::reach(2); }
    }
}
/// the sender's document has keys whose ids resemble each other: an envelope stating one opens only when made with that very key, listed
pub fn near() {
    let n = gen::Near::new("did:x:a");
    let t = kt(n.listed.len() as u32 % 2);
    let b = Who::new("did:x:b").ka("1", t, 5);
    let d = Dids::new(vec![n.doc(true, t), b.doc()]);
    let i = n.any(); let k = n.other(i);
    let p = Enc::new(t, Ce::Cbc, &[("did:x:b#1", 5)]).from(&n.ids[i], 10 + k as u8).pack(plain("1").as_bytes());
    let good = i == k && n.own(i) && n.listed.contains(&n.ids[i]);
    match unpack(&p, &d, &Secs::new(b.secrets())) {
        Ok((_, md)) => { sym::check(good, 50); sym::check(ok(&md, &n.ids[i]), 51); sym::reach(1); }
        Err(k) => { sym::obs(k); sym::check(!good, 52); sym::reach(2); }
    }
}
