use crate::{craft::*, fix::*, sym};
use askar_crypto::model;
use didcomm::secrets::*;
use didcomm::*;
use serde_json::{json, Value};

fn ty(i: u32) -> SecretType {
    use SecretType::*;
    match i { 0 => JsonWebKey2020, 1 => X25519KeyAgreementKey2019, 2 => Ed25519VerificationKey2018, 3 => X25519KeyAgreementKey2020, 4 => Ed25519VerificationKey2020, 5 => EcdsaSecp256k1VerificationKey2019, _ => Other }
}
fn b58(s: String) -> SecretMaterial { SecretMaterial::Base58 { private_key_base58: s } }
fn mb(s: String) -> SecretMaterial { SecretMaterial::Multibase { private_key_multibase: s } }
fn jk(v: Value) -> SecretMaterial { SecretMaterial::JWK { private_key_jwk: v } }
fn sec(id: &str, t: u32, m: SecretMaterial) -> Secret { Secret { id: id.into(), type_: ty(t), secret_material: m } }
fn enc58(b: &[u8]) -> String { bs58::encode(b).into_string() }
fn mbx(prefix: &[u8], b: &[u8]) -> String { ["z", enc58(&[prefix, b].concat()).as_str()].concat() }
const XP: [u8; 2] = [0x82, 0x26];
const EP: [u8; 2] = [0x80, 0x26];
fn dec58(s: &str) -> Option<Vec<u8>> { bs58::decode(s).into_vec().ok() }
fn a32(v: &[u8]) -> Option<[u8; 32]> { if v.len() != 32 { return None; } let mut a = [0; 32]; a.copy_from_slice(v); Some(a) }
fn xpub(d: &[u8; 32]) -> [u8; 32] { askar_crypto::alg::x25519::public_of(d) }
fn epub(d: &[u8; 32]) -> [u8; 32] { askar_crypto::alg::ed25519::public_of(d) }
/// the private key that the bytes denote: X25519 the scalar alone, Ed25519 the scalar followed by its public key
fn raw(v: &[u8], ed: bool) -> Option<[u8; 32]> { if !ed { return a32(v); } if v.len() != 64 { return None; } let d = a32(&v[..32])?; if v[32..] == epub(&d) { Some(d) } else { None } }
fn means58(s: &str, ed: bool) -> Option<[u8; 32]> { raw(&dec58(s)?, ed) }
fn means_mb(s: &str, ed: bool) -> Option<[u8; 32]> { if s.as_bytes().first() != Some(&b'z') { return None; } let v = dec58(&s[1..])?; if v.len() < 2 || v[..2] != if ed { EP } else { XP } { return None; } raw(&v[2..], ed) }
fn bytes_of(seed: u8, ed: bool) -> Vec<u8> { if ed { [sk(seed), pk(Kt::Ed, seed)].concat() } else { sk(seed).to_vec() } }

/// open an anonymous envelope addressed to public key `p` with this secret
fn opens(s: &Secret, p: &[u8; 32]) -> std::result::Result<(), u64> {
    use didcomm::did::*;
    model::reset();
    let v = VerificationMethod { id: s.id.clone(), type_: VerificationMethodType::JsonWebKey2020, controller: "c".into(), verification_material: VerificationMaterial::JWK { public_key_jwk: jwk_of(Kt::X, p, None) } };
    let d = Dids::new(vec![DIDDoc { id: "did:x:b".into(), key_agreement: vec![s.id.clone()], authentication: vec![], verification_method: vec![v], service: vec![] }]);
    let m = Message::build("i".into(), "t".into(), Value::from(1)).finalize();
    let q = match run(m.pack_encrypted("did:x:b", None, None, &d, &Secs::new(vec![]), &opts(false))) { Ok(x) => x.0, Err(e) => { sym::obs(kcode(e.kind())); sym::fail(1); return Err(0); } };
    match run(Message::unpack(&q, &d, &Secs::new(vec![s.clone()]), &UnpackOptions::default())) { Ok((x, _)) => { sym::check(x == m, 2); Ok(()) } Err(e) => Err(kcode(e.kind())) }
}
fn sign(s: &Secret) -> std::result::Result<String, u64> {
    use didcomm::did::*;
    let d = Dids::new(vec![DIDDoc { id: "did:x:b".into(), key_agreement: vec![], authentication: vec![s.id.clone()], verification_method: vec![vm(&s.id, Kt::Ed, 50)], service: vec![] }]);
    let m = Message::build("i".into(), "t".into(), Value::from(1)).finalize();
    run(m.pack_signed(&s.id, &d, &Secs::new(vec![s.clone()]))).map(|x| x.0).map_err(|e| kcode(e.kind()))
}
fn is_x(s: Secret, want: Option<[u8; 32]>) {
    let o = opens(&s, &pk(Kt::X, 77));
    match want {
        Some(d) => { match opens(&s, &xpub(&d)) { Ok(()) => sym::reach(1), Err(c) => { sym::obs(c); sym::fail(3); } } sym::check(o.is_err() || d == sk(77), 4); }
        None => { sym::check(o.is_err(), 5); match opens(&s, &pk(Kt::X, 3)) { Ok(()) => sym::fail(6), Err(c) => { sym::obs(c); sym::reach(2); } } }
    }
}
fn is_ed(s: Secret, want: Option<[u8; 32]>) {
    match (sign(&s), want) {
        (Ok(p), Some(d)) => {
            // the signature an explicit key makes
            match sign(&sec(&s.id, 0, jk(jwk_of(Kt::Ed, &epub(&d), Some(d))))) { Ok(q) => sym::check(p == q, 11), Err(c) => { sym::obs(c); sym::fail(12); } }
            sym::reach(1);
        }
        (Ok(_), None) => sym::fail(13),
        (Err(c), Some(_)) => { sym::obs(c); sym::fail(14); }
        (Err(c), None) => { sym::obs(c); sym::reach(2); }
    }
}
fn is(s: Secret, w: Option<[u8; 32]>, ed: bool) { if ed { is_ed(s, w) } else { is_x(s, w) } }
fn edit(s: &str) -> String {
    let n = s.len();
    match sym::choice(3) {
        0 => { let st = sym::by_tier(if n > 60 { 3 } else { 1 }, 1); let q = (sym::choice((n as u32 - 1) / st + 1) * st) as usize; let c = sym::ascii(1); [&s[..q], c.as_str(), &s[q + 1..]].concat() }
        1 => { let q = (sym::choice((n as u32 / 8) + 1) * 8) as usize; let c = sym::ascii(1); [&s[..q], c.as_str(), &s[q..]].concat() }
        _ => { let c = ["\u{e9}", "\u{2126}", "0", "zz", ""][sym::choice(5) as usize]; let q = sym::choice(2) as usize * (n - 2); [&s[..q], c, &s[q + 2..]].concat() }
    }
}
/// any text near an honest base58 value
pub fn text58() { let ed = sym::flip(); let s = edit(&enc58(&bytes_of(3, ed))); let w = means58(&s, ed); is(sec("did:x:b#1", if ed { 2 } else { 1 }, b58(s)), w, ed) }
/// any text near an honest multibase value
pub fn text_mb() { let ed = sym::flip(); let s = edit(&mbx(if ed { &EP } else { &XP }, &bytes_of(3, ed))); let w = means_mb(&s, ed); is(sec("did:x:b#1", if ed { 4 } else { 3 }, mb(s)), w, ed) }
fn bytes_n(n: usize) -> Vec<u8> { (0..n).map(|i| (i as u8).wrapping_mul(7) ^ 0x5c).collect() }
/// values of every length and every kind of prefix; Ed25519 values cut, extended or with a public half that is not the key's
pub fn sizes() {
    let ed = sym::flip();
    let n = sym::choice(if ed { 70 } else { 40 }) as usize;
    let h = bytes_of(3, ed);
    let v: Vec<u8> = match sym::choice(2) { 0 => (0..n).map(|i| if i < h.len() { h[i] } else { 9 }).collect(), _ => { let mut v = bytes_n(n); for i in 0..n.min(3) { v[i] = 0; } v } };
    let (prev, s) = match sym::choice(sym::by_tier(6, 11)) {
        0 => { let s = enc58(&v); (true, s) }
        i => {
            let p: &[u8] = match i { 1 => if ed { &EP } else { &XP }, 2 => if ed { &XP } else { &EP }, 3 => &[0x80; 8], 4 => &[], 5 => if ed { &[0x80, 0xa6, 0x00] } else { &[0x82, 0xa6, 0x00] }, 6 => &[0xec, 0x01], 7 => &[0xed, 0x01], 8 => &[0x80, 0x80, 0x80, 0x80, 0x80, 0x00], 9 => &[0x80], _ => if ed { &[0x80, 0x26, 0x00] } else { &[0x82, 0x26, 0x00] } };
            (false, mbx(p, &v))
        }
    };
    if prev { let w = means58(&s, ed); is(sec("did:x:b#1", if ed { 2 } else { 1 }, b58(s)), w, ed) } else { let w = means_mb(&s, ed); is(sec("did:x:b#1", if ed { 4 } else { 3 }, mb(s)), w, ed) }
}
/// short texts: one character any of the alphabet, one anything
pub fn prefixes() {
    let ed = sym::flip();
    let al = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let a = al[(sym::choice(sym::by_tier(15, 58)) as usize * sym::by_tier(4, 1)).min(57)];
    let c = sym::ascii(1);
    let s = match sym::choice(4) { 0 => c, 1 => ["z", c.as_str()].concat(), 2 => ["z", c.as_str(), (a as char).to_string().as_str()].concat(), _ => ["z", (a as char).to_string().as_str(), c.as_str()].concat() };
    let (t, m) = if sym::flip() { (if ed { 4 } else { 3 }, mb(s)) } else { (if ed { 2 } else { 1 }, b58(s)) };
    is(sec("did:x:b#1", t, m), None, ed)
}
/// secret types against kinds of material
pub fn fit() {
    let t = sym::choice(7);
    let ed = sym::flip();
    let (d, p) = (sk(3), pk(if ed { Kt::Ed } else { Kt::X }, 3));
    let b = bytes_of(3, ed);
    let k = sym::choice(3);
    let (m, ok) = match k { 0 => (jk(jwk_of(if ed { Kt::Ed } else { Kt::X }, &p, Some(d))), t == 0), 1 => (b58(enc58(&b)), t == if ed { 2 } else { 1 }), _ => (mb(mbx(if ed { &EP } else { &XP }, &b)), t == if ed { 4 } else { 3 }) };
    let w = if ok { Some(d) } else { None };
    is(sec("did:x:b#1", t, m), w, ed)
}
/// JWK contents
pub fn jwks() {
    let ed = sym::flip();
    let kt = if ed { Kt::Ed } else { Kt::X };
    let (d, p) = (sk(3), pk(kt, 3));
    let honest = jwk_of(kt, &p, Some(d));
    let mut j = honest.clone();
    let mut w = Some(d);
    match sym::choice(7) {
        0 => { let n = sym::choice(40) as usize; let v = bytes_n(n); j["d"] = b64(&v).into(); w = None; }
        1 => { let f = ["d", "x"][sym::choice(2) as usize]; let o = honest[f].as_str().unwrap_or("").to_string(); let q = sym::choice(o.len() as u32) as usize; let c = sym::ascii(1); let s = [&o[..q], c.as_str(), &o[q + 1..]].concat(); if s.as_bytes() != o.as_bytes() { w = None; } j[f] = s.into(); }
        2 => { let f = ["kty", "crv"][sym::choice(2) as usize]; let o = honest[f].as_str().unwrap_or("").to_string(); let q = sym::choice(o.len() as u32) as usize; let c = sym::ident(1); let s = [&o[..q], c.as_str(), &o[q + 1..]].concat(); if s.as_bytes() != o.as_bytes() { w = None; } j[f] = s.into(); }
        3 => { let f = ["kty", "crv", "x", "d"][sym::choice(4) as usize]; w = None; match sym::choice(4) { 0 => { j.as_object_mut().map(|o| o.remove(f)); } 1 => j[f] = Value::Null, 2 => j[f] = json!(5), _ => j[f] = json!([honest[f].clone()]) } }
        4 => { w = None; j = match sym::choice(5) { 0 => Value::Null, 1 => json!("x"), 2 => json!([]), 3 => json!({}), _ => json!([honest.clone()]) }; }
        5 => { w = None; j["crv"] = ["P-256", "secp256k1", if ed { "X25519" } else { "Ed25519" }, ""][sym::choice(4) as usize].into(); }
        _ => { j["use"] = "enc".into(); j["kid"] = "k".into(); }
    }
    is(sec("did:x:b#1", 0, jk(j)), w, ed)
}
/// the same secrets in different formats in every role: recipient, authenticated sender, signer, rotation issuer
pub fn roles() {
    let xs = |id: &str, seed: u8, f: u32| match f { 0 => secret(id, Kt::X, seed), 1 => sec(id, 1, b58(enc58(&sk(seed)))), _ => sec(id, 3, mb(mbx(&XP, &sk(seed)))) };
    let es = |id: &str, seed: u8, f: u32| match f { 0 => secret(id, Kt::Ed, seed), 1 => sec(id, 2, b58(enc58(&bytes_of(seed, true)))), _ => sec(id, 4, mb(mbx(&EP, &bytes_of(seed, true)))) };
    let f = [sym::choice(3), sym::choice(3), sym::choice(3), sym::choice(3)];
    let a = Who::new("did:x:a").ka("k", Kt::X, 1).auth("s", Kt::Ed, 2); let b = Who::new("did:x:b").ka("1", Kt::X, 3).ka("2", Kt::X, 4); let p = Who::new("did:x:p").auth("s", Kt::Ed, 5);
    let d = Dids::new(vec![a.doc(), b.doc(), p.doc()]);
    let s = Secs::new(vec![xs("did:x:a#k", 1, f[0]), es("did:x:a#s", 2, f[1]), xs("did:x:b#1", 3, f[2]), xs("did:x:b#2", 4, f[3]), es("did:x:p#s", 5, f[2])]);
    let c = sym::ident(1);
    let (tok, _) = match run(FromPrior::build("did:x:p".into(), "did:x:a".into()).finalize().pack(None, &d, &s)) { Ok(x) => x, Err(e) => { sym::obs(kcode(e.kind())); sym::fail(60); return; } };
    let msg = Message::build("i".into(), "t".into(), Value::String(c)).from("did:x:a".into()).from_prior(tok).finalize();
    let sg = sym::flip();
    model::st().draws = 0;
    let o = PackEncryptedOptions { protect_sender: sym::flip(), ..opts(false) };
    let (q, _) = match run(msg.pack_encrypted("did:x:b", Some("did:x:a"), if sg { Some("did:x:a") } else { None }, &d, &s, &o)) { Ok(x) => x, Err(e) => { sym::obs(kcode(e.kind())); sym::fail(61); return; } };
    // the same as with explicit keys
    model::st().draws = 0;
    let mut plain_s = a.secrets(); plain_s.append(&mut p.secrets());
    match run(msg.pack_encrypted("did:x:b", Some("did:x:a"), if sg { Some("did:x:a") } else { None }, &d, &Secs::new(plain_s), &o)) { Ok(x) => sym::check(x.0 == q, 62), Err(e) => { sym::obs(kcode(e.kind())); sym::fail(63); } }
    match run(Message::unpack(&q, &d, &s, &UnpackOptions { expect_decrypt_by_all_keys: true, unwrap_re_wrapping_forward: true })) {
        Ok((x, md)) => { sym::check(x == msg, 64); sym::check(md.authenticated && md.non_repudiation == sg && md.encrypted_from_kid.as_deref() == Some("did:x:a#k") && md.from_prior_issuer_kid.as_deref() == Some("did:x:p#s"), 65); sym::reach(1); }
        Err(e) => { sym::obs(kcode(e.kind())); sym::fail(66); }
    }
}
/// every two-byte codec prefix near the registered ones before right material: only the registered one makes a key of it
pub fn codecs() {
    let ed = sym::flip();
    let own = if ed { EP } else { XP };
    let p = if sym::flip() { [0x80 + sym::choice(128) as u8, 0x26] } else { [own[0], [0x25u8, 0x27, 0x24, 0x06, 0x66, 0x01, 0x00, 0xa6][sym::choice(8) as usize]] };
    let s = mbx(&p, &bytes_of(3, ed));
    let w = means_mb(&s, ed);
    is(sec("did:x:b#1", if ed { 4 } else { 3 }, mb(s)), w, ed)
}
/// EC JWKs (P-256 for agreement, P-256 and secp256k1 for signatures): another key, names, members, forms or lengths
pub fn ec() {
    let (t, agree) = [(Kt::P, true), (Kt::P, false), (Kt::K, false)][sym::choice(3) as usize];
    let d = sk(3);
    let p = pk(t, 3);
    let honest = jwk_of(t, &p, Some(d));
    let mut j = honest.clone();
    let mut w = true;
    match sym::choice(7) {
        0 => { j = jwk_of(t, &pk(t, 5), Some(sk(5))); w = false; if !agree { j["d"] = honest["d"].clone(); } }
        1 => { let f = ["kty", "crv"][sym::choice(2) as usize]; let o = honest[f].as_str().unwrap_or("").to_string(); let q = sym::choice(2 * o.len() as u32 + 1) as usize; let c = sym::ident(1); let s = if q < o.len() { [&o[..q], c.as_str(), &o[q + 1..]].concat() } else { let q = q - o.len(); [&o[..q], c.as_str(), &o[q..]].concat() }; w = s.as_bytes() == o.as_bytes(); j[f] = s.into(); }
        2 => { let f = ["x", "y", "d"][sym::choice(3) as usize]; let o = honest[f].as_str().unwrap_or("").to_string(); let q = sym::choice(o.len() as u32) as usize; let c = sym::ascii(1); let s = [&o[..q], c.as_str(), &o[q + 1..]].concat(); w = s.as_bytes() == o.as_bytes(); j[f] = s.into(); }
        3 => { let f = ["kty", "crv", "x", "y", "d"][sym::choice(5) as usize]; w = false; match sym::choice(5) { 0 => { j.as_object_mut().map(|o| o.remove(f)); } 1 => j[f] = Value::Null, 2 => j[f] = json!(5), 3 => j[f] = json!(""), _ => j[f] = json!([honest[f].clone()]) } }
        4 => { let n = sym::choice(36) as usize; j["d"] = b64(&bytes_n(n)).into(); w = false; }
        5 => { w = false; j["crv"] = [if t == Kt::P { "secp256k1" } else { "P-256" }, "P-384", "P-256K", "p-256", "Ed25519", "X25519", ""][sym::choice(7) as usize].into(); }
        _ => { w = false; j["kty"] = ["OKP", "oct", "RSA", "ec", ""][sym::choice(5) as usize].into(); }
    }
    use didcomm::did::*;
    model::reset();
    let id = "did:x:b#1";
    let s = Secs::new(vec![sec(id, 0, jk(j))]);
    let m = Message::build("i".into(), "t".into(), Value::from(1)).finalize();
    let b = if agree { Who::new("did:x:b").ka("1", t, 3) } else { Who::new("did:x:b").auth("1", t, 3) };
    let dd = Dids::new(vec![b.doc()]);
    let r = if agree {
        let q = match run(m.pack_encrypted("did:x:b", None, None, &dd, &Secs::new(vec![]), &opts(false))) { Ok(x) => x.0, Err(e) => { sym::obs(kcode(e.kind())); sym::fail(70); return; } };
        run(Message::unpack(&q, &dd, &s, &UnpackOptions::default())).map(|(x, _)| sym::check(x == m, 71)).map_err(|e| kcode(e.kind()))
    } else {
        // a signature that the published key does not verify must not come out under another curve's name either
        run(m.pack_signed("did:x:b", &dd, &s)).map_err(|e| kcode(e.kind())).and_then(|(q, _)| run(Message::unpack(&q, &dd, &Secs::new(vec![]), &UnpackOptions::default())).map(|(x, _)| sym::check(x == m, 72)).map_err(|e| kcode(e.kind())))
    };
    match r { Ok(()) => { sym::check(w, 73); sym::reach(1); } Err(c) => { sym::obs(c); sym::check(!w, 74); sym::reach(2); } }
}
