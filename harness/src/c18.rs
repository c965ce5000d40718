use crate::{craft::*, fix::*, sym};
use askar_crypto::model;
use didcomm::did::*;
use didcomm::*;
use serde_json::{json, Value};

fn ty(i: u32) -> VerificationMethodType {
    use VerificationMethodType::*;
    match i { 0 => JsonWebKey2020, 1 => X25519KeyAgreementKey2019, 2 => Ed25519VerificationKey2018, 3 => X25519KeyAgreementKey2020, 4 => Ed25519VerificationKey2020, 5 => EcdsaSecp256k1VerificationKey2019, _ => Other }
}
fn b58(s: String) -> VerificationMaterial { VerificationMaterial::Base58 { public_key_base58: s } }
fn mb(s: String) -> VerificationMaterial { VerificationMaterial::Multibase { public_key_multibase: s } }
fn vmx(id: &str, t: u32, m: VerificationMaterial) -> VerificationMethod { VerificationMethod { id: id.into(), type_: ty(t), controller: "did:x:ctl".into(), verification_material: m } }
fn enc58(b: &[u8]) -> String { bs58::encode(b).into_string() }
fn mbx(prefix: &[u8], b: &[u8]) -> String { ["z", enc58(&[prefix, b].concat()).as_str()].concat() }
const XP: [u8; 2] = [0xec, 0x01];
const EP: [u8; 2] = [0xed, 0x01];
fn dec58(s: &str) -> Option<Vec<u8>> { bs58::decode(s).into_vec().ok() }
fn a32(v: &[u8]) -> Option<[u8; 32]> { if v.len() != 32 { return None; } let mut a = [0; 32]; a.copy_from_slice(v); Some(a) }
/// the key a base58 / multibase text denotes
fn means58(s: &str) -> Option<[u8; 32]> { a32(&dec58(s)?) }
fn means_mb(s: &str, p: [u8; 2]) -> Option<[u8; 32]> { if s.as_bytes().first() != Some(&b'z') { return None; } let v = dec58(&s[1..])?; if v.len() < 2 || v[..2] != p { return None; } a32(&v[2..]) }

/// pack anonymously to a recipient with this method, from the same randomness every time
fn send(v: VerificationMethod) -> std::result::Result<String, u64> {
    model::reset();
    let doc = DIDDoc { id: "did:x:b".into(), key_agreement: vec![v.id.clone()], authentication: vec![], verification_method: vec![v], service: vec![] };
    let m = Message::build("i".into(), "t".into(), Value::from(1)).finalize();
    run(m.pack_encrypted("did:x:b", None, None, &Dids::new(vec![doc]), &Secs::new(vec![]), &opts(false))).map(|x| x.0).map_err(|e| kcode(e.kind()))
}
/// a method used as an X25519 recipient denotes exactly `want`
fn is_x(v: VerificationMethod, want: Option<[u8; 32]>) {
    let id = v.id.clone();
    let r = send(v);
    match (r, want) {
        (Ok(p), Some(k)) => { sym::reach(1); match send(vmx(&id, 0, VerificationMaterial::JWK { public_key_jwk: jwk_of(Kt::X, &k, None) })) { Ok(q) => sym::check(p == q, 1), Err(c) => { sym::obs(c); sym::fail(2); } } }
        (Ok(_), None) => sym::fail(3),
        (Err(c), Some(_)) => { sym::obs(c); sym::fail(4); }
        (Err(c), None) => { sym::obs(c); sym::reach(2); }
    }
}
/// verify a signed message made with secret key `s` under this method
fn verify(v: VerificationMethod, s: &[u8; 32]) -> std::result::Result<(), u64> {
    use askar_crypto::sign::KeySign;
    let id = v.id.clone();
    let doc = DIDDoc { id: "did:x:b".into(), key_agreement: vec![], authentication: vec![v.id.clone()], verification_method: vec![v], service: vec![] };
    let h = b64(sig_header("EdDSA").as_bytes()); let p = b64(plain("1").as_bytes());
    let inp = [h.as_str(), ".", p.as_str()].concat();
    let k = askar_crypto::alg::ed25519::Ed25519KeyPair::from_parts(Some(*s), askar_crypto::alg::ed25519::public_of(s));
    let g = k.create_signature(inp.as_bytes(), Some(askar_crypto::sign::SignatureType::EdDSA)).unwrap();
    let j = Jws { payload: p, sigs: vec![(id, h, b64(g.as_ref()))] };
    run(Message::unpack(&j.json(), &Dids::new(vec![doc]), &Secs::new(vec![]), &UnpackOptions::default())).map(|_| ()).map_err(|e| kcode(e.kind()))
}
/// a method used as an Ed25519 verification key denotes exactly `want`
fn is_ed(v: VerificationMethod, want: Option<[u8; 32]>) {
    let other = verify(v.clone(), &sk(77));
    match want {
        Some(k) => {
            let s = askar_crypto::alg::ed25519::public_of(&k);
            match verify(v, &s) { Ok(()) => sym::reach(1), Err(c) => { sym::obs(c); sym::fail(11); } }
            sym::check(other.is_err() || s == sk(77), 12);
        }
        None => { sym::check(other.is_err(), 13); match verify(v, &sk(3)) { Ok(()) => sym::fail(14), Err(c) => { sym::obs(c); sym::reach(2); } } }
    }
}
fn edit(s: &str) -> String {
    let n = s.len();
    match sym::choice(3) {
        0 => { let q = sym::choice(n as u32) as usize; let c = sym::ascii(1); [&s[..q], c.as_str(), &s[q + 1..]].concat() }
        1 => { let q = (sym::choice((n as u32 / 8) + 1) * 8) as usize; let c = sym::ascii(1); [&s[..q], c.as_str(), &s[q..]].concat() }
        _ => { let c = ["\u{e9}", "\u{2126}", "0", "zz", ""][sym::choice(5) as usize]; let q = sym::choice(2) as usize * (n - 2); [&s[..q], c, &s[q + 2..]].concat() }
    }
}
/// any text near an honest base58 or multibase value of an agreement key
pub fn text_x() {
    let k = pk(Kt::X, 3);
    if sym::flip() { let s = edit(&enc58(&k)); let w = means58(&s); is_x(vmx("did:x:b#1", 1, b58(s)), w); }
    else { let s = edit(&mbx(&XP, &k)); let w = means_mb(&s, XP); is_x(vmx("did:x:b#1", 3, mb(s)), w); }
}
/// any text near an honest base58 or multibase value of a verification key
pub fn text_ed() {
    let k = pk(Kt::Ed, 3);
    if sym::flip() { let s = edit(&enc58(&k)); let w = means58(&s); is_ed(vmx("did:x:b#1", 2, b58(s)), w); }
    else { let s = edit(&mbx(&EP, &k)); let w = means_mb(&s, EP); is_ed(vmx("did:x:b#1", 4, mb(s)), w); }
}
fn bytes_n(n: usize) -> Vec<u8> { (0..n).map(|i| (i as u8).wrapping_mul(7) ^ 0x5c).collect() }
/// values of every length and every kind of prefix
pub fn sizes() {
    let n = sym::choice(sym::by_tier(40, 70)) as usize;
    let zeros = sym::flip();
    let mut v = bytes_n(n); if zeros { for i in 0..n.min(3) { v[i] = 0; } }
    let ed = sym::flip();
    match sym::choice(11) {
        0 => { let s = enc58(&v); let w = a32(&v); if ed && w.is_none() && n > 32 { for o in [0, 1, n - 32] { let h = askar_crypto::alg::ed25519::public_of(&a32(&v[o..o + 32]).unwrap_or([0; 32])); sym::check(verify(vmx("did:x:b#1", 2, b58(s.clone())), &h).is_err(), 16); } } if ed { is_ed(vmx("did:x:b#1", 2, b58(s)), w) } else { is_x(vmx("did:x:b#1", 1, b58(s)), w) } }
        i => {
            // the right prefix, the other codecs, none, or prefix texts that are not the registered one
            let p: &[u8] = match i { 1 => if ed { &EP } else { &XP }, 2 => if ed { &XP } else { &EP }, 3 => &[0x82, 0x26], 4 => &[0x80, 0x26], 5 => &[], 6 => if ed { &[0xed, 0x81, 0x00] } else { &[0xec, 0x81, 0x00] }, 7 => if ed { &[0xed, 0x81, 0x80, 0x80, 0x80, 0x00] } else { &[0xec, 0x81, 0x80, 0x80, 0x80, 0x00] }, 8 => &[0x80; 8], 9 => if ed { &[0xed] } else { &[0xec] }, _ => if ed { &[0xed, 0x01, 0x00] } else { &[0xec, 0x01, 0x00] } };
            let s = mbx(p, &v);
            let w = means_mb(&s, if ed { EP } else { XP });
            // where the text denotes no key, no 32 bytes of it serve as one either
            if ed && w.is_none() { let all = dec58(&s[1..]).unwrap_or_default(); for o in [0, 1, 2, 3, 6, all.len().wrapping_sub(32)] { if let Some(k) = all.get(o..o.wrapping_add(32)).and_then(a32) { let h = askar_crypto::alg::ed25519::public_of(&k); sym::check(verify(vmx("did:x:b#1", 4, mb(s.clone())), &h).is_err(), 15); } } }
            if ed { is_ed(vmx("did:x:b#1", 4, mb(s)), w) } else { is_x(vmx("did:x:b#1", 3, mb(s)), w) }
        }
    }
}
/// the first bytes of a multibase value are anything
pub fn prefixes() {
    let ed = sym::flip();
    let k = pk(if ed { Kt::Ed } else { Kt::X }, 3);
    let _ = k;
    // short texts: one character any of the alphabet, one anything
    let al = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let a = al[sym::choice(58) as usize];
    let c = sym::ascii(1);
    let s = match sym::choice(4) { 0 => c, 1 => ["z", c.as_str()].concat(), 2 => ["z", c.as_str(), (a as char).to_string().as_str()].concat(), _ => ["z", (a as char).to_string().as_str(), c.as_str()].concat() };
    if ed { is_ed(vmx("did:x:b#1", 4, mb(s)), None) } else { is_x(vmx("did:x:b#1", 3, mb(s)), None) }
}
/// method types against kinds of material: only the fitting pair is a key
pub fn fit() {
    let t = sym::choice(7);
    let ed = sym::flip();
    let k = pk(if ed { Kt::Ed } else { Kt::X }, 3);
    let (p, kt) = if ed { (EP, Kt::Ed) } else { (XP, Kt::X) };
    let (m, ok) = match sym::choice(3) { 0 => (VerificationMaterial::JWK { public_key_jwk: jwk_of(kt, &k, None) }, t == 0), 1 => (b58(enc58(&k)), t == if ed { 2 } else { 1 }), _ => (mb(mbx(&p, &k)), t == if ed { 4 } else { 3 }) };
    // a wrongly typed use of right material: an Ed25519 value as X25519 and the reverse are different keys, checked by use
    let use_ed = sym::flip();
    let v = vmx("did:x:b#1", t, m.clone());
    if use_ed { let w = if ok && ed { Some(k) } else if !ed && t == 2 && matches!(m, VerificationMaterial::Base58 { .. }) { Some(k) } else { None }; is_ed(v, w) }
    else { let w = if ok && !ed { Some(k) } else if ed && t == 1 && matches!(m, VerificationMaterial::Base58 { .. }) { Some(k) } else { None }; is_x(v, w) }
}
/// JWK contents: member values of wrong type, length, curve or form
pub fn jwks() {
    let ed = sym::flip();
    let kt = if ed { Kt::Ed } else { Kt::X };
    let k = pk(kt, 3);
    let mut j = jwk_of(kt, &k, None);
    let honest = j.clone();
    let mut w = Some(k);
    match sym::choice(9) {
        0 => { let n = sym::choice(40) as usize; let v = bytes_n(n); j["x"] = b64(&v).into(); w = a32(&v); }
        1 => { let o = j["x"].as_str().unwrap_or("").to_string(); let q = sym::choice(o.len() as u32) as usize; let c = sym::ascii(1); let s = [&o[..q], c.as_str(), &o[q + 1..]].concat(); w = base64::decode_config(&s, base64::URL_SAFE_NO_PAD).ok().and_then(|v| a32(&v)); j["x"] = s.into(); }
        2 => { let f = ["kty", "crv"][sym::choice(2) as usize]; let o = honest[f].as_str().unwrap_or("").to_string(); let q = sym::choice(o.len() as u32) as usize; let c = sym::ident(1); let s = [&o[..q], c.as_str(), &o[q + 1..]].concat(); if s.as_bytes() != o.as_bytes() { w = None; } j[f] = s.into(); }
        3 => { let f = ["kty", "crv", "x"][sym::choice(3) as usize]; w = None; match sym::choice(4) { 0 => { j.as_object_mut().map(|o| o.remove(f)); } 1 => j[f] = Value::Null, 2 => j[f] = json!(5), _ => j[f] = json!([honest[f].clone()]) } }
        4 => { w = None; j = match sym::choice(5) { 0 => Value::Null, 1 => json!("x"), 2 => json!([]), 3 => json!({}), _ => json!([honest.clone()]) }; }
        5 => { w = None; j["crv"] = ["P-256", "secp256k1", if ed { "X25519" } else { "Ed25519" }, "X448", ""][sym::choice(5) as usize].into(); if !ed || j["crv"] != "X25519" { if j["crv"] == "Ed25519" { w = None; } } }
        6 => { w = None; j["kty"] = ["EC", "oct", "RSA", "", "okp"][sym::choice(5) as usize].into(); }
        7 => { j["use"] = "enc".into(); j["kid"] = "k".into(); j["alg"] = Value::Null; }
        _ => {}
    }
    // with the other curve's name the value is a key of that curve: it must not serve here
    let v = vmx("did:x:b#1", 0, VerificationMaterial::JWK { public_key_jwk: j });
    if ed { is_ed(v, w) } else { is_x(v, w) }
}
/// the same keys in different formats in every role: recipient, authenticated sender, signer, rotation issuer, forward hop
pub fn roles() {
    let xf = |id: &str, seed: u8, f: u32| { let k = pk(Kt::X, seed); match f { 0 => vmx(id, 0, VerificationMaterial::JWK { public_key_jwk: jwk_of(Kt::X, &k, None) }), 1 => vmx(id, 1, b58(enc58(&k))), _ => vmx(id, 3, mb(mbx(&XP, &k))) } };
    let ef = |id: &str, seed: u8, f: u32| { let k = pk(Kt::Ed, seed); match f { 0 => vmx(id, 0, VerificationMaterial::JWK { public_key_jwk: jwk_of(Kt::Ed, &k, None) }), 1 => vmx(id, 2, b58(enc58(&k))), _ => vmx(id, 4, mb(mbx(&EP, &k))) } };
    let f = [sym::choice(3), sym::choice(3), sym::choice(3), sym::choice(3)];
    let doc = |did: &str, ka: Vec<VerificationMethod>, au: Vec<VerificationMethod>| DIDDoc { id: did.into(), key_agreement: ka.iter().map(|v| v.id.clone()).collect(), authentication: au.iter().map(|v| v.id.clone()).collect(), verification_method: ka.into_iter().chain(au).collect(), service: vec![] };
    let a = doc("did:x:a", vec![xf("did:x:a#k", 1, f[0])], vec![ef("did:x:a#s", 2, f[1])]);
    let mut b = doc("did:x:b", vec![xf("did:x:b#1", 3, f[2]), xf("did:x:b#2", 4, f[3])], vec![]);
    let p = doc("did:x:p", vec![], vec![ef("did:x:p#s", 5, f[0])]);
    let m = doc("did:x:m", vec![xf("did:x:m#1", 6, f[1])], vec![]);
    b.service = vec![svc("s", "http://b", None, &["did:x:m#1"])];
    let fwd = sym::flip();
    let d = Dids::new(vec![a, b, p, m]);
    let s = Secs::new(vec![secret("did:x:a#k", Kt::X, 1), secret("did:x:a#s", Kt::Ed, 2), secret("did:x:b#1", Kt::X, 3), secret("did:x:b#2", Kt::X, 4), secret("did:x:p#s", Kt::Ed, 5)]);
    let c = sym::ident(1);
    let (tok, _) = match run(FromPrior::build("did:x:p".into(), "did:x:a".into()).finalize().pack(None, &d, &s)) { Ok(x) => x, Err(e) => { sym::obs(kcode(e.kind())); sym::fail(60); return; } };
    let msg = Message::build("i".into(), "t".into(), Value::String(c)).from("did:x:a".into()).from_prior(tok).finalize();
    let sg = sym::flip();
    let (q, _) = match run(msg.pack_encrypted("did:x:b", Some("did:x:a"), if sg { Some("did:x:a") } else { None }, &d, &s, &PackEncryptedOptions { protect_sender: sym::flip(), ..opts(fwd) })) { Ok(x) => x, Err(e) => { sym::obs(kcode(e.kind())); sym::fail(61); return; } };
    let q = if fwd { match Jwe::read(&q).and_then(|j| open(&j, "did:x:m#1", Kt::X, 6, None)).and_then(|t| serde_json::from_slice::<Value>(&t).ok()) { Some(v) => v["attachments"][0]["data"]["json"].to_string(), None => { sym::fail(62); return; } } } else { q };
    match run(Message::unpack(&q, &d, &s, &UnpackOptions { expect_decrypt_by_all_keys: true, unwrap_re_wrapping_forward: true })) {
        Ok((x, md)) => { sym::check(x == msg, 63); sym::check(md.authenticated && md.non_repudiation == sg && md.encrypted_from_kid.as_deref() == Some("did:x:a#k") && md.encrypted_to_kids == Some(vec!["did:x:b#1".into(), "did:x:b#2".into()]) && md.from_prior_issuer_kid.as_deref() == Some("did:x:p#s"), 64); sym::reach(1); }
        Err(e) => { sym::obs(kcode(e.kind())); sym::fail(65); }
    }
}
/// every two-byte codec prefix near the registered ones before right material: only the registered one makes a key of it
pub fn codecs() {
    let ed = sym::flip();
    let k = pk(if ed { Kt::Ed } else { Kt::X }, 3);
    let own = if ed { EP } else { XP };
    let p = if sym::flip() { [0x80 + sym::choice(128) as u8, 1] } else { [own[0], [0u8, 2, 3, 4, 5, 0x81, 0x80, 0x41, 0x11, 0x26][sym::choice(10) as usize]] };
    let s = mbx(&p, &k);
    let w = means_mb(&s, own);
    if ed { is_ed(vmx("did:x:b#1", 4, mb(s)), w) } else { is_x(vmx("did:x:b#1", 3, mb(s)), w) }
}
fn verify_ec(v: VerificationMethod, t: Kt, x: &[u8; 32]) -> bool {
    use askar_crypto::{alg::{k256, p256}, sign::KeySign};
    let id = v.id.clone();
    let doc = DIDDoc { id: "did:x:b".into(), key_agreement: vec![], authentication: vec![v.id.clone()], verification_method: vec![v], service: vec![] };
    let (alg, st) = sig_alg(t);
    let h = b64(sig_header(alg).as_bytes()); let p = b64(plain("1").as_bytes());
    let inp = [h.as_str(), ".", p.as_str()].concat();
    let g = if t == Kt::P { p256::P256KeyPair::from_parts(Some(p256::public_of(x)), *x).create_signature(inp.as_bytes(), Some(st)).unwrap().as_ref().to_vec() } else { k256::K256KeyPair::from_parts(Some(k256::public_of(x)), *x).create_signature(inp.as_bytes(), Some(st)).unwrap().as_ref().to_vec() };
    let j = Jws { payload: p, sigs: vec![(id, h, b64(&g))] };
    run(Message::unpack(&j.json(), &Dids::new(vec![doc]), &Secs::new(vec![]), &UnpackOptions::default())).is_ok()
}
/// EC JWKs (P-256 for agreement, P-256 and secp256k1 for signatures): another point, names, members, forms or lengths
pub fn ec() {
    let (t, agree) = [(Kt::P, true), (Kt::P, false), (Kt::K, false)][sym::choice(3) as usize];
    let mut k = pk(t, 3);
    let honest = jwk_of(t, &k, None);
    let mut j = honest.clone();
    let mut w = true;
    match sym::choice(7) {
        0 => { let q = sym::choice(4) as usize * 10; k[q] = sym::byte(); j = jwk_of(t, &k, None); }
        1 => { let f = ["kty", "crv"][sym::choice(2) as usize]; let o = honest[f].as_str().unwrap_or("").to_string(); let q = sym::choice(2 * o.len() as u32 + 1) as usize; let c = sym::ident(1); let s = if q < o.len() { [&o[..q], c.as_str(), &o[q + 1..]].concat() } else { let q = q - o.len(); [&o[..q], c.as_str(), &o[q..]].concat() }; w = s.as_bytes() == o.as_bytes(); j[f] = s.into(); }
        2 => { let f = ["x", "y"][sym::choice(2) as usize]; let o = honest[f].as_str().unwrap_or("").to_string(); let q = sym::choice(o.len() as u32) as usize; let c = sym::ascii(1); let s = [&o[..q], c.as_str(), &o[q + 1..]].concat(); w = s.as_bytes() == o.as_bytes(); j[f] = s.into(); }
        3 => { let f = ["kty", "crv", "x", "y"][sym::choice(4) as usize]; w = false; match sym::choice(5) { 0 => { j.as_object_mut().map(|o| o.remove(f)); } 1 => j[f] = Value::Null, 2 => j[f] = json!(5), 3 => j[f] = json!(""), _ => j[f] = json!([honest[f].clone()]) } }
        4 => { let n = sym::choice(36) as usize; let v = bytes_n(n); let y: Vec<u8> = v.iter().map(|b| b ^ 0xa5).collect(); j["x"] = b64(&v).into(); j["y"] = b64(&y).into(); w = n == 32; if let Some(v) = a32(&v) { k = v; } }
        5 => { w = false; j["crv"] = [if t == Kt::P { "secp256k1" } else { "P-256" }, "P-384", "P-256K", "p-256", "Ed25519", "X25519", ""][sym::choice(7) as usize].into(); }
        _ => { w = false; j["kty"] = ["OKP", "oct", "RSA", "ec", ""][sym::choice(5) as usize].into(); }
    }
    let v = vmx("did:x:b#1", 0, VerificationMaterial::JWK { public_key_jwk: j });
    if agree {
        match send(v) {
            Ok(p) => { sym::check(w, 70); match send(vmx("did:x:b#1", 0, VerificationMaterial::JWK { public_key_jwk: jwk_of(t, &k, None) })) { Ok(q) => sym::check(p == q, 71), Err(c) => { sym::obs(c); sym::fail(72); } } sym::reach(1); }
            Err(c) => { sym::obs(c); sym::check(!w, 73); sym::reach(2); }
        }
    } else if w { sym::check(verify_ec(v.clone(), t, &k), 74); sym::check(k == pk(t, 9) || !verify_ec(v, t, &pk(t, 9)), 75); sym::reach(3); }
    else { sym::check(!verify_ec(v, t, &k), 76); sym::reach(4); }
}
