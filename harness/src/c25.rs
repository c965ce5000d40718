use crate::{craft::*, fix::*, sym};
use didcomm::algorithms::*;
use didcomm::*;
use serde_json::Value;

fn a(t: Kt, s: Kt) -> Who { Who::new("did:x:a").ka("k", t, 1).auth("s", s, 2) }
fn b(t: Kt) -> Who { Who::new("did:x:b").ka("k", t, 3) }
fn msg() -> Message { Message::build("i".into(), "t".into(), Value::String(sym::ident(1))).finalize() }
/// registered or plausible names that are none of the three
const OTHER: [&str; 27] = ["none", "None", "HS256", "HS512", "RS256", "PS256", "ES384", "ES512", "ES256K-R", "ES256k", "Ed25519", "Ed448", "EDDSA", "eddsa", "EdDSA ", "EDDSA-Ed25519", "Ed25519Signature2018", "SECP256K1", "secp256k1", "P-256", "ECDSA", "ES256-K", "ES256R", "K256", "P256", "ESP256", ""];
const SG: [&str; 3] = ["EdDSA", "ES256", "ES256K"];
fn skt(i: u32) -> Kt { match i { 0 => Kt::Ed, 1 => Kt::P, _ => Kt::K } }
fn sga(i: u32) -> SignAlg { match i { 0 => SignAlg::EdDSA, 1 => SignAlg::ES256, _ => SignAlg::ES256K } }
fn cem(i: u32) -> Ce { match anon_alg(i) { AnonCryptAlg::A256cbcHs512EcdhEsA256kw => Ce::Cbc, AnonCryptAlg::Xc20pEcdhEsA256kw => Ce::Xc, AnonCryptAlg::A256gcmEcdhEsA256kw => Ce::Gcm } }
/// the header of an envelope names exactly these
fn names(p: &str, alg: &str, enc: &str) -> Option<Jwe> {
    let j = match Jwe::read(p) { Some(j) => j, None => { sym::fail(1); return None; } };
    let h = j.header().unwrap_or(Value::Null);
    sym::check(h["alg"] == *alg && h["enc"] == *enc && h["typ"] == "application/didcomm-encrypted+json", 2);
    Some(j)
}
/// every combination of options and key types: the names that are written, the algorithms that are used, and what unpacking reports
pub fn written() {
    let t = kt(sym::choice(2)); let si = sym::choice(3); let an = sym::choice(3);
    let k = sym::choice(6);
    let (a, b) = (a(t, skt(si)), b(t));
    let d = Dids::new(vec![a.doc(), b.doc()]); let (sa, sb) = (Secs::new(a.secrets()), Secs::new(b.secrets()));
    let m = msg();
    let (auth, sign, protect) = (k == 1 || k == 2 || k == 4 || k == 5, k == 3 || k == 4 || k == 5, k == 2 || k == 5);
    let o = PackEncryptedOptions { enc_alg_anon: anon_alg(an), protect_sender: protect, ..opts(false) };
    let p = match run(m.pack_encrypted("did:x:b", if auth { Some("did:x:a") } else { None }, if sign { Some("did:x:a") } else { None }, &d, &sa, &o)) { Ok(x) => x.0, Err(e) => { sym::obs(kcode(e.kind())); sym::fail(3); return; } };
    // outside in, with the reference
    let spub = pk(t, 1);
    let mut text = p.clone();
    if !auth || protect { let j = match names(&text, ES, cem(an).name()) { Some(j) => j, None => return }; match open(&j, "did:x:b#k", t, 3, None) { Some(x) => text = String::from_utf8(x).unwrap_or_default(), None => { sym::fail(4); return; } } }
    if auth { let j = match names(&text, PU, "A256CBC-HS512") { Some(j) => j, None => return }; match open(&j, "did:x:b#k", t, 3, Some(spub)) { Some(x) => text = String::from_utf8(x).unwrap_or_default(), None => { sym::fail(5); return; } } }
    if sign { signed(&text, si, 6); }
    match run(Message::unpack(&p, &d, &sb, &UnpackOptions::default())) {
        Ok((x, md)) => {
            sym::check(x == m, 7);
            sym::check(md.enc_alg_anon == if !auth || protect { Some(anon_alg(an)) } else { None }, 8);
            sym::check(md.enc_alg_auth == if auth { Some(AuthCryptAlg::A256cbcHs512Ecdh1puA256kw) } else { None }, 9);
            sym::check(md.sign_alg == if sign { Some(sga(si)) } else { None }, 10);
            sym::reach(1);
        }
        Err(e) => { sym::obs(kcode(e.kind())); sym::fail(11); }
    }
    if k == 0 { match run(m.pack_signed("did:x:a", &d, &sa)) { Ok((p, _)) => { signed(&p, si, 12); match run(Message::unpack(&p, &d, &sb, &UnpackOptions::default())) { Ok((_, md)) => sym::check(md.sign_alg == Some(sga(si)) && md.enc_alg_anon.is_none() && md.enc_alg_auth.is_none(), 13), Err(_) => sym::fail(14) } } Err(_) => sym::fail(15) } }
}
fn signed(text: &str, si: u32, code: u32) {
    let v: Value = serde_json::from_str(text).unwrap_or(Value::Null);
    let g = &v["signatures"][0];
    let prot = g["protected"].as_str().unwrap_or("");
    let h: Value = serde_json::from_slice(&unb64(prot)).unwrap_or(Value::Null);
    sym::check(h["alg"] == *SG[si as usize] && h["typ"] == "application/didcomm-signed+json", code);
    let input = [prot, ".", v["payload"].as_str().unwrap_or("")].concat();
    sym::check(raw_verify(skt(si), 2, sig_alg(skt(si)).1, input.as_bytes(), &unb64(g["signature"].as_str().unwrap_or(""))), code + 20);
}
/// a name near `t`, and whether it is the same
fn near(t: &str) -> (String, bool) {
    let n = t.len() as u32;
    match sym::choice(5) {
        0 => { let q = sym::choice(n) as usize; let c = sym::ident(1); let s = [&t[..q], c.as_str(), &t[q + 1..]].concat(); let e = c.as_bytes()[0] == t.as_bytes()[q]; (s, e) }
        1 => { let q = sym::choice(n + 1) as usize; ([&t[..q], sym::ident(1).as_str(), &t[q..]].concat(), false) }
        2 => { let q = sym::choice(n) as usize; ([&t[..q], &t[q + 1..]].concat(), false) }
        3 => (sym::ident(sym::choice(sym::by_tier(3, 4)) as usize), false),
        _ => (t.to_lowercase(), false),
    }
}
fn judge(p: &str, d: &Dids, s: &Secs, m: &Message, ok: bool, code: u32) {
    match run(Message::unpack(p, d, s, &UnpackOptions::default())) {
        Ok((x, _)) => { sym::check(ok, code); sym::check(x == *m, code + 1); sym::reach(1); }
        Err(e) => { sym::obs(kcode(e.kind())); sym::check(!ok, code + 2); sym::reach(2); }
    }
}
/// content algorithm: names near the right one, other registered names, names of other ciphers than the one used
pub fn enc_names() {
    let t = kt(sym::choice(2)); let (a, b) = (a(t, Kt::Ed), b(t));
    let d = Dids::new(vec![a.doc(), b.doc()]); let s = Secs::new(b.secrets());
    let m = msg(); let pt = run(m.pack_plaintext(&d)).unwrap_or_default();
    let auth = sym::flip();
    let c = if auth { sym::choice(3) } else { sym::choice(3) };
    let mut e = Enc::new(t, ce(c), &[("did:x:b#k", 3)]);
    if auth { e = e.from("did:x:a#k", 1); }
    let honest = ce(c).name();
    let (n, same) = match sym::choice(3) {
        0 => near(honest),
        1 => { let o = ce(sym::choice(3)).name(); (o.to_string(), o == honest) }
        _ => { const N: &[&str] = &["A128CBC-HS256", "A192CBC-HS384", "A128GCM", "A192GCM", "C20P", "XC20PKW", "C20PKW", "A256CBC-HS512 ", "none", "A256KW", "A256GCMKW", "dir", "A256CBC+HS512", "A256CBC", "A256CTR", "A256-GCM", "AES256GCM", "AES-256-GCM", "A256CBCHS512", "XC20P+ECDH-ES+A256KW", "XChaCha20Poly1305", "XChaCha20-Poly1305", "xchacha20poly1305", "ChaCha20-Poly1305", ""]; (N[sym::choice(N.len() as u32) as usize].to_string(), false) }
    };
    e.h_enc = Some(n);
    judge(&e.pack(pt.as_bytes()), &d, &s, &m, same && (!auth || ce(c) == Ce::Cbc), 31)
}
/// key algorithm: names near the right one, the other kind's name, other registered names; with the key derived under the right name or under the one written
pub fn alg_names() {
    let t = kt(sym::choice(2)); let (a, b) = (a(t, Kt::Ed), b(t));
    let d = Dids::new(vec![a.doc(), b.doc()]); let s = Secs::new(b.secrets());
    let m = msg(); let pt = run(m.pack_plaintext(&d)).unwrap_or_default();
    let auth = sym::flip();
    let mut e = Enc::new(t, Ce::Cbc, &[("did:x:b#k", 3)]);
    if auth { e = e.from("did:x:a#k", 1); }
    let honest = if auth { PU } else { ES };
    let (n, same) = match sym::choice(3) { 0 => near(honest), 1 => (if auth { ES } else { PU }.to_string(), false), _ => { const N: &[&str] = &["ECDH-ES", "ECDH-1PU", "ECDH-ES+A128KW", "ECDH-ES+A192KW", "ECDH-ES+XC20PKW", "ECDH-ES+C20PKW", "ECDH-1PU+A128KW", "ECDH-1PU+A192KW", "ECDH-1PU+XC20PKW", "ECDH-1PU+C20PKW", "A256KW", "A256GCMKW", "dir", "none", "RSA-OAEP-256", "ECDH-ES+A256KW+", "ECDH-SS+A256KW", "ECDH-ES-A256KW", "ECDH-1PUv4+A256KW", "ECDH_ES+A256KW", "ECDH_1PU+A256KW", "ECDH-ES+AES256KW", ""]; (N[sym::choice(N.len() as u32) as usize].to_string(), false) } };
    e.h_alg = Some(n);
    if sym::flip() { e.kdf_alg = Some(honest.to_string()); }
    // without the markers of the sender, or with them
    if sym::flip() { if auth { e.h_skid = Some(None); e.h_apu = Some(None); } else { e.h_skid = Some(Some("did:x:a#k".into())); e.h_apu = Some(Some("did:x:a#k".into())); } judge_never(&e.pack(pt.as_bytes()), &d, &s); return; }
    judge(&e.pack(pt.as_bytes()), &d, &s, &m, same, 41)
}
fn judge_never(p: &str, d: &Dids, s: &Secs) { match run(Message::unpack(p, d, s, &UnpackOptions::default())) { Ok(_) => sym::fail(45), Err(e) => { sym::obs(kcode(e.kind())); sym::reach(3); } } }
/// signature algorithm: the key's own one named exactly, or the message is refused
pub fn sign_names() {
    let si = sym::choice(3); let sk_i = sym::choice(3);
    let a = a(Kt::X, skt(sk_i));
    let d = Dids::new(vec![a.doc()]); let s = Secs::new(vec![]);
    let m = msg(); let pt = run(m.pack_plaintext(&d)).unwrap_or_default();
    let (n, same) = match sym::choice(3) { 0 => near(SG[si as usize]), 1 => (SG[si as usize].to_string(), true), _ => (OTHER[sym::choice(OTHER.len() as u32) as usize].to_string(), false) };
    let mut j = Jws::new(skt(sk_i), 2, "did:x:a#s", pt.as_bytes());
    let h = b64(sig_header(&n).as_bytes());
    let inp = [h.as_str(), ".", j.payload.as_str()].concat();
    j.sigs[0].2 = b64(&raw_sign(skt(sk_i), 2, sig_alg(skt(sk_i)).1, inp.as_bytes()));
    j.sigs[0].1 = h;
    // "ES256" is one letter short of "ES256K"
    let exact = SG.iter().position(|x| *x == n);
    let ok = match exact { Some(x) => x as u32 == sk_i, None => { sym::check(!same, 50); false } };
    judge(&j.json(), &d, &s, &m, ok, 51)
}
/// the same for a rotation token
pub fn token_names() {
    let si = sym::choice(3); let ki = sym::choice(3);
    let p = Who::new("did:x:p").auth("s", skt(ki), 2);
    let d = Dids::new(vec![p.doc()]);
    let (n, _) = match sym::choice(3) { 0 => near(SG[si as usize]), 1 => (SG[si as usize].to_string(), true), _ => (OTHER[sym::choice(OTHER.len() as u32) as usize].to_string(), false) };
    let t = jwt(skt(ki), 2, &jwt_header("JWT", &n, "did:x:p#s"), b"{\"iss\":\"did:x:p\",\"sub\":\"did:x:a\"}");
    let ok = SG.iter().position(|x| *x == n) == Some(ki as usize);
    match run(FromPrior::unpack(&t, &d)) { Ok((f, k)) => { sym::check(ok && f.iss == "did:x:p" && k == "did:x:p#s", 61); sym::reach(1); } Err(e) => { sym::obs(kcode(e.kind())); sym::check(!ok, 62); sym::reach(2); } }
}
